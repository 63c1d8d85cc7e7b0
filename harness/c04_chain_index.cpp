// Reads point sets from a file, lets the real code choose the chain order.
//   mode "raw":    Chain::calc_chain_index on each set, on a reused index array
//   mode "system": order held by the chain systems after construction and after every completed step
#include <fstream>
#include <iostream>
#include "jout.hpp"
#include "interaction/interaction.hpp"
#include "interaction/newtonian.hpp"
#include "particle-system/archain.hpp"
#include "particle-system/chain-system.hpp"
#include "particle-system/chain.hpp"
#include "particles/point-particles.hpp"
#include "type-class.hpp"
using namespace hub;
using Ty = Types<double>;
using Vec = Ty::Vector;
using Force = force::Interactions<force::NewtonianGrav>;
using Pts = particles::PointParticles<Ty>;

template <typename IdxA, typename PosA>
void emit(IdxA const &idx, PosA const &pos, const char *src) {
    std::cout << "{\"src\":\"" << src << "\",\"pos\":" << jout::vecs(pos) << ",\"idx\":" << jout::nums(idx) << "}\n";
}

template <typename Sys>
void drive(std::vector<std::vector<Vec>> const &frames, const char *src) {
    // frame 0 is the initial position; each following frame is reached by one drift of length 1
    std::vector<typename Pts::Particle> ps;
    for (auto const &p : frames[0]) ps.emplace_back(1.0, p, Vec(0, 0, 0));
    Sys s(0.0, ps);
    emit(s.index(), s.pos(), src);
    for (size_t f = 1; f < frames.size(); ++f) {
        s.pre_iter_process();
        // move to the frame: write the state through the public state array
        Ty::ScalarArray y;
        s.write_to_scalar_array(y);
        Ty::VectorArray chain(frames[f].size());
        Ty::VectorArray want(frames[f].begin(), frames[f].end());
        Chain::calc_chain(want, chain, s.index());
        for (size_t i = 0; i < chain.size(); ++i) {
            y[s.pos_offset() + 3 * i] = chain[i].x, y[s.pos_offset() + 3 * i + 1] = chain[i].y, y[s.pos_offset() + 3 * i + 2] = chain[i].z;
        }
        s.read_from_scalar_array(y);
        s.post_iter_process();
        emit(s.index(), s.pos(), src);
    }
}

int main(int argc, char **argv) {
    std::ifstream in(argv[2]);
    std::string mode = argv[1];
    size_t n, m;
    Ty::IdxArray idx;
    if (mode == "raw") {
        while (in >> n) {
            Ty::VectorArray pos;
            for (size_t i = 0; i < n; ++i) {
                double x, y, z;
                in >> x >> y >> z;
                pos.emplace_back(x, y, z);
            }
            Chain::calc_chain_index(pos, idx);
            emit(idx, pos, "raw");
        }
    } else {
        while (in >> n >> m) {
            std::vector<std::vector<Vec>> frames(m);
            for (auto &f : frames)
                for (size_t i = 0; i < n; ++i) {
                    double x, y, z;
                    in >> x >> y >> z;
                    f.emplace_back(x, y, z);
                }
            drive<system::ChainSystem<Pts, Force>>(frames, "chain");
            drive<system::ARchainSystem<Pts, Force, system::ReguType::LogH>>(frames, "archain");
        }
    }
}

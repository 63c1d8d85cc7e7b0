// Interpreter over the real particle systems with integer valued mock forces.
// -DFS=<number> selects the force set, -DSC=<scalar> the type system.
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include "jout.hpp"
#include "interaction/interaction.hpp"
#include "interaction/newtonian.hpp"
#include "kahan-number.hpp"
#include "particle-system/archain.hpp"
#include "particle-system/base-system.hpp"
#include "particle-system/chain-system.hpp"
#include "particle-system/chain.hpp"
#include "particle-system/regu-system.hpp"
#include "particles/point-particles.hpp"
#include "type-class.hpp"
using namespace hub;
#ifndef SC
#define SC double
#endif
using Ty = Types<SC, Vec3>;
using Pts = particles::PointParticles<Ty>;

#define INTERNAL Inner
#include "mocks.hpp"
// integers up to rounding noise
long qi(double x) {
    double r = std::round(x);
    if (!(std::fabs(r) < 1.9e9) || std::fabs(x - r) > 1e-6 + 1e-10 * std::fabs(r)) return jout::BAD;
    return (long)r;
}
template <typename A>
std::string V(A const &a) {
    std::string s = "[";
    for (size_t i = 0; i < a.size(); ++i)
        s += (i ? ",[" : "[") + std::to_string(qi(double(a[i].x))) + "," + std::to_string(qi(double(a[i].y))) + "," + std::to_string(qi(double(a[i].z))) + "]";
    return s + "]";
}
template <typename A>
std::string F(A const &y, size_t off, size_t n, double scale = 1) {
    std::string s = "[";
    for (size_t i = 0; i < n; ++i)
        s += (i ? ",[" : "[") + std::to_string(qi(double(y[off + 3 * i]) * scale)) + "," + std::to_string(qi(double(y[off + 3 * i + 1]) * scale)) + "," + std::to_string(qi(double(y[off + 3 * i + 2]) * scale)) + "]";
    return s + "]";
}

template <typename Sys, bool chain, int regu>  // regu: 0 plain, 1 LogH, 2 TTL, 3 None
struct Life {
    Sys s;
    std::string out;
    size_t n;
    double om0 = 0, be0 = 0;
    static constexpr bool vd = Force::ext_vel_dep;
    Life(double t, std::vector<typename Pts::Particle> const &ps) : s(t, ps), n(ps.size()) {
        if constexpr (regu > 0) om0 = double(s.omega()), be0 = double(s.bindE());
    }
    double T() {
        double r = 0;
        for (size_t i = 0; i < n; ++i) {
            auto const &v = s.vel()[i];
            r += 0.5 * double(s.mass()[i]) * (double(v.x) * double(v.x) + double(v.y) * double(v.y) + double(v.z) * double(v.z));
        }
        return r;
    }
    double U() {
        double r = 0;
        for (size_t i = 0; i < n; ++i)
            for (size_t j = i + 1; j < n; ++j) {
                double dx = double(s.pos()[i].x) - double(s.pos()[j].x), dy = double(s.pos()[i].y) - double(s.pos()[j].y), dz = double(s.pos()[i].z) - double(s.pos()[j].z);
                r += double(s.mass()[i]) * double(s.mass()[j]) / std::sqrt(dx * dx + dy * dy + dz * dz);
            }
        return r;
    }
    double Spos() {
        if constexpr (regu == 1) return double(s.bindE()) + T();
        if constexpr (regu == 2) return double(s.omega());
        return 1;
    }
    double Svel() {
        if constexpr (regu == 1 || regu == 2) return U();
        return 1;
    }
    std::string flat(typename Ty::StateScalarArray const &y, double sp, double sv, double o0, double b0, bool slope = false) {
        std::ostringstream o;
        o << "{\"t\":" << qi(double(y[0]) * sp) << ",\"pos\":" << F(y, s.pos_offset(), n, sp) << ",\"vel\":" << F(y, s.vel_offset(), n, sv) << ",\"aux\":" << F(y, s.auxi_vel_offset(), vd ? n : 0, sv);
        if constexpr (regu > 0)
            o << ",\"om\":" << qi((double(y[s.omega_offset()]) - o0) * sv) << ",\"be\":" << qi((double(y[s.bindE_offset()]) - b0) * sv);
        else
            o << ",\"om\":0,\"be\":0";
        o << ",\"len\":" << y.size() << "}";
        return o.str();
    }
    template <typename I>
    static std::string one_based(I const &ix) {
        std::string r = "[";
        for (size_t i = 0; i < ix.size(); ++i) r += (i ? "," : "") + std::to_string(ix[i] + 1);
        return r + "]";
    }
    std::string obs() {
        typename Ty::StateScalarArray y;
        s.write_to_scalar_array(y);
        std::ostringstream o;
        o << "\"t\":" << qi(double(s.time())) << ",\"pos\":" << V(s.pos()) << ",\"vel\":" << V(s.vel()) << ",\"img\":" << flat(y, 1, 1, om0, be0) << ",\"inc\":" << flat(s.increment(), 1, 1, 0, 0);
        if constexpr (chain)
            o << ",\"idx\":" << one_based(s.index());
        else {
            o << ",\"idx\":[";
            for (size_t i = 0; i < n; ++i) o << (i ? "," : "") << i + 1;
            o << "]";
        }
        return o.str();
    }
    // magnitudes the specification can follow with 32 bit integers
    bool tame(double dt) {
        double v = 0, x = 0, a = 0, m = 0;
        typename Ty::StateScalarArray y;
        s.write_to_scalar_array(y);
        for (size_t i = 1; i < 1 + 6 * n + (vd ? 3 * n : 0); ++i) v = std::max(v, std::fabs(double(y[i])));
        for (size_t i = 0; i < n; ++i) m = std::max(m, double(s.mass()[i])), x = std::max({x, std::fabs(double(s.pos()[i].x)), std::fabs(double(s.pos()[i].y)), std::fabs(double(s.pos()[i].z))});
        a = 2 * n * m * (v + x) * 2 + 3 * n + v;
        if (regu == 0 || regu == 3) return v < 1e6 && a * std::fabs(dt) < 1e7;
        return 3 * n * m * (v + std::fabs(dt) * a) * a * std::fabs(dt) < 1e9 && std::fabs(Spos()) > 1e-3 && std::fabs(Svel()) > 1e-3 && std::isfinite(U());
    }
    bool apart() {
        for (size_t i = 0; i < n; ++i)
            for (size_t j = i + 1; j < n; ++j)
                if (double(s.pos()[i].x) == double(s.pos()[j].x) && double(s.pos()[i].y) == double(s.pos()[j].y) && double(s.pos()[i].z) == double(s.pos()[j].z)) return false;
        return true;
    }
    void run(std::istream &in) {
        out = "{\"e\":\"new\"," + obs() + "}";
        std::string op;
        while (in >> op) {
            std::ostringstream e;
            e << ",{\"e\":\"" << op << "\",";
            if (op == "D" || op == "K") {
                double dt;
                in >> dt;
                if (!apart() || !tame(dt)) break;
                double h = dt * (op == "D" ? Spos() : Svel());
                if (op == "D")
                    s.drift(h);
                else
                    s.kick(h);
                e << "\"dt\":" << dt << ",";
                if (!tame(1) || !apart()) break;
            } else if (op == "P") {
                s.pre_iter_process();
            } else if (op == "O") {
                s.post_iter_process();
                if constexpr (chain) {
                    typename Ty::IdxArray g(n);
                    Chain::calc_chain_index(s.pos(), g);
                    e << "\"greedy\":" << one_based(g) << ",";
                }
            } else if (op == "S") {
                int b;
                in >> b;
                s.collect_increment(b);
                e << "\"on\":" << (b ? "true" : "false") << ",";
            } else if (op == "C") {
                s.clear_increment();
            } else if (op == "L") {
                // the values of the state array, replaced by small integers
                typename Ty::StateScalarArray y;
                s.write_to_scalar_array(y);
                int seed;
                in >> seed;
                std::srand(seed);
                for (size_t i = 0; i < 1 + 6 * n + (vd ? 3 * n : 0); ++i) y[i] = double(std::rand() % 19 - 9);
                if constexpr (regu > 0) y[s.omega_offset()] = om0 + double(std::rand() % 9 + 1), y[s.bindE_offset()] = be0 + double(std::rand() % 9 + 1);
                s.read_from_scalar_array(y);
                e << "\"y\":" << flat(y, 1, 1, om0, be0) << ",";
                if (!apart()) break;
            } else if (op == "V") {
                if (!apart() || !tame(1)) break;
                typename Ty::StateScalarArray y;
                double sp = Spos(), sv = Svel();
                s.evaluate_general_derivative(y);
                e << "\"s\":" << flat(y, sp, sv, 0, 0) << ",";
            } else if (op == "A") {
                typename Ty::VectorArray acc(n);
                s.evaluate_acc(acc);
                e << "\"acc\":" << V(acc) << ",";
            }
            e << obs() << "}";
            out += e.str();
        }
    }
};

template <typename Sys, bool chain, int regu>
void live(std::istream &in, const char *rn, std::string const &name) {
    size_t n;
    double t;
    in >> n >> t;
    std::vector<typename Pts::Particle> ps;
    std::string ms;
    for (size_t i = 0; i < n; ++i) {
        double m, x, y, z, u, v, w;
        in >> m >> x >> y >> z >> u >> v >> w;
        ps.emplace_back(m, x, y, z, u, v, w);
        ms += (i ? "," : "") + std::to_string(long(m));
    }
    Life<Sys, chain, regu> life(t, ps);
    life.run(in);
    std::cout << "{\"src\":\"" << name << "\",\"sys\":{\"chain\":" << (chain ? "true" : "false") << ",\"regu\":\"" << rn << "\",\"forces\":" << FN << ",\"m\":[" << ms << "]},\"ev\":[" << life.out << "]}\n";
}

int main(int, char **argv) {
    using namespace hub::system;
    std::ifstream f(argv[1]);
    std::string line, k;
    while (std::getline(f, line)) {
        std::istringstream in(line);
        in >> k;
        if (k == "simple") live<SimpleSystem<Pts, Force>, false, 0>(in, "plain", k);
        if (k == "chain") live<ChainSystem<Pts, Force>, true, 0>(in, "plain", k);
        if (k == "logh") live<RegularizedSystem<Pts, Force, ReguType::LogH>, false, 1>(in, "LogH", k);
        if (k == "ttl") live<RegularizedSystem<Pts, Force, ReguType::TTL>, false, 2>(in, "TTL", k);
        if (k == "none") live<RegularizedSystem<Pts, Force, ReguType::None>, false, 3>(in, "None", k);
        if (k == "clogh") live<ARchainSystem<Pts, Force, ReguType::LogH>, true, 1>(in, "LogH", k);
        if (k == "cttl") live<ARchainSystem<Pts, Force, ReguType::TTL>, true, 2>(in, "TTL", k);
        if (k == "cnone") live<ARchainSystem<Pts, Force, ReguType::None>, true, 3>(in, "None", k);
    }
}

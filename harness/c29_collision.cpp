// Sticky collisions: <kind> <n> <end> <h> (r x y z vx vy vz)*
// kind s/t: called on a container of sized / tidal particles; c: as the stop condition of a run in which particles drift.
#include <fstream>
#include <iostream>
#include <sstream>
#include "jout.hpp"
#include "args-callback/collision.hpp"
#include "interaction/interaction.hpp"
#include "interaction/newtonian.hpp"
#include "particle-system/base-system.hpp"
#include "particle-system/chain-system.hpp"
#include "particles/finite-size.hpp"
#include "particles/tide-particles.hpp"
#include "simulator.hpp"
#include "type-class.hpp"
using namespace hub;
using Ty = Types<double>;
using SP = particles::SizeParticles<Ty>;
using TP = particles::TideParticles<Ty>;
using F = force::Interactions<force::NewtonianGrav>;
std::ostringstream ev;
bool first;
template <typename S>
void state(char const *what, S const &s, int touch) {
    ev << (first ? "" : ",") << "{\"e\":\"" << what << "\",\"t\":" << jout::q(s.time()) << ",\"touch\":" << touch << ",\"pos\":" << jout::vecs(s.pos()) << "}";
    first = false;
}
struct Drift {
    template <typename S> double iterate(S &s, double h) { s.drift(h); return h; }
};
template <typename Sys>
void run(std::vector<typename Sys::Particle> const &ps, double end, double h) {
    Simulator<Sys, Drift> sim(0, ps);
    typename decltype(sim)::RunArgs a;
    a.add_stop_condition(end);
    a.add_stop_condition(callback::StickyCollision());
    a.step_size = h;
    a.add_operation([](auto &p, double) { state("at", p, -1); });
    sim.run(a);
}
int main(int, char **argv) {
    std::ifstream f(argv[1]);
    std::string line, k;
    while (std::getline(f, line)) {
        std::istringstream in(line);
        int n;
        double end, h;
        in >> k >> n >> end >> h;
        std::vector<SP::Particle> sp;
        std::vector<TP::Particle> tp;
        std::string r, v;
        for (int i = 0; i < n; ++i) {
            double q[7];
            for (auto &x : q) in >> x;
            sp.emplace_back(1, q[0], q[1], q[2], q[3], q[4], q[5], q[6]);
            tp.emplace_back(1, q[0], 7, 8, q[1], q[2], q[3], q[4], q[5], q[6]);
            r += (i ? "," : "") + std::to_string((long)q[0]);
            v += std::string(i ? "," : "") + "[" + std::to_string((long)q[4]) + "," + std::to_string((long)q[5]) + "," + std::to_string((long)q[6]) + "]";
        }
        ev.str("");
        first = true;
        callback::StickyCollision c;
        if (k == "s") { SP p(0, sp); state("call", p, c(p, h)); }
        else if (k == "t") { TP p(0, tp); state("call", p, c(p, h)); }
        else if (k == "c") run<system::SimpleSystem<SP, F>>(sp, end, h);
        else if (k == "T") run<system::SimpleSystem<TP, F>>(tp, end, h);
        else abort();
        std::cout << "{\"end\":" << end << ",\"h\":" << h << ",\"r\":[" << r << "],\"v\":[" << v << "],\"ev\":[" << ev.str() << "]}" << std::endl;
    }
}

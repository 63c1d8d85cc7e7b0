// Drives the real Simulator::run with a scripted particle system and a scripted iterator,
// and records every callback in order.
#include <fstream>
#include <iostream>
#include <sstream>
#include "jout.hpp"
#include "interaction/interaction.hpp"
#include "interaction/newtonian.hpp"
#include "particle-system/base-system.hpp"
#include "particles/point-particles.hpp"
#include "simulator.hpp"
#include "type-class.hpp"
using namespace hub;
using Ty = Types<double>;
using Pts = particles::PointParticles<Ty>;
using Base = system::SimpleSystem<Pts, force::Interactions<force::NewtonianGrav>>;

static std::ostringstream ev;
static bool first = true;
static long events = 0, limit = 4000;
struct TooLong {};
std::ostream &rec() {
    if (++events > limit) throw TooLong{};
    if (!first) ev << ",";
    first = false;
    return ev;
}
static double g_scale = 1;

struct ScriptSys : public Base {
    using Base::Base;
    double step_scale() const { return g_scale; }
    void pre_iter_process() { rec() << "{\"e\":\"pre\",\"t\":" << jout::q(this->time()) << "}"; }
    void post_iter_process() { rec() << "{\"e\":\"post\",\"t\":" << jout::q(this->time()) << "}"; }
};

struct Entry {
    int frac;
    long next;
};
static std::vector<Entry> script;
static size_t at = 0;
static bool automatic = false;
// with the automatic first step, steps are integers only up to rounding
double near(double h) { return automatic && std::fabs(h - std::round(h)) < 1e-8 * std::fabs(h) ? std::round(h) : h; }
static double got_atol = -1, got_rtol = -1;

struct ScriptIter {
    void set_atol(double a) { got_atol = a; }
    void set_rtol(double a) { got_rtol = a; }
    double iterate(ScriptSys &p, double h0) {
        double h = near(h0);
        double dt = h / g_scale, next = h;
        if (at < script.size()) {
            auto s = script[at++];
            if (s.frac > 1) {
                double m = std::floor(std::fabs(dt) / s.frac);
                if (m < 1) m = std::min(1.0, std::fabs(dt));
                dt = (dt < 0 ? -m : m);
            }
            next = (h < 0 ? -1 : 1) * double(s.next) * g_scale;
        }
        double t0 = p.time();
        p.time() = near(p.time() + dt);
        rec() << "{\"e\":\"iter\",\"t\":" << jout::q(t0) << ",\"h\":" << jout::q(h) << ",\"dt\":" << jout::q(dt) << ",\"next\":" << jout::q(next) << "}";
        return next;
    }
};

using Sim = Simulator<ScriptSys, ScriptIter>;

void cb(ScriptSys &p, double h, const char *name, int i) {
    rec() << "{\"e\":\"" << name << "\",\"i\":" << i << ",\"t\":" << jout::q(p.time()) << ",\"h\":" << jout::q(near(h)) << "}";
}

// the automatic step of two unit masses at a distance
double auto_step(double d) {
    Pts::Particle a(1.0, 0, 0, 0, 0, 0, 0), b(1.0, d, 0, 0, 0, 0, 0);
    Sim sim(0, a, b);
    Sim::RunArgs args;
    double got = 0;
    args.add_stop_condition([&](ScriptSys &, double h) {
        got = h;
        return true;
    });
    sim.run(args);
    return got;
}

int main(int, char **argv) {
    std::ifstream in(argv[1]);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream s(line);
        double start, end, h0;
        long rn, rd;
        int autos = 0, endset, nstart, nop, nstop, ncond, m;
        s >> start >> end >> endset >> h0 >> g_scale >> rn >> rd >> nstart >> nop >> nstop >> ncond;
        std::vector<int> fire(ncond);
        for (auto &f : fire) s >> f;
        s >> m;
        script.resize(m);
        for (auto &e : script) s >> e.frac >> e.next;
        at = 0, first = true, events = 0;
        ev.str("");
        got_atol = got_rtol = -1;

        automatic = s >> autos && autos && g_scale != 0 && h0 > 0;
        // the time to fall grows with the distance to the power of 3/2
        double d = automatic ? std::cbrt(std::pow(h0 / auto_step(1), 2)) : 1;
        Pts::Particle a(1.0, 0, 0, 0, 0, 0, 0), b(1.0, d, 0, 0, 0, 0, 0);
        Sim sim(start, a, b);
        Sim::RunArgs args;
        if (!automatic) args.step_size = h0;
        args.time_rtol = double(rn) / double(rd);
        args.atol = 0.25;
        args.rtol = 0.125;
        std::vector<int> asked(ncond, 0);
        // register in an interleaved order: lists must keep their own order
        for (int i = 0; i < std::max({nstart, nop, nstop, ncond}); ++i) {
            if (i < nstop) args.add_stop_point_operation([i](ScriptSys &p, double h) { cb(p, h, "stop", i + 1); });
            if (i < nop) args.add_operation([i](ScriptSys &p, double h) { cb(p, h, "op", i + 1); });
            if (i < ncond)
                args.add_stop_condition([i, &asked, &fire](ScriptSys &p, double h) {
                    bool r = (asked[i]++ == fire[i]);
                    rec() << "{\"e\":\"cond\",\"i\":" << i + 1 << ",\"r\":" << (r ? "true" : "false") << ",\"t\":" << jout::q(p.time()) << ",\"h\":" << jout::q(near(h)) << "}";
                    return r;
                });
            if (i < nstart) args.add_start_point_operation([](ScriptSys &p, double h, int k) { cb(p, h, "start", k); }, i + 1);
        }
        if (endset) args.add_stop_condition(end);
        std::ostringstream muted;
        auto *old = std::cout.rdbuf(muted.rdbuf());
        bool too_long = false;
        try {
            sim.run(args);
        } catch (TooLong &) {
            too_long = true;
        }
        // the tolerances of another run, with a system that has run before
        double atol1 = got_atol, rtol1 = got_rtol;
        got_atol = got_rtol = -1;
        Sim::RunArgs more;
        more.step_size = 1;
        more.atol = 0;
        more.rtol = std::ldexp(1.0, -70);
        more.add_stop_condition([](ScriptSys &, double) { return true; });
        std::string const events_of_run = ev.str();
        events = 0;
        sim.run(more);
        std::cout.rdbuf(old);
        std::cout << "{\"cfg\":{\"start\":" << start << ",\"end\":" << (endset ? end : 20000) << ",\"endset\":" << (endset ? "true" : "false") << ",\"h0\":" << h0 << ",\"scale\":" << g_scale
                  << ",\"rn\":" << rn << ",\"rd\":" << rd << ",\"nstart\":" << nstart << ",\"nop\":" << nop << ",\"nstop\":" << nstop << ",\"ncond\":" << ncond
                  << "},\"tol\":[" << jout::q(atol1, 8) << "," << jout::q(rtol1, 8) << "," << jout::q(got_atol, 8) << "," << jout::q(got_rtol, std::ldexp(1.0, 70)) << "],\"long\":" << (too_long ? "true" : "false") << ",\"ev\":[" << events_of_run << "]}\n";
    }
}

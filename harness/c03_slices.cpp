// Drives the slice callbacks directly and through Simulator::run (as operation and as stop condition).
#include <fstream>
#include <iostream>
#include <sstream>
#include "jout.hpp"
#include "args-callback/callbacks.hpp"
#include "interaction/interaction.hpp"
#include "interaction/newtonian.hpp"
#include "particle-system/base-system.hpp"
#include "particles/point-particles.hpp"
#include "simulator.hpp"
#include "type-class.hpp"
using namespace hub;
using Ty = Types<double>;
using Pts = particles::PointParticles<Ty>;
using Sys = system::SimpleSystem<Pts, force::Interactions<force::NewtonianGrav>>;

static bool fired, good, answer;
static Sys *expect_sys;
static double expect_h;
void note(Sys &p, double h) {
    fired = true;
    good = (&p == expect_sys && h == expect_h);
}
struct VoidOp {
    void operator()(Sys &p, double h) { note(p, h); }
};
struct BoolOp {
    bool operator()(Sys &p, double h) {
        note(p, h);
        return answer;
    }
};

static std::ostringstream ev;
static bool first;
std::ostream &rec() {
    if (!first) ev << ",";
    first = false;
    return ev;
}
struct Conf {
    std::string kind;
    double start, end;
    int num, base;
};
void rec_set(Conf const &c) {
    rec() << "{\"e\":\"set\",\"kind\":\"" << c.kind << "\",\"start\":" << 4 * c.start << ",\"end\":" << 4 * c.end << ",\"num\":" << c.num << ",\"base\":" << c.base << "}";
}
void rec_call(double t, bool f, bool ret, bool args) {
    rec() << "{\"e\":\"call\",\"t\":" << 4 * t << ",\"fired\":" << (f ? "true" : "false") << ",\"ret\":" << (ret ? "true" : "false") << ",\"args\":" << (args ? "true" : "false") << "}";
}

template <typename Op>
struct Slices {
    callback::TimeSlice<Op, double> ts;
    callback::StepSlice<Op> ss;
    callback::LogTimeSlice<Op, double> ls;
    std::string kind;
    void make(Conf const &c) {
        kind = c.kind;
        if (kind == "time") ts = callback::TimeSlice<Op, double>(Op{}, c.start, c.end, c.num);
        if (kind == "step") ss = callback::StepSlice<Op>(Op{}, c.num);
        if (kind == "log") ls = callback::LogTimeSlice<Op, double>(Op{}, c.start, c.end, c.num);
    }
    void reset(Conf const &c) {
        if (c.kind != kind) return make(c);
        if (kind == "time") ts.reset_slice_params(c.start, c.end, c.num);
        if (kind == "step") ss.reset_slice_params(c.num);
        if (kind == "log") ls.reset_slice_params(c.start, c.end, c.num);
    }
    bool call(Sys &p, double h) {
        if constexpr (std::is_same_v<Op, VoidOp>) {
            if (kind == "time") ts(p, h);
            if (kind == "step") ss(p, h);
            if (kind == "log") ls(p, h);
            return false;
        } else {
            if (kind == "time") return ts(p, h);
            if (kind == "step") return ss(p, h);
            return ls(p, h);
        }
    }
};

Conf read_conf(std::istream &s) {
    Conf c;
    s >> c.kind >> c.start >> c.end >> c.num >> c.base;
    return c;
}

Sys make_sys(double t) {
    Pts::Particle a(1.0, 0, 0, 0), b(1.0, 1, 0, 0);
    return Sys(t, std::vector<Pts::Particle>{a, b});
}

template <typename Op>
void direct(std::istream &s) {
    Slices<Op> sl;
    auto sys = make_sys(0);
    double off;
    s >> off;  // added to every time handed to the code: keeps it off the instants where those are not exact
    bool made = false;
    std::string w;
    double h = 0.5;
    while (s >> w) {
        if (w == "set") {
            auto c = read_conf(s);
            if (made)
                sl.reset(c);
            else
                sl.make(c);
            made = true;
            rec_set(c);
        } else {
            double t;
            int ans;
            s >> t >> ans;
            sys.time() = t + off;
            answer = ans, fired = false, good = true, expect_sys = &sys, expect_h = (h += 0.25);
            bool r = sl.call(sys, h);
            bool okargs = good && (!fired || std::is_same_v<Op, VoidOp> || r == bool(ans));
            rec_call(t + off, fired, r, okargs);
        }
    }
}

struct UnitIter {
    double iterate(Sys &p, double h) {
        p.time() += h;
        return h;
    }
};

// as stop condition ("cond") or as per-step operation ("op") of a run with unit steps
void in_run(std::istream &s, bool as_cond) {
    auto c = read_conf(s);
    int stop_after, start, steps;
    s >> start >> steps >> stop_after;  // the wrapped condition says "stop" at its stop_after-th invocation
    Pts::Particle a(1.0, 0, 0, 0), b(1.0, 1, 0, 0);
    Simulator<Sys, UnitIter> sim(double(start), a, b);
    typename Simulator<Sys, UnitIter>::RunArgs args;
    args.step_size = 1;
    rec_set(c);
    bool f = false;
    int seen = 0, asked = 0;
    auto cond = [&](Sys &, double) {
        f = true;
        return ++seen == stop_after;
    };
    auto oper = [&](Sys &, double) { f = true; };
    auto tell = [&](Sys &p, double) {
        rec_call(p.time(), f, f, true);
        f = false;
        if (++asked > 3000) throw 1;
    };
    if (as_cond) {
        if (c.kind == "time") args.add_stop_condition(callback::TimeSlice(cond, c.start, c.end, c.num));
        if (c.kind == "step") args.add_stop_condition(callback::StepSlice(cond, c.num));
        if (c.kind == "log") args.add_stop_condition(callback::LogTimeSlice(cond, c.start, c.end, c.num));
        args.add_operation(tell);
    } else {
        if (c.kind == "time") args.add_operation(callback::TimeSlice(oper, c.start, c.end, c.num));
        if (c.kind == "step") args.add_operation(callback::StepSlice(oper, c.num));
        if (c.kind == "log") args.add_operation(callback::LogTimeSlice(oper, c.start, c.end, c.num));
        args.add_operation(tell);
        args.add_stop_condition(double(start + steps));
    }
    try {
        sim.run(args);
    } catch (int) {
        rec() << "{\"e\":\"endless\"}";
    }
}

int main(int, char **argv) {
    std::ifstream in(argv[1]);
    std::string line, mode;
    while (std::getline(in, line)) {
        std::istringstream s(line);
        s >> mode;
        ev.str("");
        first = true;
        if (mode == "void") direct<VoidOp>(s);
        if (mode == "bool") direct<BoolOp>(s);
        if (mode == "cond") in_run(s, true);
        if (mode == "op") in_run(s, false);
        std::cout << "{\"mode\":\"" << mode << "\",\"ev\":[" << ev.str() << "]}" << std::endl;
    }
}

// Drives the real Bulirsch-Stoer iterator with a scripted system, error estimator and step controller.
// Script line: <sys|ode> <number of macro steps> { <h> <number of attempts> { 7 x (error in 1/1024, ratio num, ratio den) } }
#include <fstream>
#include <iostream>
#include <sstream>
#include "jout.hpp"
#include "type-class.hpp"
#include "integrator/symplectic/symplectic-integrator.hpp"
#include "ode-iterator/Bulirsch-Stoer.hpp"
using namespace hub;
using Ty = Types<double>;
using Arr = Ty::StateScalarArray;
constexpr int NV = 20;  // more than the arrays hold inline
struct Level {
    long e, a, b;
};
struct Seq {
    std::string kinds;
    std::vector<long> c;
    int n{0};
    bool clean{true};
};
static std::vector<std::vector<Level>> script;  // attempts of this macro step
static std::vector<Seq> seqs;                   // what happened: every sequence of substeps
static std::vector<double> start(NV);
static int NS[8] = {1, 2, 3, 5, 8, 12, 17, 25};
static bool kdk = false;

int level() {
    for (int i = 0; !seqs.empty() && i < 8; ++i)
        if (NS[i] == seqs.back().n) return i;
    return -1;
}
Level cur() {
    int k = level();
    size_t t = 0;
    for (auto &q : seqs) t += q.n == 1;  // every attempt starts with one single substep
    if (k < 1 || k > 7 || script.empty() || t < 1) return {0, 1, 1};
    return script[std::min(t, script.size()) - 1][k - 1];
}

template <typename T>
struct Err {
    Err() = default;
    Err(double, double) {}
    static inline double at = 0, rt = 0;
    void set_atol(double a) { at = a; }
    void set_rtol(double a) { rt = a; }
    template <typename A, typename B, typename C>
    double error(A const &, B const &, C const &) {
        return cur().e / 1024.0;
    }
    template <typename A, typename B>
    double error(A const &, B const &) {
        return cur().e / 1024.0;
    }
};
template <typename T>
struct Ctl {
    void set_limiter(double, double) {}
    void set_safe_guards(double, double) {}
    void set_PID_coefficients(double, double, double) {}
    double next(size_t order, double err) const {
        auto l = cur();
        if (order != size_t(2 * level() + 1) || err * 1024 != l.e) return 1.0 / 1024;
        return double(l.a) / double(l.b);
    }
    // the largest power of two below 33/32 of the ratio, within limits that depend on the order
    double limiter(size_t order, double r) const {
        int hi = order % 3, lo = -1 - int(order % 4);
        int e = lo;
        while (e < hi && std::ldexp(1, e + 1) <= r * 33 / 32) ++e;
        return std::ldexp(1, e);
    }
};

struct Sys {
    using Scalar = double;
    std::vector<double> y = std::vector<double>(NV), at0 = y;
    Ty::ScalarArray inc;
    bool collecting = false;
    void write_to_scalar_array(Arr &a) { a.assign(y.begin(), y.end()); }
    void read_from_scalar_array(Arr const &a) { y.assign(a.begin(), a.end()); }
    Ty::ScalarArray const &increment() { return inc; }
    void collect_increment(bool b) { collecting = b; }
    void clear_increment() {
        inc.clear();
        inc.resize(NV, 0);
        pending = true;
    }
    bool pending = true;
    void op(char kind, double h) {
        if (pending) {
            seqs.emplace_back();
            seqs.back().clean = (y == start) && collecting;
            pending = false;
            at0 = y;
        }
        auto &s = seqs.back();
        s.kinds += kind;
        s.c.push_back(jout::q(h, 64));
        s.n = 0;
        for (char c : s.kinds) s.n += (c == (kdk ? 'D' : 'K'));
        // component m holds  W_m / n^(2m): extrapolation removes it from level m on
        double x = 1.0 / (double(s.n) * s.n), w = 1, p = 1;
        for (int m = 0; m < NV; ++m) {
            inc[m] = (m == 0 ? 3 : w * p);
            y[m] = at0[m] + inc[m];
            p *= x;
            if (m < 8) w *= double(NS[m]) * NS[m];
        }
    }
    void drift(double h) { op('D', h); }
    void kick(double h) { op('K', h); }
};

#ifdef KDK
using Core = integrator::LeapFrogKDK<Ty>;
#else
using Core = integrator::LeapFrogDKD<Ty>;
#endif
using BS = ode::BulirschStoer<Core, Err<Ty>, Ctl<Ty>>;

std::string list() {
    std::ostringstream o;
    o << "[";
    for (size_t i = 0; i < seqs.size(); ++i) {
        auto &s = seqs[i];
        o << (i ? "," : "") << "{\"clean\":" << (s.clean ? "true" : "false") << ",\"n\":" << s.n << ",\"k\":\"" << s.kinds << "\",\"c\":[";
        for (size_t j = 0; j < s.c.size(); ++j) o << (j ? "," : "") << s.c[j];
        o << "]}";
    }
    o << "]";
    return o.str();
}

int main(int, char **argv) {
#ifdef KDK
    kdk = true;
#endif
    std::ifstream in(argv[1]);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream s(line);
        std::string mode;
        int steps;
        s >> mode >> steps;
        BS bs;
        Sys sys;
        std::ostringstream ev;
        bs.set_rtol(0.5);
        bs.set_atol(0.25);
        double total = 0, rejected = 0;
        for (int i = 0; i < steps; ++i) {
            double h;
            int nt;
            s >> h >> nt;
            script.assign(nt, std::vector<Level>(7));
            for (auto &t : script)
                for (auto &l : t) s >> l.e >> l.a >> l.b;
            seqs.clear();
            for (int m = 0; m < NV; ++m) start[m] = (m + i) % 5 - 2;
            ev << (i ? "," : "") << "{\"h\":" << jout::q(h, 64) << ",\"lev\":[";
            for (int t = 0; t < nt; ++t) {
                ev << (t ? ",[" : "[");
                for (int k = 0; k < 7; ++k) ev << (k ? "," : "") << "[" << script[t][k].e << "," << script[t][k].a << "," << script[t][k].b << "]";
                ev << "]";
            }
            ev << "]";
            if (mode == "sys") {
                sys.y = start;
                sys.pending = true;
                sys.inc.resize(NV, 0);
                double next = bs.iterate(sys, h);
                ev << ",\"next\":" << jout::q(next, 64) << ",\"seqs\":" << list() << ",\"dy\":[";
                for (int m = 0; m < 10; ++m) ev << (m ? "," : "") << jout::qr((sys.y[m] - start[m]), 1000);
                ev << "]}";
            } else {
                // y' = (3, t): every level of the extrapolation table is exact
                Arr y;
                y.push_back(start[0]);
                y.push_back(start[1]);
                double t0 = i, time = i;
                auto f = [&](Arr const &x, Arr &d, double t) {
                    if (t == t0) {  // a new sequence
                        seqs.emplace_back();
                        seqs.back().clean = (x[0] == start[0] && x[1] == start[1]);
                    } else if (!seqs.empty()) {
                        seqs.back().c.push_back(jout::q(t - t0, 64));
                        seqs.back().n = seqs.back().c.size();
                    }
                    d.resize(2);
                    d[0] = 3;
                    d[1] = t;
                };
                double next = bs.iterate(f, y, time, h);
                double dt = time - t0;
                ev << ",\"next\":" << jout::q(next, 64) << ",\"dt\":" << jout::q(dt, 64) << ",\"dy\":[" << jout::qr((y[0] - start[0]) / 3, 64) << ","
                   << jout::qr(2 * ((y[1] - start[1]) / dt - t0), 64) << "],\"seqs\":" << list() << "}";
            }
        }
        std::cout << "{\"mode\":\"" << mode << "\",\"kdk\":" << (kdk ? "true" : "false") << ",\"tol\":[" << jout::q(Err<Ty>::at, 4) << "," << jout::q(Err<Ty>::rt, 4) << "],\"rej\":"
                  << jout::qr(bs.reject_rate(), 1e6) << ",\"ev\":[" << ev.str() << "]}\n";
    }
}

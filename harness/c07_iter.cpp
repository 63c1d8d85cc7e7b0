// The remaining iterators: refinement by step halving (seq), fixed steps (const), Gauss-Radau with the IAS15 control (ias)
// and the bare Gauss-Radau step and its predictor (radau). One script per line.
#include <fstream>
#include <iostream>
#include <sstream>
#include "jout.hpp"
#include "type-class.hpp"
#include "integrator/Gauss-Radau.hpp"
#include "ode-iterator/IAS15.hpp"
#include "ode-iterator/const-iterator.hpp"
#include "ode-iterator/sequent-iterator.hpp"
using namespace hub;
using Ty = Types<double>;
using Arr = Ty::StateScalarArray;

// ---------------------------------------------------------------- refinement
struct Lev {
    long e, ratio;
};
static std::vector<Lev> script;
struct Sub {
    bool clean{false};
    std::vector<long> h;
};
static std::vector<Sub> subs;
static std::vector<double> from_;
static double at = 0, rt = 0;

struct SeqSys {
    using Scalar = double;
    std::vector<double> y;
    long gen = 0;  // restores seen
    void write_to_scalar_array(Arr &a) {
        a.clear();
        for (auto v : y) a.push_back(v);
    }
    void read_from_scalar_array(Arr const &a) { y.assign(a.begin(), a.end()); }
};
struct MockInt {
    SPACEHUB_USING_TYPE_SYSTEM_OF(Ty);
    static constexpr size_t order{ORDER};
    template <typename S>
    void integrate(S &p, double h) {
        if (subs.empty() || p.y == from_) {
            subs.emplace_back();
            subs.back().clean = (p.y == from_);
        }
        subs.back().h.push_back(jout::q(h, 64));
        // the state tells how it was reached: number of substeps so far
        p.y[0] += 1;
        p.y[1] += 64 * h;
    }
};
template <typename T>
struct SeqErr {
    void set_atol(double a) { at = a; }
    void set_rtol(double a) { rt = a; }
    template <typename A, typename B, typename C>
    double error(A const &a, B const &coarse, C const &fine) {
        // scripted by the number of substeps of the finer result, which must come after the next coarser one
        long nf = fine[0] - from_[0], nc = coarse[0] - from_[0];
        long want = nf == 2 ? 1 : nf - 2;
        if (nf == 4) want = 2;
        size_t i = nf == 2 ? 0 : nf / 2 - 1;
        if (nc != want || i >= script.size() || a[0] != from_[0]) return 1e9;
        last = i;
        return script[i].e / 4.0;
    }
    static inline size_t last = 0;
};
template <typename T>
struct SeqCtl {
    void set_limiter(double, double) {}
    void set_safe_guards(double, double) {}
    double next(size_t, double) const { return 1.0 / 1024; }
    double next_with_limiter(size_t order, double err) const {
        if (order != ORDER) return 1.0 / 2048;
        got = err;
        return script[SeqErr<T>::last].ratio / 8.0;
    }
    static inline double got = 0;
};

void seq(std::istream &s) {
    int steps;
    s >> steps;
    ode::SequentOdeIterator<MockInt, SeqErr<Ty>, SeqCtl<Ty>> it;
    ode::ConstOdeIterator<MockInt> fixed;
    it.set_atol(0.25);
    it.set_rtol(0.5);
    SeqSys p;
    std::ostringstream ev;
    for (int i = 0; i < steps; ++i) {
        int cst;
        double h;
        s >> cst >> h;
        script.resize(10);
        for (auto &l : script) s >> l.e >> l.ratio;
        p.y.assign(20, 7);  // more than the arrays hold inline
        p.y[0] = 100 * i;
        from_ = p.y;
        subs.clear();
        double next = cst ? fixed.iterate(p, h) : it.iterate(p, h);
        bool rest = true;
        for (int m = 2; m < 20; ++m) rest &= p.y[m] == 7;
        ev << (i ? "," : "") << "{\"const\":" << (cst ? "true" : "false") << ",\"h\":" << jout::q(h, 64) << ",\"lev\":[";
        for (int m = 0; m < 10; ++m) ev << (m ? "," : "") << "[" << script[m].e << "," << script[m].ratio << "]";
        ev << "],\"subs\":[";
        for (size_t m = 0; m < subs.size(); ++m) {
            ev << (m ? "," : "") << "{\"clean\":" << (subs[m].clean ? "true" : "false") << ",\"h\":[";
            for (size_t k = 0; k < subs[m].h.size(); ++k) ev << (k ? "," : "") << subs[m].h[k];
            ev << "]}";
        }
        ev << "],\"next\":" << jout::q(next, 512) << ",\"n\":" << jout::q(p.y[0] - from_[0]) << ",\"sum\":" << jout::qr(p.y[1] - from_[1]) << ",\"rest\":" << (rest ? "true" : "false")
           << ",\"err\":" << jout::qr(SeqCtl<Ty>::got, 1000) << "}";
    }
    std::cout << "{\"mode\":\"seq\",\"order\":" << ORDER << ",\"tol\":[" << jout::q(at, 4) << "," << jout::q(rt, 4) << "],\"ev\":[" << ev.str() << "]}\n";
}

// ---------------------------------------------------------------- Gauss-Radau
// state: time, then integrals of c_m (2t)^m
struct PolySys {
    using Scalar = double;
    static constexpr bool ext_vel_dep = false;
    std::vector<int> deg;
    std::vector<double> y;
    std::vector<double> times;
    std::vector<std::string> *log = nullptr;
    double scale = 1;
    std::vector<double> origin;   // where the step began; empty: not watched
    std::vector<double> astray;   // by how much the state of every evaluation is off the exact one
    bool chained = false;  // y_m = (2t)^m by y_m' = 2m y_(m-1), deg = 1, 2, 3, ...
    void write_to_scalar_array(Arr &a) {
        a.clear();
        for (auto v : y) a.push_back(v);
    }
    void read_from_scalar_array(Arr const &a) { y.assign(a.begin(), a.end()); }
    void evaluate_general_derivative(Ty::ScalarArray &d) {
        times.push_back(y[0]);
        if (!origin.empty()) {
            double off = 0;
            for (size_t i = 0; i < deg.size(); ++i) {
                double m = deg[i] + 1, x = 2 * y[0], x0 = 2 * origin[0];
                off = std::max(off, std::fabs(y[i + 1] - origin[i + 1] - (std::pow(x, m) - std::pow(x0, m)) / (2 * m)));
            }
            astray.push_back(off);
        }
        d.clear();
        d.push_back(1);
        if (chained)
            for (size_t m = 1; m <= deg.size(); ++m) d.push_back(2.0 * m * (m == 1 ? 1.0 : y[m - 1]));
        else
            for (auto m : deg) d.push_back(std::pow(2 * y[0], m));
    }
    size_t variable_number() const { return y.size(); }
    size_t number() const { return (y.size() - 1) / 6; }
    size_t pos_offset() const { return 1; }
    size_t vel_offset() const { return 1 + 3 * number(); }
    size_t auxi_vel_offset() const { return 1; }
    double step_scale() const { return scale; }
    Vec3<double> pos(size_t) const { return {-3, 4, 0}; }
    Vec3<double> vel(size_t i) const { return {pace[i] * 3, 0, pace[i] * 4}; }
    std::vector<double> pace;  // of the bodies, of size 5
};
using GR = integrator::GaussRadau<Ty>;

// a right hand side that depends on the state: y_m = (2t)^m, corrected until the sweeps cannot change anything any more
void chained(std::istream &s) {
    int nd, steps;
    double t0;
    s >> nd >> t0 >> steps;
    PolySys p;
    p.chained = true;
    p.deg.resize(nd);
    p.y.assign(nd + 1, 0);
    p.y[0] = t0;
    for (int m = 0; m < nd; ++m) p.y[m + 1] = std::pow(2 * t0, m + 1);
    GR g;
    std::ostringstream ev;
    for (int i = 0; i < steps; ++i) {
        double h, q;
        s >> h >> q;
        double from = p.y[0];
        for (int k = 0; k < nd + 8; ++k) g.correct(p, h);
        g.evaluate(p, h);
        g.predict(q);
        ev << (i ? "," : "") << "{\"h\":" << jout::q(h, 2) << ",\"t\":" << jout::q(from, 2) << ",\"t1\":" << jout::qr(2 * p.y[0], 1000000) << ",\"y\":[";
        for (int m = 0; m < nd; ++m) ev << (m ? "," : "") << jout::qr(p.y[m + 1], 64);
        ev << "]}";
    }
    std::cout << "{\"mode\":\"chained\",\"ev\":[" << ev.str() << "]}\n";
}

std::string halves(double x) { return std::to_string(jout::qr(2 * x, 1000000)); }
// a value that should be an integer: the integer, and how far it is off in 1e-12 of the size of the terms it sums
std::string near(double v, double size) {
    double r = std::round(v);
    return "[" + std::to_string(jout::qr(v)) + "," + std::to_string(jout::qr((v - r) / std::max(1.0, size), 1e12)) + "]";
}
double size_of(int m) { return std::pow(3, m + 1); }  // |2t| <= 3 throughout
std::string values(std::vector<double> const &y, std::vector<double> const &from, std::vector<int> const &deg) {
    std::ostringstream o;
    o << "[";
    for (size_t i = 0; i < deg.size(); ++i) o << (i ? "," : "") << near((y[i + 1] - from[i + 1]) * 2 * (deg[i] + 1), size_of(deg[i]));
    o << "]";
    return o.str();
}

void radau(std::istream &s) {
    int nd, steps, viaconst;
    double t0;
    s >> viaconst >> nd;
    PolySys p;
    p.deg.resize(nd);
    for (auto &d : p.deg) s >> d;
    s >> t0 >> steps;
    p.y.assign(nd + 1, 0);
    p.y[0] = t0;
    GR g;
    ode::ConstOdeIterator<GR> cst;
    std::ostringstream ev;
    for (int i = 0; i < steps; ++i) {
        double h, q;
        s >> h >> q;
        auto from = p.y;
        p.times.clear();
        double next = h;
        if (viaconst)
            next = cst.iterate(p, h);
        else {
            g.correct(p, h);
            bool restored = (p.y == from);
            g.evaluate(p, h);
            if (!restored) p.y[0] = 77;
            g.predict(q);
        }
        ev << (i ? "," : "") << "{\"h\":" << jout::q(h, 2) << ",\"q\":" << jout::q(q, 2) << ",\"t\":" << jout::q(from[0], 2) << ",\"next\":" << jout::q(next, 2) << ",\"t1\":" << halves(p.y[0])
           << ",\"evals\":" << p.times.size() << ",\"v\":" << values(p.y, from, p.deg) << ",\"b\":[";
        for (int k = 0; k < 7; ++k) {
            ev << (k ? ",[" : "[");
            for (int m = 0; m < nd; ++m) ev << (m ? "," : "") << near(viaconst ? 0 : g.b()[k][m + 1], size_of(p.deg[m]));
            ev << "]";
        }
        ev << "]}";
    }
    std::cout << "{\"mode\":\"radau\",\"const\":" << (viaconst ? "true" : "false") << ",\"deg\":[";
    for (int m = 0; m < nd; ++m) std::cout << (m ? "," : "") << p.deg[m];
    std::cout << "],\"ev\":[" << ev.str() << "]}\n";
}

// ---------------------------------------------------------------- IAS15 control
static PolySys *sys = nullptr;
static std::vector<std::vector<long>> pc;  // scripted convergence errors (quarters) of every attempt
static std::vector<long> ratios;           // scripted step ratios (sixteenths) of every attempt
static size_t attempt = 0;
static std::vector<long> steperr;
static size_t sweeps = 0;
template <typename T>
struct PcErr {
    void set_atol(double) {}
    void set_rtol(double) {}
    template <typename A, typename B>
    double error(A const &, B const &) {
        // which sweep of this attempt is it? eight evaluations each
        size_t n = sys->times.size() / 8 - sweeps;
        auto &v = pc[std::min(attempt, pc.size() - 1)];
        if (n < 1) return 1e9;
        return v[std::min(n, v.size()) - 1] / 4.0;
    }
};
template <typename T>
struct IasCtl {
    void set_limiter(double, double) {}
    void set_safe_guards(double, double) {}
    double next(size_t order, double err) const {
        if (order != 7) return 0.001;
        double r = ratios[std::min(attempt, ratios.size() - 1)] / 16.0;
        steperr.push_back(jout::qr(err * 5e-10, 100000));
        sweeps = sys->times.size() / 8;
        ++attempt;
        return r;
    }
    double limiter(double r) const { return std::min(std::max(r, 0.25), 4.0); }
    double limiter_min() const { return 0.25; }
    double limiter_max() const { return 4; }
};

void ias(std::istream &s) {
    int steps, nd;
    double t0;
    s >> nd;
    PolySys p;
    p.deg.resize(nd);
    for (auto &d : p.deg) s >> d;
    std::vector<double> f(nd / 6);  // part of a millionth of its distance that a body moves in a step
    for (auto &x : f) s >> x;
    s >> p.scale >> t0 >> steps;
    p.y.assign(nd + 1, 0);
    p.y[0] = t0;
    sys = &p;
    ode::IAS15<GR, PcErr<Ty>, IasCtl<Ty>> it;
    std::ostringstream ev;
    for (int i = 0; i < steps; ++i) {
        double h;
        size_t na;
        s >> h >> na;
        pc.assign(na, {});
        ratios.assign(na, 16);
        for (size_t a = 0; a < na; ++a) {
            size_t ns;
            s >> ratios[a] >> ns;
            pc[a].resize(ns);
            for (auto &x : pc[a]) s >> x;
        }
        p.pace.clear();
        for (auto x : f) p.pace.push_back(x * 1e-6 * p.scale / std::abs(h));
        attempt = 0;
        sweeps = 0;
        steperr.clear();
        p.times.clear();
        auto from = p.y;
        double next = it.iterate(p, h);
        ev << (i ? "," : "") << "{\"h\":" << jout::q(h, 4096) << ",\"t\":" << jout::qr(from[0], 4096) << ",\"pc\":[";
        for (size_t a = 0; a < na; ++a) {
            ev << (a ? ",[" : "[");
            for (size_t k = 0; k < pc[a].size(); ++k) ev << (k ? "," : "") << pc[a][k];
            ev << "]";
        }
        ev << "],\"r\":[";
        for (size_t a = 0; a < na; ++a) ev << (a ? "," : "") << ratios[a];
        ev << "],\"next\":" << jout::qr(next, 4096) << ",\"t1\":" << jout::qr(p.y[0], 4096) << ",\"sweeps\":" << p.times.size() << ",\"v\":[";
        for (int m = 0; m < nd; ++m) ev << (m ? "," : "") << jout::qr(p.y[m + 1] - from[m + 1], 1 << 20);
        // every sweep starts at the beginning of the step and ends at its end
        ev << "],\"ends\":[";
        for (size_t k = 7; k < p.times.size(); k += 8)
            ev << (k > 7 ? "," : "") << "[" << jout::qr(p.times[k - 7], 4096) << "," << jout::qr(p.times[k], 4096) << "]";
        ev << "],\"err\":[";
        for (size_t k = 0; k < steperr.size(); ++k) ev << (k ? "," : "") << steperr[k];
        ev << "]}";
    }
    std::cout << "{\"mode\":\"ias\",\"slow\":[";
    for (size_t k = 0; k < f.size(); ++k) std::cout << (k ? "," : "") << (f[k] < 1 ? "true" : "false");
    std::cout << "],\"deg\":[";
    for (int m = 0; m < nd; ++m) std::cout << (m ? "," : "") << p.deg[m];
    std::cout << "],\"ev\":[" << ev.str() << "]}\n";
}

// step after step as long as the iterator proposes: what a step begins with is what the one before has predicted for it
void carry(std::istream &s) {
    int steps, nd;
    double h;
    s >> nd;
    PolySys p;
    p.deg.resize(nd);
    for (auto &d : p.deg) s >> d;
    p.y.assign(nd + 1, 0);
    s >> p.y[0] >> h >> steps;
    sys = &p;
    p.pace.assign(nd / 6, 1e3);
    ode::IAS15<GR, PcErr<Ty>, IasCtl<Ty>> it;
    std::ostringstream ev;
    for (int i = 0; i < steps; ++i) {
        size_t na;
        s >> na;
        ratios.assign(na, 16);
        pc.assign(na, {});
        for (size_t a = 0; a < na; ++a) {
            size_t ns;
            s >> ratios[a] >> ns;
            pc[a].assign(ns, 0);
            for (size_t k = 0; k < ns; ++k) pc[a][k] = k + 1 == ns ? 0 : 100 - k;
        }
        p.times.clear();
        p.astray.clear();
        p.origin = p.y;
        attempt = 0;
        sweeps = 0;
        ev << (i ? "," : "") << "{\"r\":[";
        for (size_t a = 0; a < na; ++a) ev << (a ? "," : "") << ratios[a];
        ev << "],\"ns\":[";
        for (size_t a = 0; a < na; ++a) ev << (a ? "," : "") << pc[a].size();
        h = it.iterate(p, h);
        ev << "],\"off\":[";
        size_t at = 0;
        for (size_t a = 0; a < na; at += 8 * pc[a].size(), ++a) {
            double off = 0;
            for (size_t k = at; k < at + 8 && k < p.astray.size(); ++k) off = std::max(off, p.astray[k]);
            ev << (a ? "," : "") << jout::qr(std::min(off, 1e3), 1e6);
        }
        ev << "],\"evals\":" << p.times.size() << "}";
    }
    std::cout << "{\"mode\":\"carry\",\"ev\":[" << ev.str() << "]}\n";
}

int main(int, char **argv) {
    std::ifstream in(argv[1]);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream s(line);
        std::string mode;
        s >> mode;
        if (mode == "seq") seq(s);
        if (mode == "radau") radau(s);
        if (mode == "chained") chained(s);
        if (mode == "ias") ias(s);
        if (mode == "carry") carry(s);
    }
}

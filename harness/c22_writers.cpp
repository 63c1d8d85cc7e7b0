// Output files. Every input line is a program  <kind> <nsys> <nfile> <nops> op* :
//   kind: p|s|t|d particles, then s|c|r|a system
//   sys:  n t0 (m e1 e2 e3 x y z vx vy vz)*n
//   op:   rec <file> <sys> <copy>    record with the writer of that file (or a copy of it)
//         err <file> <sys> <copy>    record the energy error with the energy writer of that file
//         text <file> <word>         forward text
//         go <sys> <h>               drift over a time h
//         run <sys> <steps> <start op stop>*  file numbers (or -1) of writers attached to a run
// files with an even number hold tables, those with an odd number energy errors. Numbers appear as the bits of the double.
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include "jout.hpp"
#include "args-callback/callbacks.hpp"
#include "interaction/interaction.hpp"
#include "interaction/newtonian.hpp"
#include "particle-system/archain.hpp"
#include "particle-system/base-system.hpp"
#include "particle-system/chain-system.hpp"
#include "particle-system/regu-system.hpp"
#include "particles/drag-particles.hpp"
#include "particles/finite-size.hpp"
#include "particles/point-particles.hpp"
#include "particles/tide-particles.hpp"
#include "simulator.hpp"
#include "type-class.hpp"
using namespace hub;
using Ty = Types<double>;
using F = force::Interactions<force::NewtonianGrav>;
std::string bits(double d) {
    unsigned long long u;
    std::memcpy(&u, &d, 8);
    char b[32];
    snprintf(b, sizeof b, "\"#%llx\"", u);
    return b;
}
std::string token(std::string const &t) {
    char *e;
    double d = strtod(t.c_str(), &e);
    return t.empty() || *e ? "\"" + t + "\"" : bits(d);
}
struct Out {
    std::ostringstream o;
    bool first = true;
    void add(std::string const &s) { o << (first ? "" : ",") << s, first = false; }
};
template <char K, typename P>
P mk(double const *a) {
    typename P::Vector p(a[4], a[5], a[6]), v(a[7], a[8], a[9]);
    if constexpr (K == 'p') return P(a[0], p, v);
    if constexpr (K == 's') return P(a[0], a[1], p, v);
    if constexpr (K == 't') return P(a[0], a[1], a[2], a[3], p, v);
    if constexpr (K == 'd') return P(a[0], a[1], a[2], p, v);
}
template <char K, typename S>
std::string rows(S const &s) {  // one record per particle, named
    std::ostringstream o;
    for (size_t i = 0; i < s.number(); ++i) {
        auto f = [&](char const *n, double x) { o << ",\"" << n << "\":" << bits(x); };
        o << (i ? "," : "") << "{\"time\":" << bits(s.time());
        f("id", s.idn(i)), f("mass", s.mass(i));
        f("px", s.pos(i).x), f("py", s.pos(i).y), f("pz", s.pos(i).z), f("vx", s.vel(i).x), f("vy", s.vel(i).y), f("vz", s.vel(i).z);
        if constexpr (K == 's') f("radius", s.radius(i));
        if constexpr (K == 't') f("radius", s.radius(i)), f("k_AM", s.tide_apsidal_const(i)), f("tau_lag", s.tide_lag_time(i));
        if constexpr (K == 'd') f("sub_sonic_c", s.sub_sonic_c(i)), f("local_cs", s.local_cs(i));
        o << "}";
    }
    return "[" + o.str() + "]";
}
template <typename S>
std::string ints(S const &s) {  // for energies: rounded masses, positions, velocities
    std::string m, p, v;
    for (size_t i = 0; i < s.number(); ++i) {
        auto V = [](auto const &x) { return "[" + std::to_string(jout::qr(x.x)) + "," + std::to_string(jout::qr(x.y)) + "," + std::to_string(jout::qr(x.z)) + "]"; };
        m += (i ? "," : "") + std::to_string(jout::qr(s.mass(i))), p += (i ? "," : "") + V(s.pos(i)), v += (i ? "," : "") + V(s.vel(i));
    }
    return "\"m\":[" + m + "],\"p\":[" + p + "],\"v\":[" + v + "]";
}
template <bool Reg, typename S>
double step(S &s, double h) {
    if constexpr (Reg) h *= s.bindE() + calc::calc_kinetic_energy(s);
    s.drift(h);
    return h;
}
template <bool Reg>
struct Drift {
    template <typename S> double iterate(S &s, double h) { step<Reg>(s, h); return h; }
};
std::string dir;
template <char K, bool Reg, typename Sys>
void program(std::istream &in, std::string const &kind) {
    using P = typename Sys::Particle;
    int ns, nf, nops;
    in >> ns >> nf >> nops;
    using Sim = Simulator<Sys, Drift<Reg>>;
    std::vector<std::unique_ptr<Sim>> sim;
    std::vector<std::unique_ptr<Sys>> st;
    for (int k = 0; k < ns; ++k) {
        int n;
        double t0;
        in >> n >> t0;
        std::vector<P> ps;
        for (int i = 0; i < n; ++i) {
            double a[10];
            for (auto &x : a) { std::string w; in >> w; x = std::strtod(w.c_str(), nullptr); if (auto q = w.find('/'); q != w.npos) x /= std::strtod(w.c_str() + q + 1, nullptr); }
            ps.push_back(mk<K, P>(a));
        }
        sim.push_back(std::make_unique<Sim>(t0, ps));
        st.push_back(std::make_unique<Sys>(t0, ps));
    }
    auto name = [&](int f) { return dir + "/out" + std::to_string(f) + ".txt"; };
    std::vector<std::unique_ptr<callback::DefaultWriter>> w(nf);
    std::vector<std::unique_ptr<callback::EnergyErrWriter>> e(nf);
    for (int f = 0; f < nf; ++f)
        if (f % 2) e[f] = std::make_unique<callback::EnergyErrWriter>(name(f));
        else w[f] = std::make_unique<callback::DefaultWriter>(name(f));
    Out ev;
    std::string init;
    for (auto &s : st) init += (init.empty() ? "{" : ",{") + ints(*s) + "}";
    auto log = [&](int f, int k, Sys &s) {
        if (f % 2) ev.add("{\"e\":\"err\",\"s\":" + std::to_string(k + 1) + ",\"f\":" + std::to_string(f + 1) + ",\"t\":" + bits(s.time()) + "," + ints(s) + "}");
        else ev.add("{\"e\":\"rec\",\"f\":" + std::to_string(f + 1) + ",\"rows\":" + rows<K>(s) + "}");
    };
    while (nops--) {
        std::string op;
        in >> op;
        if (op == "rec" || op == "err") {
            int f, s, c;
            in >> f >> s >> c;
            auto &sys = *st[s];
            log(f, s, sys);
            if (f % 2) { auto x = *e[f]; c ? x(sys, 0.5) : (*e[f])(sys, 0.5); }
            else { auto x = *w[f]; c ? x(sys, 0.5) : (*w[f])(sys, 0.5); }
        } else if (op == "text") {
            int f;
            std::string t;
            in >> f >> t;
            ev.add("{\"e\":\"text\",\"f\":" + std::to_string(f + 1) + ",\"words\":[" + token(t) + "]}");
            if (f % 2) *e[f] << t << '\n';
            else *w[f] << t << '\n';
        } else if (op == "go") {
            int s;
            double h;
            in >> s >> h;
            step<Reg>(*st[s], h);
        } else {
            int s, n, f[3];
            in >> s >> n >> f[0] >> f[1] >> f[2];
            typename Sim::RunArgs a;
            double t0 = sim[s]->particles().time();
            int steps = 0;
            a.step_size = 1;
            a.add_stop_condition([&](auto &, double) { return steps++ == n; });
            auto lg = [&](int k) { return [&, k, s](auto &p, double) { log(f[k], s, p); }; };
            if (f[0] >= 0) { a.add_start_point_operation(lg(0)); if (f[0] % 2) a.add_start_point_operation(*e[f[0]]); else a.add_start_point_operation(*w[f[0]]); }
            if (f[1] >= 0) { a.add_operation(lg(1)); if (f[1] % 2) a.add_operation(*e[f[1]]); else a.add_operation(*w[f[1]]); }
            if (f[2] >= 0) { a.add_stop_point_operation(lg(2)); if (f[2] % 2) a.add_stop_point_operation(*e[f[2]]); else a.add_stop_point_operation(*w[f[2]]); }
            a.add_stop_condition(t0 + 1000);
            sim[s]->run(a);
        }
    }
    w.clear(), e.clear();
    std::string files;
    for (int f = 0; f < nf; ++f) {
        std::ifstream r(name(f));
        std::string l, t, js;
        while (std::getline(r, l)) {
            if (l.empty()) continue;
            std::istringstream li(l);
            std::string row;
            while (std::getline(li, t, ',')) {
                if (f % 2 && !row.empty()) row += "," + std::to_string(jout::qr(Reg ? 100 * std::exp(std::strtod(t.c_str(), nullptr)) : 100 * std::strtod(t.c_str(), nullptr)));
                else row += (row.empty() ? "" : ",") + token(t);
            }
            js += (js.empty() ? "[" : ",[") + row + "]";
        }
        files += (f ? ",[" : "[") + js + "]";
    }
    std::cout << "{\"kind\":\"" << kind[0] << "\",\"reg\":" << Reg << ",\"sys\":[" << init << "],\"ev\":[" << ev.o.str() << "],\"files\":[" << files << "]}" << std::endl;
}
template <char K, typename Ps>
void pick(std::istream &in, std::string const &k) {
    if (k[1] == 's') program<K, false, system::SimpleSystem<Ps, F>>(in, k);
    if (k[1] == 'c') program<K, false, system::ChainSystem<Ps, F>>(in, k);
    if (k[1] == 'r') program<K, true, system::RegularizedSystem<Ps, F, system::ReguType::LogH>>(in, k);
    if (k[1] == 'a') program<K, true, system::ARchainSystem<Ps, F, system::ReguType::LogH>>(in, k);
}
int main(int, char **argv) {
    std::ifstream f(argv[1]);
    dir = argv[2];
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream in(line);
        std::string k;
        in >> k;
        if (k[0] == 'p') pick<'p', particles::PointParticles<Ty>>(in, k);
        if (k[0] == 's') pick<'s', particles::SizeParticles<Ty>>(in, k);
        if (k[0] == 't') pick<'t', particles::TideParticles<Ty>>(in, k);
        if (k[0] == 'd') pick<'d', particles::DragParticles<Ty>>(in, k);
    }
}

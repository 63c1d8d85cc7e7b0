// Quantities and motions of groups of particles. Every input line is
//   <kind> <n> (m R x y z vx vy vz)*n <nops> op*
// op:  meas <form> <k> i*            what a group is: mass, centre, energies, size
//      move <what> <form> <k> i* <6 target numbers>
//      pair <form> <k1> i* <k2> i* <R1> <R2> <g>   two groups: reduced mass, tides
//      sys  <type> <k> i*            a system of all bodies, and a part of it
// kind: p points, s particles with a radius; form: v vector, a array, x separate arguments.
#include <fstream>
#include <iostream>
#include <sstream>
#include "jout.hpp"
#include "interaction/interaction.hpp"
#include "interaction/newtonian.hpp"
#include "orbits/orbits.hpp"
#include "orbits/particle-manip.hpp"
#include "particle-system/archain.hpp"
#include "particle-system/base-system.hpp"
#include "particle-system/chain-system.hpp"
#include "particle-system/regu-system.hpp"
#include "particles/finite-size.hpp"
#include "particles/point-particles.hpp"
#include "type-class.hpp"
using namespace hub;
using Ty = Types<double>;
using PP = particles::PointParticles<Ty>;
using SP = particles::SizeParticles<Ty>;
using F = force::Interactions<force::NewtonianGrav>;
using V3 = Ty::Vector;
constexpr double SC = 64, LC = 27720;
using Ix = std::vector<size_t>;
template <typename P, size_t N>
std::array<P, N> arr(std::vector<P> const &b, Ix const &g) {
    std::array<P, N> a;
    for (size_t i = 0; i < N; ++i) a[i] = b[g[i]];
    return a;
}
// call f on the group as one container, or in the chosen form
template <typename P, typename Fn>
void in_one(std::vector<P> &b, Ix const &g, char form, Fn f) {
    auto put = [&](auto const &c) { for (size_t i = 0; i < g.size(); ++i) b[g[i]] = c[i]; };
    if (form == 'a') {
        if (g.size() == 1) { auto a = arr<P, 1>(b, g); f(a); put(a); return; }
        if (g.size() == 2) { auto a = orbit::group(b[g[0]], b[g[1]]); f(a); put(a); return; }
        if (g.size() == 3) { auto a = orbit::group(b[g[0]], b[g[1]], b[g[2]]); f(a); put(a); return; }
        if (g.size() == 4) { auto a = orbit::group(b[g[0]], b[g[1]], b[g[2]], b[g[3]]); f(a); put(a); return; }
    }
    std::vector<P> v;
    for (auto i : g) v.push_back(b[i]);
    f(v);
    put(v);
}
template <typename P, typename Fn>
void on(std::vector<P> &b, Ix const &g, char form, Fn f) {
    if (form == 'x') {
        if (g.size() == 1) return f(b[g[0]]);
        if (g.size() == 2) return f(b[g[0]], b[g[1]]);
        if (g.size() == 3) return f(b[g[0]], b[g[1]], b[g[2]]);
        if (g.size() == 4) return f(b[g[0]], b[g[1]], b[g[2]], b[g[3]]);
    }
    in_one(b, g, form, f);
}
Ix idx(std::istream &in) {
    size_t k;
    in >> k;
    Ix g(k);
    for (auto &i : g) in >> i;
    return g;
}
std::string js(Ix const &g) {
    std::string s = "[";
    for (size_t i = 0; i < g.size(); ++i) s += (i ? "," : "") + std::to_string(g[i] + 1);
    return s + "]";
}
#define K(name, x) << ",\"" name "\":" << (x)
template <typename P>
void bodies(std::ostream &o, std::vector<P> const &b) {
    std::vector<V3> p, v;
    for (auto const &x : b) p.push_back(x.pos), v.push_back(x.vel);
    o K("p", jout::vecs(p, SC)) K("v", jout::vecs(v, SC));
}
template <bool Reg, typename Sys, typename P>
void sys(std::ostream &o, std::vector<P> const &b, Ix const &g) {
    Sys s(0, b);
    double const M = calc::array_sum(s.mass());
    auto L = calc::calc_total_angular_momentum(s), Lg = calc::calc_angular_momentum(s, g), Li = calc::calc_isolated_angular_momentum(s, g);
    double Mg = 0;
    for (auto i : g) Mg += s.mass(i);
    auto com = calc::calc_com(s.mass(), s.pos()), cov = calc::calc_com(s.mass(), s.vel());
    auto p = s.pos();
    calc::move_to_com(s.mass(), p);
    double f = calc::calc_fall_free_time(s.mass(), s.pos());
    double E0 = b.size() % 2 ? 3 : -2;
    long er = 0;
    if constexpr (!Reg) er = jout::qr(calc::calc_energy_error(s, E0) * fabs(E0) * 2 * LC);
    else er = jout::qr(calc::calc_energy_error(s, E0) * 1e6);
    o K("T", jout::q(calc::calc_kinetic_energy(s), 2)) K("U", jout::qr(calc::calc_potential_energy(s), LC)) K("E", jout::qr(calc::calc_total_energy(s), 2 * LC));
    o K("L", jout::vec3(L)) K("Lg", jout::vec3(Lg)) K("Li", jout::vec3(Li, Mg)) K("com", jout::vec3(com, M)) K("cov", jout::vec3(cov, M)) K("mv", jout::vecs(p, M));
    o K("f", jout::qr(f * f * 8 / (consts::pi * consts::pi), LC)) K("E0", long(E0)) K("er", er) K("reg", Reg ? 1 : 0);
    if (g.size() >= 2) o K("pp", jout::qr(calc::calc_potential_energy(b[g[0]], b[g[1]]), LC));
}
template <typename Ps>
void program(std::istream &in) {
    using P = typename Ps::Particle;
    int n, nops;
    in >> n;
    std::vector<P> b;
    std::string ms, rs;
    for (int i = 0; i < n; ++i) {
        double a[8];
        for (auto &x : a) in >> x;
        if constexpr (std::is_same_v<Ps, SP>) b.emplace_back(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
        else b.emplace_back(a[0], a[2], a[3], a[4], a[5], a[6], a[7]), a[1] = 0;
        ms += (i ? "," : "") + std::to_string(long(a[0]));
        rs += (i ? "," : "") + std::to_string(long(a[1]));
    }
    std::ostringstream o;
    o << "{\"m\":[" << ms << "],\"r\":[" << rs << "],\"ev\":[{\"e\":\"make\"";
    bodies(o, b);
    o << "}";
    in >> nops;
    while (nops--) {
        std::string op;
        char form, what;
        in >> op;
        o << ",{\"e\":\"" << op << "\"";
        if (op == "meas") {
            in >> form;
            Ix g = idx(in);
            o K("g", js(g)) K("form", "\"" + std::string(1, form) + "\"");
            on(b, g, form, [&](auto const &...c) {
                double M = orbit::M_tot(c...);
                o K("M", jout::q(M)) K("cp", jout::vec3(orbit::COM_p(c...), SC)) K("cv", jout::vec3(orbit::COM_v(c...), SC));
                o K("Ek", jout::q(orbit::E_k(c...), 2 * SC * SC)) K("Ec", jout::q(orbit::E_k_COM(c...), 2 * SC * SC));
                o K("Ep", jout::qr(orbit::E_p(c...), LC)) K("Et", jout::qr(orbit::E_tot(c...), LC)) K("Ei", jout::qr(orbit::E_inner(c...), LC));
                o K("sz", jout::qr(orbit::cluster_size(c...), SC));
            });
        } else if (op == "move") {
            in >> what >> form;
            Ix g = idx(in);
            V3 p, v;
            in >> p.x >> p.y >> p.z >> v.x >> v.y >> v.z;
            on(b, g, form, [&](auto &...c) {
                if (what == 'p') orbit::move_particles_pos(p, c...);
                if (what == 'v') orbit::move_particles_vel(v, c...);
                if (what == 'b') orbit::move_particles(p, v, c...);
                if (what == 'f') orbit::move_to_COM_frame(c...);
            });
            o K("g", js(g)) K("what", "\"" + std::string(1, what) + "\"") K("tp", jout::vec3(p)) K("tv", jout::vec3(v));
            bodies(o, b);
        } else if (op == "pair") {
            in >> form;
            Ix g = idx(in), h = idx(in);
            double R1, R2, gg;
            in >> R1 >> R2 >> gg;
            o K("g", js(g)) K("h", js(h)) K("R1", long(R1)) K("R2", long(R2)) K("gg", long(gg));
            auto both = [&](auto const &c, auto const &d) {
                o K("mr", jout::qr(orbit::M_rdc(c, d), 1000)) K("et", jout::qr(orbit::E_tid(c, d, R1, R2), 1000)) K("es", jout::qr(orbit::E_tid(c, d), 1000));
                auto [a1, a2] = orbit::tidal_factor(c, d, R1, R2);
                auto [s1, s2] = orbit::tidal_factor(c, d);
                o K("f1", jout::qr(a1, 1000)) K("f2", jout::qr(a2, 1000)) K("s1", jout::qr(s1, 1000)) K("s2", jout::qr(s2, 1000));
                if constexpr (is_ranges_v<std::remove_cv_t<std::remove_reference_t<decltype(c)>>> && is_ranges_v<std::remove_cv_t<std::remove_reference_t<decltype(d)>>>)
                    o K("tr", jout::qr(orbit::tidal_radius(1 / gg, c, d, R2), 16)) K("ts", jout::qr(orbit::tidal_radius(1 / gg, c, d), 16));
                else
                    o K("tr", jout::qr(orbit::tidal_radius(1 / gg, orbit::M_tot(c), orbit::M_tot(d), R2), 16))
                      K("ts", jout::qr(orbit::tidal_radius(1 / gg, orbit::M_tot(c), orbit::M_tot(d), orbit::cluster_size(d)), 16));
                o K("tm", jout::qr(orbit::tidal_radius(1 / gg, orbit::M_tot(c), orbit::M_tot(d), R1, R2), 16));
            };
            if (form == 'x' && h.size() == 1) {
                std::vector<P> c;
                for (auto i : g) c.push_back(b[i]);
                if (g.size() == 1) both(b[g[0]], b[h[0]]);
                else both(c, b[h[0]]);
            } else
                in_one(b, g, 'v', [&](auto const &c) { in_one(b, h, form, [&](auto const &d) { both(c, d); }); });
        } else {
            in >> what;
            Ix g = idx(in);
            o K("g", js(g)) K("type", "\"" + std::string(1, what) + "\"");
            if (what == 's') sys<false, system::SimpleSystem<Ps, F>>(o, b, g);
            if (what == 'c') sys<false, system::ChainSystem<Ps, F>>(o, b, g);
            if (what == 'r') sys<true, system::RegularizedSystem<Ps, F, system::ReguType::LogH>>(o, b, g);
            if (what == 'a') sys<true, system::ARchainSystem<Ps, F, system::ReguType::LogH>>(o, b, g);
        }
        o << "}";
    }
    std::cout << o.str() << "]}\n";
}
int main(int, char **argv) {
    std::ifstream f(argv[1]);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream in(line);
        std::string k;
        in >> k;
        if (k == "p") program<PP>(in);
        else program<SP>(in);
    }
}

// Accelerations and energies of the real systems under NewtonianGrav plus mock external forces.
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>
#include "jout.hpp"
#include "core-computation.hpp"
#include "interaction/interaction.hpp"
#include "interaction/newtonian.hpp"
#include "kahan-number.hpp"
#include "particle-system/archain.hpp"
#include "particle-system/base-system.hpp"
#include "particle-system/chain-system.hpp"
#include "particle-system/regu-system.hpp"
#include "particles/point-particles.hpp"
#include "type-class.hpp"
using namespace hub;
#define INTERNAL force::NewtonianGrav
#include "mocks.hpp"
#ifndef SC
#define SC double
#endif
using Ty = Types<SC, Vec3>;
using Pts = particles::PointParticles<Ty>;

template <typename A>
std::string R(A const &a, double k) {
    std::string s = "[";
    for (size_t i = 0; i < a.size(); ++i)
        s += (i ? ",[" : "[") + std::to_string(jout::qr(double(a[i].x), k)) + "," + std::to_string(jout::qr(double(a[i].y), k)) + "," + std::to_string(jout::qr(double(a[i].z), k)) + "]";
    return s + "]";
}
template <typename A>
A unscaled(A a, double k) {
    for (auto &v : a) v.x /= k, v.y /= k, v.z /= k;
    return a;
}
template <typename Sys>
void go(std::istream &in, std::string const &name) {
    size_t n;
    double L;
    int sc;
    in >> n >> L >> sc;
    // lengths times e, velocities times f with e f^2 = 1: accelerations scale by 1/e^2, energies by 1/e
    double const e = std::ldexp(1.0, -2 * sc), f = std::ldexp(1.0, sc);
    double const K = L * L * L * e * e, Le = L * e;
    std::vector<typename Pts::Particle> ps;
    std::ostringstream ms, xs, vs;
    for (size_t i = 0; i < n; ++i) {
        double m, x, y, z, u, v, w;
        in >> m >> x >> y >> z >> u >> v >> w;
        ps.emplace_back(m, x * e, y * e, z * e, u * f, v * f, w * f);
        ms << (i ? "," : "") << m;
        xs << (i ? "," : "") << "[" << x << "," << y << "," << z << "]";
        vs << (i ? "," : "") << "[" << u << "," << v << "," << w << "]";
    }
    Sys s(0.0, ps);
    using VA = typename Ty::VectorArray;
    auto dirty = [&] {
        VA a(n);
        for (auto &v : a) v.x = 7, v.y = -8, v.z = 9;  // whatever was in there must not matter
        return a;
    };
    std::ostringstream o;
    VA a = dirty();
    Force::eval_newtonian_acc(s, a);
    o << "\"newton\":" << R(a, K);
    a = dirty();
    s.evaluate_acc(a);
    o << ",\"total\":" << R(a, K);
    a = dirty();
    if constexpr (Force::ext_vel_dep || Force::ext_vel_indep) Force::eval_extra_acc(s, a);
    o << ",\"extra\":" << R(a, K);
    a = dirty();
    if constexpr (Force::ext_vel_indep) Force::eval_extra_vel_indep_acc(s, a);
    o << ",\"indep\":" << R(a, K);
    a = dirty();
    if constexpr (Force::ext_vel_dep) Force::eval_extra_vel_dep_acc(s, a);
    o << ",\"dep\":" << R(a, K);
    o << ",\"hasext\":" << (Force::ext_vel_dep || Force::ext_vel_indep ? "true" : "false");
    o << ",\"pot\":" << jout::qr(double(calc::calc_potential_energy(s)), Le) << ",\"kin2\":" << jout::qr(double(calc::calc_kinetic_energy(s)), 2 * e) << ",\"tot2\":" << jout::qr(double(calc::calc_total_energy(s)), 2 * Le);
    o << ",\"pos\":" << jout::vecs(unscaled(s.pos(), e)) << ",\"vel\":" << jout::vecs(unscaled(s.vel(), f));
    std::cout << "{\"src\":\"" << name << "\",\"L\":" << L << ",\"forces\":" << FN << ",\"m\":[" << ms.str() << "],\"x\":[" << xs.str() << "],\"v\":[" << vs.str() << "]," << o.str() << "}\n";
}
int main(int, char **argv) {
    using namespace hub::system;
    std::ifstream f(argv[1]);
    std::string line, k;
    while (std::getline(f, line)) {
        std::istringstream in(line);
        in >> k;
        if (k == "simple") go<SimpleSystem<Pts, Force>>(in, k);
        if (k == "chain") go<ChainSystem<Pts, Force>>(in, k);
        if (k == "logh") go<RegularizedSystem<Pts, Force, ReguType::LogH>>(in, k);
        if (k == "clogh") go<ARchainSystem<Pts, Force, ReguType::LogH>>(in, k);
    }
}

// Setting up scatterings. Every input line is
//   <kind> <n1> (m R x y z vx vy vz)*n1 <n2> (..)*n2 <nops> op*          kind: p points, s particles with a radius
#include <array>
#include <fstream>
#include <iostream>
#include <sstream>
#include "jout.hpp"
#include "orbits/orbits.hpp"
#include "orbits/particle-manip.hpp"
#include "particles/finite-size.hpp"
#include "particles/point-particles.hpp"
#include "scattering/cross-section.hpp"
#include "type-class.hpp"
using namespace hub;
using Ty = Types<double>;
using V3 = Ty::Vector;
static long H(double x) { return jout::qr(x, 100); }
static std::string hv(V3 const &v) { return "[" + std::to_string(H(v.x)) + "," + std::to_string(H(v.y)) + "," + std::to_string(H(v.z)) + "]"; }
template <typename Orb>
static void state(Orb const &o, V3 &x, V3 &v) {
    x = V3(0, 0, 0), v = V3(0, 0, 0);
    orbit::orbit_to_coord(o, x, v);
}
template <typename Orb>
static std::string incident(Orb const &o) {
    V3 x, v;
    state(o, x, v);
    return "\"x\":" + hv(x) + ",\"v\":" + hv(v) + ",\"h\":" + hv(cross(x, v)) + ",\"b\":" + std::to_string(H(o.b));
}
template <typename Draw>
static std::string area(Draw draw, double bm) {
    constexpr int N = 1000000, NB = 10, NA = 12;
    std::vector<long> bc(NB + 2, 0), ac(NA + 2, 0), jc((NB + 2) * (NA + 2), 0);
    for (int k = 0; k < N; ++k) {
        auto o = draw();
        V3 x, v;
        state(o, x, v);
        auto h = cross(x, v);
        double a = atan2(-h.y, h.z) * 12 / (2 * consts::pi);
        if (a < 0) a += 12;
        double q = o.b * o.b / (bm * bm) * 10;
        auto bin = [](double y, int n) { return y < -1e-9 ? 0 : y > n * (1 + 1e-9) ? n + 1 : std::min(n - 1, (int)y) + 1; };
        int i = bin(q, NB), j = bin(a, NA);
        bc[i]++, ac[j]++, jc[i * (NA + 2) + j]++;
    }
    std::ostringstream s;
    auto put = [&](char const *n, auto const &v) {
        s << ",\"" << n << "\":[";
        for (size_t i = 0; i < v.size(); ++i) s << (i ? "," : "") << v[i];
        s << "]";
    };
    std::vector<long> be(NB + 1), ae(NA + 1);
    for (int i = 0; i <= NB; ++i) be[i] = i;
    for (int i = 0; i <= NA; ++i) ae[i] = i;
    put("be", be), put("bc", bc), put("ae", ae), put("ac", ac), put("jc", jc);
    return s.str();
}
// call f with the clusters as containers, or as single particles
template <typename P, typename F>
static void with(std::vector<P> const &a, std::vector<P> const &b, F f) {
    if (a.size() == 1 && b.size() == 1) f(a[0], b[0]);
    else if (a.size() == 1) f(a[0], b);
    else if (b.size() == 1) f(a, b[0]);
    else if (a.size() == 2) f(orbit::group(a[0], a[1]), b);
    else f(a, b);
}
template <typename PS>
static void program(std::istream &in, bool sized) {
    using P = typename PS::Particle;
    std::vector<P> c[2];
    std::ostringstream out;
    out << "{";
    for (int k = 0; k < 2; ++k) {
        int n;
        in >> n;
        out << (k ? "," : "") << "\"c" << k + 1 << "\":[";
        for (int i = 0; i < n; ++i) {
            double m, r, x[6];
            in >> m >> r;
            for (auto &y : x) in >> y;
            if constexpr (std::is_same_v<PS, particles::SizeParticles<Ty>>) c[k].emplace_back(P(m, r, x[0], x[1], x[2], x[3], x[4], x[5]));
            else c[k].emplace_back(P(m, x[0], x[1], x[2], x[3], x[4], x[5])), r = 0;
            out << (i ? "," : "") << "{\"m\":" << m << ",\"r\":" << r << ",\"x\":[" << x[0] << "," << x[1] << "," << x[2] << "],\"v\":[" << x[3] << "," << x[4] << "," << x[5] << "]}";
        }
        out << "]";
    }
    out << ",\"ev\":[";
    int nops;
    in >> nops;
    for (int o = 0; o < nops; ++o) {
        std::string op;
        in >> op;
        out << (o ? "," : "") << "{\"e\":\"" << op << "\"";
        auto put = [&](char const *n, long v) { out << ",\"" << n << "\":" << v; };
        if (op == "crit") {
            double m1, m2, e1, e2;
            in >> m1 >> m2 >> e1 >> e2;
            put("m1", m1), put("m2", m2), put("E1", e1), put("E2", e2), put("v", H(scattering::critical_vel(m1, m2, e1, e2)));
        } else if (op == "critc") {
            with(c[0], c[1], [&](auto const &a, auto const &b) { put("v", H(scattering::critical_vel(a, b))); });
        } else if (op == "b1") {
            double m, w, rp;
            in >> m >> w >> rp;
            put("m", m), put("w", w), put("rp", rp), put("b", H(scattering::b_max(m, w / 2, rp / 4)));
        } else if (op == "b2") {
            double m1, m2, r1, r2, w, fn, fd;
            in >> m1 >> m2 >> r1 >> r2 >> w >> fn >> fd;
            put("m1", m1), put("m2", m2), put("r1", r1), put("r2", r2), put("w", w), put("fn", fn), put("fd", fd);
            put("b", H(scattering::b_max(m1, m2, r1, r2, w / 2, fn / fd)));
        } else if (op == "bc") {
            double w, fn, fd;
            in >> w >> fn >> fd;
            put("w", w), put("fn", fn), put("fd", fd);
            with(c[0], c[1], [&](auto const &a, auto const &b) { put("b", H(scattering::b_max(a, b, w / 2, fn / fd))); });
        } else if (op == "hard") {
            double m1, m2, m, w;
            in >> m1 >> m2 >> m >> w;
            put("m1", m1), put("m2", m2), put("m", m), put("w", w), put("r", H(scattering::hard_radius(m1, m2, m, w / 2)));
        } else if (op == "inc" || op == "area") {
            double m1, m2, w, bm, r0;
            in >> m1 >> m2 >> w >> bm >> r0;
            if (op == "inc") {
                put("m", m1 + m2), put("w", w), put("bm", bm), put("r0", r0);
                out << "," << incident(scattering::incident_orbit(m1, m2, w / 2, bm / 100, r0 / 100));
            } else
                out << area([&] { return scattering::incident_orbit(m1, m2, w / 2, bm / 100, r0 / 100); }, bm / 100);
        } else if (op == "incc") {
            double w, fn, fd;
            in >> w >> fn >> fd;
            put("w", w), put("fn", fn), put("fd", fd);
            with(c[0], c[1], [&](auto const &a, auto const &b) { out << "," << incident(scattering::incident_orbit(a, b, w / 2, fn / fd)); });
        } else if (op == "areac") {
            double w, fn, fd, bm;
            in >> w >> fn >> fd >> bm;
            with(c[0], c[1], [&](auto const &a, auto const &b) { out << area([&] { return scattering::incident_orbit(a, b, w / 2, fn / fd); }, bm); });
        } else {
            std::cerr << "unknown " << op << "\n";
            exit(3);
        }
        out << "}";
    }
    std::cout << out.str() << "]}" << std::endl;
}
int main(int, char **argv) {
    std::ifstream f(argv[1]);
    std::string line, k;
    while (std::getline(f, line)) {
        std::istringstream in(line);
        in >> k;
        if (k == "p") program<particles::PointParticles<Ty>>(in, false);
        else program<particles::SizeParticles<Ty>>(in, true);
    }
}

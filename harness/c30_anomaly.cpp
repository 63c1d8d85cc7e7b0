// Conversions between the anomalies and times along an orbit. One program per line:
// k j m w nops ops...; e = k/8, the body at eccentric anomaly j/8.
#include <fstream>
#include <iostream>
#include "spaceHub.hpp"
#include "jout.hpp"
using namespace hub;
using namespace hub::orbit;
using jout::qr;
struct Body {
    using Scalar = double;
    using Vector = Vec3<double>;
    double mass;
    Vector pos, vel;
};
static double conv(char a, char b, double x, double e) {
    if (a == 'E' && b == 'T') return E_anomaly_to_T_anomaly(x, e);
    if (a == 'E' && b == 'M') return E_anomaly_to_M_anomaly(x, e);
    if (a == 'T' && b == 'E') return T_anomaly_to_E_anomaly(x, e);
    if (a == 'T' && b == 'M') return T_anomaly_to_M_anomaly(x, e);
    if (a == 'M' && b == 'E') return M_anomaly_to_E_anomaly(x, e);
    return M_anomaly_to_T_anomaly(x, e);
}
int main(int, char **argv) {
    std::ifstream in(argv[1]);
    int k, j, n;
    while (in >> k >> j >> n) {
        double e = k / 8.0, E0 = j / 8.0, x = E0;
        bool open = k > 8;
        double c = open ? std::cosh(E0) : std::cos(E0), s = open ? std::sinh(E0) : std::sin(E0);
        int U = 1;  // far out the mean anomaly is told in units of U
        for (double size = k > 8 ? c : k == 8 ? std::fabs(E0 * E0 * E0 / 3) : 0; size / U > 2000;) U *= 2;
        std::ostringstream o;
        o << "{\"k\":" << k << ",\"j\":" << j << ",\"U\":" << U << ",\"cE\":" << qr(c / U, 1000) << ",\"sE\":" << qr(s / U, 1000) << ",\"s4\":" << qr(s / U, 10000) << ",\"ev\":[";
        char kind = 'E';
        for (int i = 0; i < n; ++i) {
            std::string op;
            in >> op;
            if (i) o << ",";
            if (op == "conv") {
                char to;
                in >> to;
                x = conv(kind, to, x, e);
                o << "{\"e\":\"conv\",\"from\":\"" << kind << "\",\"to\":\"" << to << "\",\"v\":" << qr(to == 'M' ? x / U : x, 10000) << ",\"c\":" << qr(std::cos(x), 1000) << ",\"s\":" << qr(std::sin(x), 1000) << "}";
                kind = to;
            } else if (op == "time") {
                // masses with u = a w^2 (a parabola: p w^2), so that a time is a / w (p / 2w) times the mean anomaly
                std::string form;
                double a, w, t, f;
                in >> form >> a >> w;
                double u = a * w * w, m1 = u / 4, m2 = u - m1, p = k == 8 ? a : a * std::fabs(1 - e * e);
                if (form == "para") {  // a point of a parabola whose numbers are all exact
                    a = 32, w = 25.0 / 8;
                    int sg = j > 0 ? 1 : -1;
                    Body b1{62.5, {1, 2, 3}, {-1, 0, 1}}, b2{250, {8, 2 + 24.0 * sg, 3}, {-1 - 3.0 * sg, 4, 1}};
                    t = time_to_periapsis(b1, b2);
                } else if (form == "type") {
                    double M = kind == 'M' ? x : conv(kind, 'M', x, e);
                    t = time_to_periapsis(classify_orbit(e), u, open ? -a : a, M);
                } else {
                    double nu = kind == 'T' ? x : conv(kind, 'T', x, e);
                    KeplerOrbit<double> orb(m1, m2, p, e, 0.4, 1.1, -0.7, nu);
                    if (form == "orbit") t = time_to_periapsis(orb);
                    else {
                        Body b1{m1, {1, 2, 3}, {-1, 0, 1}}, b2{m2, {0, 0, 0}, {0, 0, 0}};
                        auto [pos, vel] = orbit_to_coord<Vec3<double>>(orb);
                        b2.pos = b1.pos + pos, b2.vel = b1.vel + vel;
                        if (form == "pair") t = time_to_periapsis(b1, b2);
                        else t = time_to_periapsis(std::vector<Body>{{m1 / 2, b1.pos + Vec3<double>(1, 0, 0), b1.vel}, {m1 / 2, b1.pos - Vec3<double>(1, 0, 0), b1.vel}}, std::vector<Body>{b2});
                    }
                }
                f = k == 8 ? 2 * w / a : w / a;
                o << "{\"e\":\"time\",\"form\":\"" << form << "\",\"v\":" << qr(std::fabs(t) * f / U, 10000) << "}";
            } else if (op == "type") {
                auto t = classify_orbit(e);
                o << "{\"e\":\"type\",\"ty\":\"" << (t == OrbitType::Ellipse ? "ellipse" : t == OrbitType::Parabola ? "parabola" : t == OrbitType::Hyperbola ? "hyperbola" : "none") << "\"}";
            } else {
                double r, lo, hi;
                int shape;
                in >> r >> lo >> hi >> shape;
                auto f = [&](double y) { double d = y - r; return shape == 0 ? d : shape == 1 ? -d : shape == 2 ? d * d * d : std::sinh(d) * (2 + std::sin(y)); };
                double z = shape == 4 ? double(math::root_bisection([&](float y) -> float { return float(r) - y; }, float(lo), float(hi))) : math::root_bisection(f, lo, hi);
                o << "{\"e\":\"root\",\"r\":" << qr(r, 1000) << ",\"v\":" << qr(z, 1000) << "}";
            }
        }
        puts((o.str() + "]}").c_str());
    }
}

// Orbital elements into coordinates and back, with the real conversions.
// One program per line; angles come as cosine and sine in fifths.
#include <fstream>
#include <iostream>
#include "spaceHub.hpp"
#include "jout.hpp"
using namespace hub;
using namespace hub::orbit;
using jout::q;
using jout::qr;
static std::ostringstream o;
static bool first;
struct Obj {
    Obj(char const *n) { o << (first ? "" : ",") << "{\"e\":\"" << n << "\""; first = false; }
    ~Obj() { o << "}"; }
    Obj &l(char const *k, long v) { o << ",\"" << k << "\":" << v; return *this; }
    Obj &s(char const *k, std::string const &v) { o << ",\"" << k << "\":\"" << v << "\""; return *this; }
    template <typename V> Obj &v(char const *k, V const &x, double sc) {
        o << ",\"" << k << "\":[" << qr(x.x, sc) << "," << qr(x.y, sc) << "," << qr(x.z, sc) << "]";
        return *this;
    }
    Obj &a(char const *k, int c, int s) { o << ",\"" << k << "\":[" << c << "," << s << "]"; return *this; }
    Obj &i3(char const *k, int const *x) { o << ",\"" << k << "\":[" << x[0] << "," << x[1] << "," << x[2] << "]"; return *this; }
};
static char const *name(OrbitType t) {
    switch (t) {
        case OrbitType::Ellipse: return "ellipse";
        case OrbitType::Parabola: return "parabola";
        case OrbitType::Hyperbola: return "hyperbola";
        default: return "none";
    }
}
struct Ang {
    int c, s;
    double v() const { return std::atan2(s, c); }
};
static std::istream &operator>>(std::istream &i, Ang &a) { return i >> a.c >> a.s; }
template <typename V>
static V ecc_vec(double u, V const &x, V const &v) {
    double r = std::sqrt(x.x * x.x + x.y * x.y + x.z * x.z), v2 = v.x * v.x + v.y * v.y + v.z * v.z, d = x.x * v.x + x.y * v.y + x.z * v.z;
    double k = (v2 - u / r) / u, n = -d / u;
    return V(x.x * k + v.x * n, x.y * k + v.y * n, x.z * k + v.z * n);
}
template <typename S>
struct Body {
    using Scalar = S;
    using Vector = Vec3<S>;
    S mass{1};
    Vector pos, vel;
};
template <typename S>
static void go(std::istream &in) {
    using V = Vec3<S>;
    int n;
    in >> n;
    while (n--) {
        std::string op;
        in >> op;
        if (op == "place") {
            std::string form;
            Ang i, O, om, nu;
            int m1, m2, p, w, k;
            double a;
            in >> form >> m1 >> m2 >> p >> w >> k >> a >> i >> O >> om >> nu;
            KeplerOrbit<S> el(m1, m2, p, S(k) / 4, S(i.v()), S(O.v()), S(om.v()), S(nu.v()));
            Obj e("place");
            e.l("p", p).l("w", w).l("k", k).a("i", i.c, i.s).a("O", O.c, O.s).a("om", om.c, om.s).a("nu", nu.c, nu.s);
            bool kept = el.m1 == m1 && el.m2 == m2 && el.p == p && el.e == S(k) / 4 && el.i == S(i.v()) && el.Omega == S(O.v()) && el.omega == S(om.v()) && el.nu == S(nu.v());
            V x, v;
            long rigid = 0;
            if (form == "ell") {
                Elliptic le(m1, m2, a, k / 4.0, i.v(), O.v(), om.v(), nu.v());
                el.m1 = le.m1, el.m2 = le.m2, el.p = le.p, el.e = le.e, el.i = le.i, el.Omega = le.Omega, el.omega = le.omega, el.nu = le.nu, el.orbit_type = le.orbit_type;
                kept = kept && le.a == a;
                std::tie(x, v) = orbit_to_coord<V>(el);
            } else if (form == "void") {
                orbit_to_coord(el, x, v);
            } else if (form == "one") {
                Body<S> b;
                b.pos = V(1, 2, 3), b.vel = V(4, 5, 6);
                move_particles(el, b);
                x = b.pos, v = b.vel;
            } else if (form == "many") {
                std::vector<Body<S>> b(3);
                for (int j = 0; j < 3; ++j) b[j].mass = j + 1, b[j].pos = V(j, -j, 2 * j), b[j].vel = V(0, j, 0);
                auto c = b;
                move_particles(el, b[0], b[1], b[2]);
                for (int j = 0; j < 3; ++j) x += b[j].pos * (b[j].mass / S(6)), v += b[j].vel * (b[j].mass / S(6));
                for (int j = 1; j < 3; ++j) {
                    auto d = (b[j].pos - b[0].pos) - (c[j].pos - c[0].pos);
                    auto f = (b[j].vel - b[0].vel) - (c[j].vel - c[0].vel);
                    rigid += qr(norm(d), 100) + qr(norm(f), 100);
                }
            } else {
                std::tie(x, v) = orbit_to_coord<V>(el);
            }
            e.l("kept", kept).l("rigid", rigid).s("ty", name(el.orbit_type)).v("x", x, 1000).v("v", v, 1000).l("sl", qr(semi_latus_rectum(S(a), S(k) / 4), 1000));
        } else if (op == "rot") {
            int X[3];
            Ang f, t, p;
            for (auto &y : X) in >> y;
            in >> f >> t >> p;
            V x(X[0], X[1], X[2]);
            euler_rotate(x, S(f.v()), S(t.v()), S(p.v()));
            Obj("rot").i3("a", X).a("O", f.c, f.s).a("i", t.c, t.s).a("om", p.c, p.s).v("x", x, 1000);
        } else if (op == "meas") {
            std::string form;
            int m1, m2, X[3], W[3], r;
            in >> form >> m1 >> m2 >> r;
            for (auto &y : X) in >> y;
            for (auto &y : W) in >> y;
            V dr(X[0], X[1], X[2]), dv(W[0], W[1], W[2]);
            S u = S(m1 + m2);
            KeplerOrbit<S> el;
            if (form == "void") coord_to_orbit(S(m1), S(m2), dr, dv, el);
            else el = coord_to_orbit(S(m1), S(m2), dr, dv);
            auto c = [](double a) { return qr(std::cos(a), 1000); };
            auto s = [](double a) { return qr(std::sin(a), 1000); };
            Obj e("meas");
            e.l("m1", m1).l("m2", m2).l("r", r).i3("dr", X).i3("dv", W);
            e.l("kept", el.m1 == S(m1) && el.m2 == S(m2)).s("ty", name(el.orbit_type));
            o << ",\"c\":{\"e\":" << qr(el.e, 1000) << ",\"pu\":" << qr(double(el.p) * u, 1000) << ",\"ty\":\"" << name(el.orbit_type) << "\",\"ci\":" << c(el.i) << ",\"si\":" << s(el.i) << ",\"cO\":" << c(el.Omega)
              << ",\"sO\":" << s(el.Omega) << ",\"co\":" << c(el.omega) << ",\"so\":" << s(el.omega) << ",\"cn\":" << c(el.nu) << ",\"sn\":" << s(el.nu) << "}";
            auto [x, v] = orbit_to_coord<V>(el);
            e.v("x", x, 1000).v("v", v, 1000);
            auto [a1, e1] = calc_a_e(u, dr, dv);
            auto [a2, E2] = calc_a_RL_vector(u, dr, dv);
            auto [a3, E3, L3] = calc_a_e_L(S(m1), S(m2), dr, dv);
            auto E4 = calc_runge_lenz_vector(u, dr, dv);
            auto a4 = calc_semi_major_axis(u, dr, dv);
            auto L4 = calc_angular_momentum(S(m1), S(m2), dr, dv);
            // the axis of an orbit that is a parabola up to rounding is as good as infinite
            auto ax = [](double a) { return std::fabs(a) < 1e6 ? qr(a, 1000) : std::isnan(a) ? jout::BAD : 0; };
            o << ",\"a\":[" << ax(a1) << "," << ax(a2) << "," << ax(a3) << "," << ax(a4) << "]";
            o << ",\"es\":[" << qr(e1, 1000) << "," << qr(calc_eccentricity(u, dr, dv), 1000) << "]";
            e.v("E2", E2, 1000).v("E3", E3, 1000).v("E4", E4, 1000).v("L3", L3, 1000).v("L4", L4, 1000);
            double P = 0, Pk = 0;
            if (r * dot(dv, dv) < 2 * u) P = period(S(m1), S(m2), S(a4)), Pk = period(el);
            e.l("P", qr(P / (2 * 3.14159265358979323846), 100)).l("Pk", qr(Pk / (2 * 3.14159265358979323846), 100));
        } else {  // hyp
            Ang i, O, om;
            int m1, m2, w, b;
            double r;
            std::string dir;
            in >> m1 >> m2 >> w >> b >> i >> O >> om >> r >> dir;
            Hyperbolic el = dir == "dflt" ? Hyperbolic(m1, m2, w, b, i.v(), O.v(), om.v(), r) : Hyperbolic(m1, m2, w, b, i.v(), O.v(), om.v(), r, dir == "in" ? Hyper::in : Hyper::out);
            auto [x, v] = orbit_to_coord<Vec3<double>>(el);
            double u = m1 + m2, R = std::sqrt(x.x * x.x + x.y * x.y + x.z * x.z), v2 = v.x * v.x + v.y * v.y + v.z * v.z, rv = x.x * v.x + x.y * v.y + x.z * v.z;
            Vec3<double> L(x.y * v.z - x.z * v.y, x.z * v.x - x.x * v.z, x.x * v.y - x.y * v.x);
            Obj e("hyp");
            e.l("u", m1 + m2).l("w", w).l("bb", b).a("i", i.c, i.s).a("O", O.c, O.s).a("om", om.c, om.s).l("r", qr(r, 1000)).s("dir", dir).l("kept", el.m1 == m1 && el.m2 == m2 && el.b == b).s("ty", name(el.orbit_type));
            e.l("R", qr(R, 1000)).l("h2", qr(v2 - 2 * u / R, 1000)).l("rv", qr(rv, 1000)).v("L", L, 1000).v("E", ecc_vec(u, x, v), 1000).l("ec", qr(el.e, 1000)).l("pu", qr(el.p * u, 1000));
        }
    }
}
int main(int, char **argv) {
    std::ifstream in(argv[1]);
    std::string num;
    while (in >> num) {
        o.str("");
        first = true;
        o << "{\"tol\":" << (num == "d" ? 6 : 30) << ",\"ev\":[";
        if (num == "d") go<double>(in);
        else go<float>(in);
        puts((o.str() + "]}").c_str());
    }
}

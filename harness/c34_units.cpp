// Units, constants and formulas of astrophysics.  Commands from the input, one per line:
//   ratio A B           A / B of two units
//   lit A               7_A / A and 2.5_A / A
//   const NAME          a constant in its customary units
//   radius TYPE n d     stellar_radius of n/d solar masses in km
//   elk f m1 m2 m3 a1 a2 e5   T in years times m3 a1^3 125
#include <iostream>
#include <map>
#include "spaceHub.hpp"
#include "secular.hpp"
#include "jout.hpp"
using namespace hub;
using namespace hub::unit;
static std::string dec(double x) {
    char b[40];
    std::snprintf(b, sizeof b, "%.7e", x);
    int m[2] = {0, 0};
    std::string s(b);
    size_t e = s.find('e');
    std::string man = s.substr(0, e);
    bool neg = man[0] == '-';
    std::string d;
    for (char c : man)
        if (c >= '0' && c <= '9') d += c;
    if (d.size() != 8) return "[0,999]";
    (void)m;
    return "[" + std::string(neg ? "-" : "") + std::to_string(std::stol(d)) + "," + std::to_string(std::stoi(s.substr(e + 1))) + "]";
}
int main(int, char **argv) {
    std::map<std::string, double> u, l7, l25;
#define U(X) u[#X] = X; l7[#X] = 7_##X; l25[#X] = 2.5_##X;
    U(AU) U(Ms) U(year) U(deg) U(kyr) U(Myr) U(Gyr) U(month) U(day) U(hr) U(min) U(sec) U(T_hubble) U(kg) U(mp) U(km) U(m) U(cm) U(PC) U(Rs) U(Re) U(Rj) U(kms) U(cms) U(Me) U(Mj) U(Mmoon)
    std::map<std::string, double> k;
    k["one"] = 1;
    k["code"] = 1;
    u["one"] = 1;
    namespace c = hub::consts;
    k["pi"] = c::pi;
    k["G"] = c::G;
    k["C"] = c::C / (km / sec);
    k["Gsi"] = c::G / (m * m * m / kg / sec / sec);
    k["light_time"] = AU / c::C / sec;
    k["kB"] = c::kB / (m * m * kg / sec / sec);
    k["kB_on_mp"] = c::kB_on_mp / (m * m / sec / sec);
    k["kms_in_code"] = 1 / kms;
    k["a_jupiter"] = c::a_jupiter / AU;
    k["e_jupiter"] = c::e_jupiter;
    k["LoAN_jupiter"] = c::LoAN_jupiter / deg;
    k["AoP_jupiter"] = c::AoP_jupiter / deg;
    k["i_jupiter"] = c::i_jupiter / deg;
    k["a_neptune"] = c::a_neptune / AU;
    k["e_neptune"] = c::e_neptune;
    k["LoAN_neptune"] = c::LoAN_neptune / deg;
    k["AoP_neptune"] = c::AoP_neptune / deg;
    k["i_neptune"] = c::i_neptune / deg;
    k["a_mercury"] = c::a_mercury / AU;
    k["e_mercury"] = c::e_mercury;
    k["LoAN_mercury"] = c::LoAN_mercury / deg;
    k["AoP_mercury"] = c::AoP_mercury / deg;
    k["i_mercury"] = c::i_mercury / deg;
    std::ifstream in(argv[1]);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream s(line);
        std::string op, a, b;
        s >> op;
        std::cout << "{\"op\":\"" << op << "\"";
        if (op == "ratio") {
            s >> a >> b;
            std::cout << ",\"a\":\"" << a << "\",\"b\":\"" << b << "\",\"r\":" << dec(u.at(a) / u.at(b));
        } else if (op == "lit") {
            s >> a;
            std::cout << ",\"a\":\"" << a << "\",\"r\":" << dec(l7.at(a) / u.at(a)) << ",\"s\":" << dec(l25.at(a) / u.at(a));
        } else if (op == "const") {
            s >> a;
            std::cout << ",\"a\":\"" << a << "\",\"r\":" << dec(k.at(a));
        } else if (op == "radius") {
            long n, d;
            s >> a >> n >> d;
            using stellar::StarType;
            auto t = a == "BH" ? StarType::BH : a == "NS" ? StarType::NS : a == "WD" ? StarType::WD : StarType::STAR;
            long p = a == "STAR" ? 4 : a == "WD" ? 3 : 1;
            double r = stellar::stellar_radius(t, Ms * std::pow(double(n), p) / std::pow(double(d), p));
            std::cout << ",\"a\":\"" << a << "\",\"n\":" << n << ",\"d\":" << d << ",\"r\":" << dec(r / km);
        } else if (op == "elk") {
            double f, m1, m2, m3, a1, a2, e5;
            s >> f >> m1 >> m2 >> m3 >> a1 >> a2 >> e5;
            double T;
            if (f == 0)
                T = secular::ELK_quad_timescale(m1, m2, m3, a1, a2, e5 / 5);
            else {
                orbit::Elliptic o1(m1, m2, a1, 0.5, 0.25, 0.5, 0.75, 1.0), o2(m1 + m2, m3, a2, e5 / 5, 1.25, 0.5, 0.75, 2.0);
                T = secular::ELK_quad_timescale(o1, o2);
            }
            std::cout << ",\"f\":" << f << ",\"m\":[" << m1 << "," << m2 << "," << m3 << "],\"a1\":" << a1 << ",\"a2\":" << a2 << ",\"e5\":" << e5
                      << ",\"r\":" << jout::qr(T / year * m3 * a1 * a1 * a1 * 125);
        }
        std::cout << "}\n";
    }
}

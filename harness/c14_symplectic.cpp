// Records the drifts and kicks of the symplectic integrators: one trace per method and step size.
#include <iostream>
#include "type-class.hpp"
#include "integrator/symplectic/symplectic-integrator.hpp"
using namespace hub;
using namespace hub::integrator;

// c 2^56 as limbs of 14 bits, the sixth signed
std::string limbs(long double c) {
    long double y = std::floor(c * 72057594037927936.0L);
    std::string s = "[";
    for (int i = 0; i < 6; ++i) {
        long double hi = std::floor(y / 16384.0L);
        long v = i == 5 ? static_cast<long>(y) : static_cast<long>(y - hi * 16384.0L);
        s += (i ? "," : "") + std::to_string(v);
        y = hi;
    }
    return s + "]";
}
template <typename Ty>
struct Rec {
    SPACEHUB_USING_TYPE_SYSTEM_OF(Ty);
    std::string ev;
    Scalar h;
    void add(const char *op, Scalar c) { ev += std::string(ev.empty() ? "" : ",") + "{\"op\":\"" + op + "\",\"c\":" + limbs(static_cast<long double>(c) / static_cast<long double>(h)) + "}"; }
    void drift(Scalar c) { add("drift", c); }
    void kick(Scalar c) { add("kick", c); }
};
static std::vector<double> sizes;
template <typename I, typename Ty>
void run(const char *name, int want) {
    for (double h : sizes) {
        I it;
        for (int rep = 0; rep < 2; ++rep) {  // the second step is like the first
            Rec<Ty> r{"", static_cast<typename Ty::Scalar>(h)};
            it.integrate(r, r.h);
            std::cout << "{\"name\":\"" << name << "\",\"order\":" << I::order << ",\"want\":" << want << ",\"ev\":[" << r.ev << "]}\n";
        }
    }
}
template <typename Ty>
void all() {
    run<Symplectic2nd<Ty>, Ty>("Symplectic2nd", 2);
    run<LeapFrogDKD<Ty>, Ty>("LeapFrogDKD", 2);
    run<LeapFrogKDK<Ty>, Ty>("LeapFrogKDK", 2);
    run<Symplectic4th<Ty>, Ty>("Symplectic4th", 4);
    run<Symplectic6th<Ty>, Ty>("Symplectic6th", 6);
    run<Symplectic8th<Ty>, Ty>("Symplectic8th", 8);
    run<Symplectic10th<Ty>, Ty>("Symplectic10th", 10);
}
int main(int argc, char **argv) {
    for (int i = 1; i < argc; ++i) sizes.push_back(std::atof(argv[i]));
    all<Types<double>>();
    all<Types<long double>>();
}

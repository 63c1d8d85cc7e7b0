// Compensated numbers. Input lines: <type> <nops> (op arg)* ; values relative to a base that fills the mantissa.
#include <fstream>
#include <iomanip>
#include <iostream>
#include <sstream>
#include "jout.hpp"
#include "core-computation.hpp"
#include "kahan-number.hpp"
#include "vector/vector3.hpp"
using namespace hub;
template <typename K, typename T>
void program(std::istream &in, T base, int deep = 0) {
    K a(0), b(0);
    int n;
    in >> n;
    std::cout << "{\"p\":" << std::numeric_limits<T>::digits << ",\"deep\":" << deep << ",\"ev\":[";
    T off = 0;  // what the base has become
    for (int i = 0; i < n; ++i) {
        std::string op, txt;
        int x;
        in >> op >> x;
        T v = x;
        if (op == "set") a = K(base + v), off = base;
        else if (op == "assign") a = base + v, off = base;
        else if (op == "read") { std::ostringstream s; s << std::setprecision(40) << base + v; std::istringstream r(s.str()); r >> a; off = base; }
        else if (op == "add") a += v; else if (op == "addk") a += K(v); else if (op == "sub") a -= v; else if (op == "subk") a -= K(v);
        else if (op == "muli") a *= v, off *= v; else if (op == "divi") a /= v, off /= v;
        else if (op == "neg") a = -a, off = -off;
        else if (op == "copy") { K c(a); a = K(0); a = c; }
        else if (op == "swap") { b = a; a += v; a = b; }
        else if (op == "adv") { std::vector<K> w{a}; std::vector<T> u{T(2)}; calc::array_advance(w, u, v); a = w[0]; }
        else if (op == "vec") { Vec3<K> w(a, a, a); Vec3<T> u(v, v, v); w += u; w -= u; w += u; a = x % 2 ? w.x : w.z; }
        else if (op == "text") { std::ostringstream s; s << std::setprecision(40) << a; std::istringstream r(s.str()); r >> a; }
        else abort();
        T val = a;
        std::cout << (i ? "," : "") << "{\"op\":\"" << op << "\",\"x\":" << x << ",\"r\":" << jout::q(static_cast<double>(val - off)) << "}";
    }
    std::cout << "]}" << std::endl;
}
int main(int, char **argv) {
    std::ifstream f(argv[1]);
    std::string line, ty;
    while (std::getline(f, line)) {
        std::istringstream in(line);
        in >> ty;
        if (ty == "kf") program<Kahan<float>>(in, 0.f);
        else if (ty == "kd") program<Kahan<double>>(in, 0x1p59);
        else if (ty == "kl") program<Kahan<long double>>(in, 0x1p70L);
        else if (ty == "nf") program<Neumaier<float>>(in, 0.f);
        else if (ty == "nd") program<Neumaier<double>>(in, 0x1p59);
        else if (ty == "nl") program<Neumaier<long double>>(in, 0x1p70L);
        else if (ty == "ef") program<Klein<float>>(in, 0.f, 1);
        else if (ty == "ed") program<Klein<double>>(in, 0x1p59);
        else if (ty == "el") program<Klein<long double>>(in, 0x1p70L);
        else abort();
    }
}

// Chain::calc_chain / calc_cartesian / update_chain on integer coordinates; one output trace per axis.
#include <fstream>
#include <iostream>
#include <sstream>
#include "jout.hpp"
#include "kahan-number.hpp"
#include "particle-system/chain.hpp"
#include "type-class.hpp"
using namespace hub;
template <typename A>
std::string axis(A const &a, int k) {
    std::string s = "[";
    for (size_t i = 0; i < a.size(); ++i) s += (i ? "," : "") + std::to_string(jout::q(double(k == 0 ? a[i].x : k == 1 ? a[i].y : a[i].z)));
    return s + "]";
}
template <typename I>
std::string one(I const &ix) {
    std::string r = "[";
    for (size_t i = 0; i < ix.size(); ++i) r += (i ? "," : "") + std::to_string(ix[i] + 1);
    return r + "]";
}
template <typename Ty>
void go(std::istream &in) {
    using VA = typename Ty::StateVectorArray;
    size_t n;
    in >> n;
    std::ostringstream out[3];
    typename Ty::IdxArray idx(n), nidx(n);
    typename Ty::ScalarArray mass(n);
    for (size_t i = 0; i < n; ++i) mass[i] = i + 1;
    VA cart(n), chain(n);
    auto put = [&](const char *e, std::string const &more, VA const *d) {
        for (int k = 0; k < 3; ++k) {
            out[k] << (out[k].str().empty() ? "" : ",") << "{\"e\":\"" << e << "\"," << more << "\"chain\":" << axis(chain, k) << ",\"cart\":" << axis(cart, k);
            if (d) out[k] << ",\"d\":" << axis(*d, k);
            out[k] << "}";
        }
    };
    std::string op;
    while (in >> op) {
        if (op == "build") {
            for (auto &i : idx) in >> i;
            for (size_t i = 0; i < n; ++i) {
                double x, y, z;
                in >> x >> y >> z;
                cart[i].x = x, cart[i].y = y, cart[i].z = z;
            }
            VA given = cart;
            Chain::calc_chain(cart, chain, idx);
            Chain::calc_cartesian(mass, chain, cart, idx);
            put("build", "\"idx\":" + one(idx) + ",", &given);
        } else if (op == "rechain") {
            for (auto &i : nidx) in >> i;
            Chain::update_chain(chain, cart, idx, nidx);
            idx = nidx;
            Chain::calc_cartesian(mass, chain, cart, idx);
            put("rechain", "\"idx\":" + one(idx) + ",", nullptr);
        } else {
            VA d(n);
            for (size_t i = 0; i < n; ++i) {
                double x, y, z;
                in >> x >> y >> z;
                d[i].x = x, d[i].y = y, d[i].z = z;
                chain[i] = chain[i] + d[i];
            }
            Chain::calc_cartesian(mass, chain, cart, idx);
            put("move", "", &d);
        }
    }
    for (int k = 0; k < 3; ++k) std::cout << "{\"axis\":" << k + 1 << ",\"ev\":[" << out[k].str() << "]}\n";
}
int main(int, char **argv) {
    std::ifstream f(argv[1]);
    std::string line, ty;
    while (std::getline(f, line)) {
        std::istringstream in(line);
        in >> ty;
        if (ty == "d") go<Types<double, Vec3>>(in);
        if (ty == "k") go<Types<double_k, Vec3>>(in);
    }
}

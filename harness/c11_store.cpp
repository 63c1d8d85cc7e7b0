// Drives the particle containers and the systems built on them. Every input line is a program:
//   <kind> <nops> (op x y i n <nvals> val...)*
// and what is observed of both stores is reported after every operation.
#include <fstream>
#include <iostream>
#include <list>
#include <memory>
#include <sstream>
#include "jout.hpp"
#include "interaction/interaction.hpp"
#include "interaction/newtonian.hpp"
#include "kahan-number.hpp"
#include "particle-system/archain.hpp"
#include "particle-system/base-system.hpp"
#include "particle-system/chain-system.hpp"
#include "particle-system/regu-system.hpp"
#include "particles/drag-particles.hpp"
#include "particles/finite-size.hpp"
#include "particles/point-particles.hpp"
#include "particles/tide-particles.hpp"
#include "type-class.hpp"
using namespace hub;
enum Kind { POINT, SIZE, TIDE, DRAG };
template <Kind K, typename P>
P mk(std::vector<double> const &a) {  // mass e1 e2 e3 p v
    typename P::Vector p(a[4], a[5], a[6]), v(a[7], a[8], a[9]);
    if constexpr (K == POINT) return P(a[0], p, v);
    if constexpr (K == SIZE) return P(a[0], a[1], p, v);
    if constexpr (K == TIDE) return P(a[0], a[1], a[2], a[3], p, v);
    if constexpr (K == DRAG) return P(a[0], a[1], a[2], p, v);
}
template <Kind K, typename P>
P mk_scalars(std::vector<double> const &a) {
    if constexpr (K == POINT) return P(a[0], a[4], a[5], a[6], a[7], a[8], a[9]);
    if constexpr (K == SIZE) return P(a[0], a[1], a[4], a[5], a[6], a[7], a[8], a[9]);
    if constexpr (K == TIDE) return P(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
    if constexpr (K == DRAG) return P(a[0], a[1], a[2], a[4], a[5], a[6], a[7], a[8], a[9]);
}
#define Q(x) jout::q(static_cast<double>(x))
std::string rec(std::initializer_list<long> l) {
    std::string s = "[";
    for (long a : l) s += (s.size() > 1 ? "," : "") + std::to_string(a);
    return s + "]";
}
template <Kind K, typename P>
std::string show_p(P const &p) {
    long e1 = 0, e2 = 0, e3 = 0;
    if constexpr (K == SIZE) e1 = Q(p.radius);
    if constexpr (K == TIDE) e1 = Q(p.radius), e2 = Q(p.tide_apsidal_const), e3 = Q(p.tide_lag_time);
    if constexpr (K == DRAG) e1 = Q(p.sub_sonic_coef), e2 = Q(p.local_cs);
    return rec({Q(p.mass), e1, e2, e3, Q(p.pos.x), Q(p.pos.y), Q(p.pos.z), Q(p.vel.x), Q(p.vel.y), Q(p.vel.z)});
}
template <Kind K, typename S>
std::string show(S const &s) {  // read the arrays as whole and by element
    std::string o = "{\"t\":" + std::to_string(Q(s.time())) + ",\"n\":" + std::to_string(s.number()) + ",\"r\":[";
    bool ok = s.mass().size() == s.number() && s.pos().size() == s.number() && s.vel().size() == s.number() && s.idn().size() == s.number();
    for (size_t i = 0; ok && i < s.number(); ++i) {
        long e1 = 0, e2 = 0, e3 = 0;
        if constexpr (K == SIZE) e1 = Q(s.radius(i)), ok = ok && s.radius()[i] == s.radius(i);
        if constexpr (K == TIDE) e1 = Q(s.radius()[i]), e2 = Q(s.tide_apsidal_const(i)), e3 = Q(s.tide_lag_time(i));
        if constexpr (K == DRAG) e1 = Q(s.sub_sonic_c(i)), e2 = Q(s.local_cs()[i]);
        o += std::string(i ? "," : "") + "{\"id\":" + std::to_string(s.idn(i)) + ",\"v\":" +
             rec({Q(s.mass()[i]), e1, e2, e3, Q(s.pos(i).x), Q(s.pos()[i].y), Q(s.pos(i).z), Q(s.vel(i).x), Q(s.vel(i).y), Q(s.vel()[i].z)}) + "}";
    }
    if (!ok) return "{\"t\":0,\"n\":-1,\"r\":[]}";
    return o + "]}";
}
std::vector<std::vector<std::string>> split(std::string const &t, char row, char col) {
    std::vector<std::vector<std::string>> r;
    std::istringstream in(t);
    std::string l, f;
    while (std::getline(in, l, row)) {
        r.emplace_back();
        std::istringstream li(l);
        while (std::getline(li, f, col)) r.back().push_back(f);
    }
    return r;
}
std::string table(std::string const &names, std::string const &text) {
    std::string o = "{\"names\":[";
    auto h = split(names, '\n', ',');
    for (size_t i = 0; !h.empty() && i < h[0].size(); ++i) o += (i ? ",\"" : "\"") + h[0][i] + "\"";
    o += "],\"rows\":[";
    bool first = true;
    for (auto &r : split(text, '\n', ',')) {
        o += std::string(first ? "" : ",") + "[";
        first = false;
        for (size_t i = 0; i < r.size(); ++i) {
            char *e;
            double d = strtod(r[i].c_str(), &e);
            o += (i ? "," : "") + std::to_string(*e || r[i].empty() ? jout::BAD : Q(d));
        }
        o += "]";
    }
    return o + "],\"nl\":" + std::to_string(text.empty() || text.back() == '\n') + "}";
}
template <Kind K, typename S, bool full>
void program(std::istream &in, char const *kind) {
    using P = typename S::Particle;
    std::vector<std::unique_ptr<S>> st(2);
    if constexpr (full) for (auto &s : st) s = std::make_unique<S>();
    int nops;
    in >> nops;
    std::cout << "{\"kind\":\"" << kind << "\",\"full\":" << full << ",\"ev\":[";
    for (int o = 0; o < nops; ++o) {
        std::string op;
        int x, y, i, n, nv;
        in >> op >> x >> y >> i >> n >> nv;
        std::vector<double> a(nv);
        for (auto &v : a) in >> v;
        std::vector<P> ps;
        if (op == "make" || op == "push") for (int k = 0; k + 10 < nv + (op == "push"); k += 10) {
            std::vector<double> b(a.begin() + k + (op == "make"), a.begin() + k + 10 + (op == "make"));
            ps.push_back(k / 10 % 2 ? mk_scalars<K, P>(b) : mk<K, P>(b));
        }
        std::string aos = "[]", txt = "[]", tab = "{\"names\":[],\"rows\":[],\"nl\":1}";
        long ret = -1;
        if (op == "make") {
            if (n && full) { std::list<P> l(ps.begin(), ps.end()); st[x] = std::make_unique<S>(a[0], l); }
            else st[x] = std::make_unique<S>(a[0], ps);
        }
        else if (op == "copy") st[x] = std::make_unique<S>(*st[y]);
        else if (op == "assign") *st[x] = *st[y];
        else if (op == "aos") {
            aos = "[";
            txt = "[";
            for (auto &p : st[x]->to_AoS()) {
                aos += (aos.size() > 1 ? "," : "") + show_p<K>(p);
                // what a particle prints is what it reads
                std::ostringstream o;
                o << p;
                std::string t = o.str();
                for (auto &c : t) if (c == ',') c = ' ';
                std::istringstream in(t);
                P q = mk<K, P>(std::vector<double>(10, 1e8));
                in >> q;
                txt += (txt.size() > 1 ? "," : "") + (in ? show_p<K>(q) : std::string("[]"));
            }
            aos += "]", txt += "]";
        } else if (op == "print") {
            std::ostringstream s;
            s << *st[x];
            tab = table(st[x]->column_names(), s.str());
        } else if (op == "time") st[x]->time() = a[0];
        else if (op == "set") {
            auto &s = *st[x];
            s.mass(i) = a[0];
            if constexpr (K == SIZE) s.radius(i) = a[1];
            if constexpr (K == TIDE) s.radius(i) = a[1], s.tide_apsidal_const(i) = a[2], s.tide_lag_time(i) = a[3];
            if constexpr (K == DRAG) s.sub_sonic_c(i) = a[1], s.local_cs(i) = a[2];
            s.pos(i) = typename S::StateVector(a[4], a[5], a[6]);
            s.vel()[i] = typename S::StateVector(a[7], a[8], a[9]);
        }
        if constexpr (full) {
            if (op == "push") st[x]->emplace_back(ps[0]);
            else if (op == "resize") st[x]->resize(n);
            else if (op == "reserve") { st[x]->reserve(n); ret = st[x]->capacity() >= (size_t)n; }
            else if (op == "clear") st[x]->clear();
        }
        std::cout << (o ? "," : "") << "{\"op\":\"" << op << "\",\"x\":" << x + 1 << ",\"y\":" << y + 1 << ",\"i\":" << i + 1 << ",\"n\":" << n << ",\"a\":[";
        for (int k = 0; k < nv; ++k) std::cout << (k ? "," : "") << Q(a[k]);
        std::cout << "],\"ret\":" << ret << ",\"aos\":" << aos << ",\"txt\":" << txt << ",\"tab\":" << tab << ",\"st\":[";
        for (int k = 0; k < 2; ++k) std::cout << (k ? "," : "") << (st[k] ? show<K>(*st[k]) : std::string("{\"t\":0,\"n\":0,\"r\":[]}"));
        std::cout << "]}";
    }
    std::cout << "]}" << std::endl;
}
using namespace particles;
using F = force::Interactions<force::NewtonianGrav>;
template <typename T>
void pick(std::string const &k, std::istream &in) {
    if (k == "point") program<POINT, PointParticles<T>, true>(in, "point");
    else if (k == "size") program<SIZE, SizeParticles<T>, true>(in, "size");
    else if (k == "tide") program<TIDE, TideParticles<T>, true>(in, "tide");
    else if (k == "drag") program<DRAG, DragParticles<T>, true>(in, "drag");
    else if (k == "simple") program<POINT, system::SimpleSystem<PointParticles<T>, F>, false>(in, "point");
    else if (k == "chain") program<SIZE, system::ChainSystem<SizeParticles<T>, F>, false>(in, "size");
    else if (k == "regu") program<TIDE, system::RegularizedSystem<TideParticles<T>, F, system::ReguType::LogH>, false>(in, "tide");
    else if (k == "archain") program<SIZE, system::ARchainSystem<SizeParticles<T>, F, system::ReguType::LogH>, false>(in, "size");
    else abort();
}
int main(int, char **argv) {
    std::ifstream f(argv[1]);
    std::string line, k, ty;
    while (std::getline(f, line)) {
        std::istringstream in(line);
        in >> k >> ty;
        if (ty == "d") pick<Types<double, Vec3>>(k, in);
        else pick<Types<double_k, Vec3>>(k, in);
    }
}

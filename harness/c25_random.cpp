// Samples of the random numbers: counts per bin, joint counts of two draws, parameters over scripted
// distributions, draws in several threads.
#include <algorithm>
#include <deque>
#include <fstream>
#include <iostream>
#include <memory>
#include <thread>
#include "orbits/orbits.hpp"
#include "rand-generator.hpp"
#include "jout.hpp"
using namespace hub;
using Draw = std::function<double()>;
constexpr int N = 1000000;
struct Dist {
    std::string name, label;  // as drawn, as judged
    double u;                 // unit of all its numbers
    std::vector<long> p;
    std::vector<long> ed;
    double value(long x) const { return name == "power" ? u * x * x : u * x; }
};
static std::istream &operator>>(std::istream &in, Dist &d) {
    size_t np, ne;
    in >> d.name >> d.label >> d.u >> np;
    d.p.resize(np);
    for (auto &x : d.p) in >> x;
    in >> ne;
    d.ed.resize(ne);
    for (auto &x : d.ed) in >> x;
    return in;
}
static std::string arr(std::vector<long> const &v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
template <typename K>
static double mean_of(K const &o) {
    double e = o.e, E = 2 * atan2(sqrt(1 - e) * sin(o.nu / 2), sqrt(1 + e) * cos(o.nu / 2));
    return E - e * sin(E);
}
template <typename K>
static Draw of_orbit(std::string q, K make, double u) {
    if (q == "cosi") return [=] { return cos(make().i); };
    if (q == "Omega") return [=] { return make().Omega; };
    if (q == "omega") return [=] { return make().omega; };
    return [=] { return mean_of(make()); };
}
static Draw make(Dist const &d, bool param) {
    auto const &n = d.name;
    double u = d.u;
    auto P = [&](size_t i) { return u * d.p[i]; };
    if (n == "uniform") {
        double a = P(0), b = P(1);
        if (param) { random::Parameter p(random::Uniform, a, b); return [=] { return p.draw(); }; }
        return [=] { return random::Uniform(a, b); };
    }
    if (n == "log") {
        double a = P(0), b = P(1);
        if (param) { random::Parameter p(random::Logarithm, a, b); return [=] { return p.draw(); }; }
        return [=] { return random::Logarithm(a, b); };
    }
    if (n == "power") {
        double k = (d.p[0] - 2) / 2.0, a = u * d.p[1] * d.p[1], b = u * d.p[2] * d.p[2];
        if (param) { random::Parameter p(random::PowerLaw, k, a, b); return [=] { return p.draw(); }; }
        return [=] { return random::PowerLaw(k, a, b); };
    }
    if (n == "normal") {
        double m = P(0), s = 4 * u;
        if (m == 0 && s == 1) return [] { return random::Normal(); };
        if (param) { random::Parameter p(random::Normal, m, s); return [=] { return p.draw(); }; }
        return [=] { return random::Normal(m, s); };
    }
    if (n == "tnormal") {
        double a = P(0), b = P(1), m = P(2), s = 4 * u;
        if (param) {  // a truncated distribution is the distribution of a bounded parameter
            random::Parameter p(random::Normal, m, s);
            p.set_boundary(a, b);
            return [=] { return p.draw(); };
        }
        if (m == 0 && s == 1) return [=] { return random::TruncatedNormal(a, b); };
        return [=] { return random::TruncatedNormal(a, b, m, s); };
    }
    if (n == "maxwell") {
        if (param) { random::Parameter p(random::Maxwellian, 4 * u); return [=] { return p.draw(); }; }
        return [=] { return random::Maxwellian(4 * u); };
    }
    if (n == "tmaxwell") {
        double a = P(0), b = P(1);
        if (param) {
            random::Parameter p(random::Maxwellian, 4 * u);
            p.set_boundary(a, b);
            return [=] { return p.draw(); };
        }
        return [=] { return random::TruncatedMaxwellian(a, b, 4 * u); };
    }
    if (n == "cut") {  // a bounded uniform parameter
        double a = u * d.p[0], b = u * d.p[1];
        random::Parameter p(random::Uniform, a - 3 * (b - a), b + 2 * (b - a));
        p.set_max(b);
        p.set_min(a);
        return [=] { return p.draw(); };
    }
    if (n == "ring") {  // exp(-r^2/2) of a pair of normal numbers
        double m = sqrt(static_cast<double>(d.p[0]) / d.p[1]);
        return [=] { auto [x, y] = random::Normal2(m); return exp(-(x * x + y * y) / 2); };
    }
    if (n == "gx") return [] { return random::Normal2(0).first; };
    if (n == "gy") return [] { return random::Normal2(0).second; };
    // orbits: a quantity and a form
    auto q = n.substr(0, n.find('-')), f = n.substr(n.find('-') + 1);
    using orbit::isotherm;
    if (f == "kep") return of_orbit(q, [] { return orbit::Kepler(1.0, 2.0, 1.5, 0.625, isotherm, isotherm, isotherm, isotherm); }, u);
    if (f == "ell") return of_orbit(q, [] { return orbit::Elliptic(1.0, 2.0, 1.5, 0.375, isotherm, isotherm, isotherm, isotherm); }, u);
    if (f == "hyp") return of_orbit(q, [] { return orbit::Hyperbolic(1.0, 2.0, 1.0, 2.0, isotherm, isotherm, isotherm, 100.0); }, u);
    if (f == "shuf") return of_orbit(q, [=] {
        orbit::Kepler o(1.0, 2.0, 1.5, 0.5, 0.25, 0.5, 0.75, 1.0);
        if (q == "cosi") o.shuffle_i();
        if (q == "Omega") o.shuffle_Omega();
        if (q == "omega") o.shuffle_omega();
        if (q == "M") o.shuffle_nu();
        return o;
    }, u);
    std::cerr << "unknown distribution " << n << "\n";
    exit(3);
}
static size_t bin(Dist const &d, double x) {
    double slack = 1e-9 * (fabs(d.value(d.ed.back()) - d.value(d.ed.front())));
    size_t i = 0;
    while (i < d.ed.size()) {
        double e = d.value(d.ed[i]);
        bool last = i + 1 == d.ed.size();
        if (!(x > (last ? e + slack : i == 0 ? e - slack : e))) break;
        ++i;
    }
    return i;
}
static std::vector<long> sample(Dist const &d, std::string const &form) {
    std::vector<long> cnt(d.ed.size() + 1, 0);
    if (form == "threads") {
        std::vector<std::vector<long>> c(4, cnt);
        std::vector<std::thread> th;
        for (int t = 0; t < 4; ++t) th.emplace_back([&, t] {
            auto f = make(d, false);
            for (int i = 0; i < N / 4; ++i) c[t][bin(d, f())]++;
        });
        for (auto &t : th) t.join();
        for (auto &v : c) for (size_t i = 0; i < v.size(); ++i) cnt[i] += v[i];
    } else {
        auto f = make(d, form == "param");
        for (int i = 0; i < N; ++i) cnt[bin(d, f())]++;
    }
    return cnt;
}
struct Exhausted {};
int main(int, char **argv) {
    std::ifstream in(argv[1]);
    std::string what;
    int nops;
    while (in >> nops) {
        std::ostringstream out;
        std::unique_ptr<random::Parameter> par;
        auto script = std::make_shared<std::deque<long>>();
        for (int o = 0; o < nops; ++o) {
            in >> what;
            if (o) out << ",";
            if (what == "hist") {
                std::string form;
                Dist d;
                in >> form >> d;
                out << "{\"e\":\"hist\",\"n\":\"" << d.name << "/" << form << "\",\"d\":\"" << d.label << "\",\"p\":" << arr(d.p) << ",\"ed\":" << arr(d.ed) << ",\"cnt\":" << arr(sample(d, form)) << "}";
            } else if (what == "pair") {
                Dist a, b;
                std::string form;
                in >> form >> a >> b;
                std::vector<long> cnt((a.ed.size() + 1) * (b.ed.size() + 1), 0);
                if (form == "two") {  // both numbers of one pair
                    for (int i = 0; i < N; ++i) {
                        auto [x, y] = random::Normal2(0);
                        cnt[bin(a, x) * (b.ed.size() + 1) + bin(b, y)]++;
                    }
                } else if (form == "threads") {
                    std::vector<int> ba(N), bb(N);
                    std::thread t1([&] { auto f = make(a, false); for (auto &x : ba) x = bin(a, f()); });
                    std::thread t2([&] { auto f = make(b, false); for (auto &x : bb) x = bin(b, f()); });
                    t1.join(), t2.join();
                    for (int i = 0; i < N; ++i) cnt[ba[i] * (b.ed.size() + 1) + bb[i]]++;
                } else {
                    auto f = make(a, false), g = make(b, false);
                    for (int i = 0; i < N; ++i) {
                        auto x = f();
                        auto y = g();
                        cnt[bin(a, x) * (b.ed.size() + 1) + bin(b, y)]++;
                    }
                }
                out << "{\"e\":\"pair\",\"n\":\"" << a.name << "/" << b.name << "/" << form << "\",\"d\":\"" << a.label << "\",\"p\":" << arr(a.p) << ",\"ed\":" << arr(a.ed) << ",\"d2\":\"" << b.label << "\",\"p2\":" << arr(b.p) << ",\"ed2\":" << arr(b.ed) << ",\"cnt\":" << arr(cnt) << "}";
            } else if (what == "streams") {  // first draws of new threads, some at the same time
                Dist d;
                int n;
                in >> n >> d;
                std::vector<std::vector<long>> f(n);
                auto run = [&](int i) {
                    auto g = make(d, i % 2);
                    for (int k = 0; k < 4; ++k) { int ex; f[i].push_back(std::lround(std::frexp(g(), &ex) * 1e9)); }
                };
                for (int i = 0; i < n; i += 4) {
                    std::vector<std::thread> th;
                    for (int k = i; k < n && k < i + 4; ++k) th.emplace_back(run, k);
                    for (auto &t : th) t.join();
                }
                for (int i = 0; i < n; ++i) out << (i ? "," : "") << "{\"e\":\"stream\",\"f\":" << arr(f[i]) << "}";
            } else if (what == "race") {  // many draws at the same time: how many are equal
                Dist d;
                in >> d;
                constexpr int M = 100000, K = 8;
                std::vector<double> v(M * K);
                std::vector<std::thread> th;
                for (int t = 0; t < K; ++t) th.emplace_back([&, t] {
                    auto f = make(d, false);
                    for (int i = 0; i < M; ++i) v[t * M + i] = f();
                });
                for (auto &t : th) t.join();
                std::sort(v.begin(), v.end());
                long dup = 0;
                for (size_t i = 1; i < v.size(); ++i) dup += v[i] == v[i - 1];
                out << "{\"e\":\"race\",\"n\":\"" << d.name << "\",\"dup\":" << dup << "}";
            } else if (what == "new") {
                size_t n;
                in >> n;
                script->clear();
                std::vector<long> s(n);
                for (auto &x : s) in >> x, script->push_back(x);
                auto next = [script](double unit, double off) {
                    if (script->empty()) throw Exhausted{};
                    double x = unit * (script->front() + off);
                    script->pop_front();
                    return x;
                };
                par = std::make_unique<random::Parameter>(next, 0.5, 0.0);
                out << "{\"e\":\"new\",\"s\":" << arr(s) << "}";
            } else if (what == "min" || what == "max") {
                long v;
                in >> v;
                what == "min" ? par->set_min(0.5 * v) : par->set_max(0.5 * v);
                out << "{\"e\":\"" << what << "\",\"v\":" << v << "}";
            } else if (what == "both") {
                long a, b;
                in >> a >> b;
                par->set_boundary(0.5 * a, 0.5 * b);
                out << "{\"e\":\"both\",\"a\":" << a << ",\"b\":" << b << "}";
            } else if (what == "copy") {
                auto p = std::make_unique<random::Parameter>(*par);
                par->set_boundary(1000, 2000);  // the old one is nobody's business any more
                par = std::move(p);
                out << "{\"e\":\"copy\"}";
            } else if (what == "draw") {
                try {
                    double x = par->draw();
                    out << "{\"e\":\"draw\",\"v\":" << jout::q(x, 2) << "}";
                } catch (Exhausted) {
                    out << "{\"e\":\"stuck\"}";
                }
            } else {
                std::cerr << "unknown " << what << "\n";
                return 3;
            }
        }
        std::cout << "{\"ev\":[" << out.str() << "]}" << std::endl;
    }
}

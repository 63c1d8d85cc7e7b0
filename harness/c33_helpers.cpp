// Printing, reading, numeric helpers.  One program per line of the input: n, then n commands
//   <printer> k  (t v)*k     printer: print csv display std tuple array vector small
//   read k (t v)*k sep cut    values are written with sep in between, the last cut of them not
//   tie  (same)
//   min/max/abs/range/step/sign type a b c (quarters)
//   iseq type x d             x quarters, d quarters of epsilon
//   bisect type kind low high r c     (1/8)
//   newton type r c           r in 1/8, c in quarters
//   grow/size/cap/clear/fit n ...
#include <array>
#include <cfloat>
#include <limits>
#include "spaceHub.hpp"
#include "jout.hpp"
using namespace hub;
static std::istringstream in;
struct Val {
    char t;
    long v;
    std::string s;
};
static Val val() {
    Val a;
    in >> a.t;
    if (a.t == 's')
        in >> a.s;
    else
        in >> a.v;
    return a;
}
static std::string js(Val const &a) {
    return a.t == 's' ? "{\"t\":\"s\",\"s\":\"" + a.s + "\"}" : std::string("{\"t\":\"") + a.t + "\",\"v\":" + std::to_string(a.v) + "}";
}
template <typename V>
static std::string jvals(V const &a) {
    std::string o = "[";
    for (auto &x : a) o += (o.size() > 1 ? "," : "") + js(x);
    return o + "]";
}
// calls f with the values as a pack of int, double, std::string, char const*
template <typename F, typename... A>
void spread(std::vector<Val> const &v, F &&f, A &&...a) {
    if constexpr (sizeof...(A) <= 4) {
        if (v.size() == sizeof...(A)) {
            f(std::forward<A>(a)...);
            return;
        }
    }
    if constexpr (sizeof...(A) < 4) {
        Val const &x = v[sizeof...(A)];
        if (x.t == 's')
            spread(v, f, std::forward<A>(a)..., x.s);
        else if (x.t == 'q')
            spread(v, f, std::forward<A>(a)..., x.v / 4.0);
        else
            spread(v, f, std::forward<A>(a)..., static_cast<int>(x.v));
    }
}
static std::string text(std::string const &s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') o += '\\';
        if (c == '\n')
            o += "\\n";
        else if (c == '\t')
            o += "\\t";
        else
            o += c;
    }
    return o + "\"";
}
template <typename F>
static std::string caught(F f) {
    std::ostringstream o;
    auto *b = std::cout.rdbuf(o.rdbuf());
    f();
    std::cout.rdbuf(b);
    return o.str();
}
static std::string printer(std::string const &op, std::vector<Val> const &v, bool &same) {
    std::ostringstream o;
    same = true;
    if (op == "print")
        spread(v, [&](auto const &...a) { same = &print(o, a...) == &o; });
    else if (op == "display")
        spread(v, [&](auto const &...a) { display(o, a...); });
    else if (op == "std")
        return caught([&] { spread(v, [&](auto const &...a) { same = &std_print(a...) == &std::cout; }); });
    else if (op == "csv")
        spread(v, [&](auto const &...a) {
            if constexpr (sizeof...(a) > 0) same = &print_csv(o, a...) == &o;
        });
    else if (op == "tuple")
        spread(v, [&](auto const &...a) {
            if constexpr (sizeof...(a) > 0) hub::operator<<(o, std::make_tuple(a...));
        });
    else {
        auto c = [&](auto one) {
            using T = decltype(one);
            std::vector<T> x;
            for (auto &a : v)
                if constexpr (std::is_same_v<T, std::string>)
                    x.push_back(a.s);
                else if constexpr (std::is_same_v<T, double>)
                    x.push_back(a.v / 4.0);
                else
                    x.push_back(a.v);
            if (op == "vector")
                hub::operator<<(o, x);
            else if (op == "small") {
                llvm::SmallVector<T, 3> y;
                for (auto &e : x) y.emplace_back(e);
                hub::operator<<(o, y);
            } else {
                switch (x.size()) {
                    case 0: hub::operator<<(o, std::array<T, 0>{}); break;
                    case 1: hub::operator<<(o, std::array<T, 1>{x[0]}); break;
                    case 2: hub::operator<<(o, std::array<T, 2>{x[0], x[1]}); break;
                    case 3: hub::operator<<(o, std::array<T, 3>{x[0], x[1], x[2]}); break;
                    default: hub::operator<<(o, std::array<T, 4>{x[0], x[1], x[2], x[3]});
                }
            }
        };
        if (v.empty() || v[0].t == 'i')
            c(int{});
        else if (v[0].t == 'q')
            c(double{});
        else
            c(std::string{});
    }
    return o.str();
}
// variables to read into
struct Slot {
    Val v;
};
static std::istream &operator>>(std::istream &is, Slot &s) {
    if (s.v.t == 's') return is >> s.v.s;
    if (s.v.t == 'q') {
        double x;
        if (is >> x) s.v.v = jout::q(x, 4);
        return is;
    }
    return is >> s.v.v;
}
template <typename T>
static T eps(long d) {
    return std::numeric_limits<T>::epsilon() * d / 4;
}
template <typename T>
static std::string numeric(std::string const &op) {
    std::string o;
    auto out = [&](T x) { o = ",\"r\":" + std::to_string(jout::q(double(x), 8)); };
    if (op == "min" || op == "max") {
        long a, b;
        in >> a >> b;
        T x = T(a) / 8, y = T(b) / 8;
        if (op == "min") out(math::min(x, y));
        else out(math::max(x, y));
        o += ",\"a\":" + std::to_string(a) + ",\"b\":" + std::to_string(b);
    } else if (op == "abs" || op == "step" || op == "sign") {
        long a;
        in >> a;
        T x = T(a) / 8;
        if (op == "abs") out(math::abs(x));
        else if (op == "step") out(math::step(x));
        else out(math::sign(x));
        o += ",\"a\":" + std::to_string(a);
    } else if (op == "range") {
        long a, b, c;
        in >> a >> b >> c;
        out(math::in_range(T(a) / 8, T(b) / 8, T(c) / 8));
        o += ",\"lo\":" + std::to_string(a) + ",\"a\":" + std::to_string(b) + ",\"hi\":" + std::to_string(c);
    } else if (op == "iseq") {
        long a, d;
        in >> a >> d;
        T x = a;  // zero or one: neighbours are eps/2 or eps away
        T y = x + eps<T>(d);
        o = std::string(",\"r\":") + (math::iseq(x, y) && math::iseq(y, x) ? "true" : math::iseq(x, y) || math::iseq(y, x) ? "2" : "false") + ",\"d\":" + std::to_string(std::lround(double((y - x) / eps<T>(1))));
    } else if (op == "limits") {
        o = ",\"r\":[" + std::to_string(math::epsilon_v<T> == std::numeric_limits<T>::epsilon()) + "," + std::to_string(math::max_value_v<T> == std::numeric_limits<T>::max()) + "," + std::to_string(std::isfinite(double(math::big_value_v<T> / std::numeric_limits<T>::max())) ? long(std::lround(double(math::big_value_v<T> / std::numeric_limits<T>::max() * 100))) : -1) + "]";
    } else if (op == "bisect") {
        std::string kind;
        long a, b, r, c;
        in >> kind >> a >> b >> r >> c;
        T R = T(r) / 8;
        long calls = 0;
        struct Stuck {};
        auto f = [&](T x) -> T {
            if (++calls > 200000) throw Stuck();
            T d = x - R;
            T y = kind == "lin" ? d : kind == "cube" ? d * (d * d + 1) : kind == "jump" ? (d > 0 ? T(1) : d < 0 ? T(-1) : T(0)) : kind == "right" ? (d > 0 ? T(1) : T(-1)) : (d >= 0 ? T(1) : T(-1));
            return y * c;
        };
        o = ",\"kind\":\"" + kind + "\",\"lo\":" + std::to_string(a) + ",\"hi\":" + std::to_string(b) + ",\"root\":" + std::to_string(r);
        try {
            T x = math::root_bisection(f, T(a) / 8, T(b) / 8);
            T scale = r == 0 ? std::numeric_limits<T>::epsilon() : std::numeric_limits<T>::epsilon() * std::fabs(R);
            o += ",\"r\":" + std::to_string(jout::qr(double((x - R) / scale), 1));
        } catch (Stuck) {
            o += ",\"r\":" + std::to_string(jout::BAD);
        }
    } else if (op == "newton") {
        long r, c;
        in >> r >> c;
        T R = T(r) / 8, C = T(c) / 4;
        T x = math::root_newton([=](T y) -> T { return (y - R) * C; });
        o = ",\"root\":" + std::to_string(r) + ",\"r\":" + std::to_string(jout::qr(double((x - R) / (std::numeric_limits<T>::epsilon() * std::fmax(T(1), std::fabs(R)))), 1));
    }
    return o;
}
int main(int, char **argv) {
    std::ifstream file(argv[1]);
    std::string line;
    while (std::getline(file, line)) {
        in = std::istringstream(line);
        int n;
        in >> n;
        std::vector<int> s[3];
        std::string ev;
        for (int k = 0; k < n; ++k) {
            std::string op, e;
            in >> op;
            e = "{\"op\":\"" + op + "\"";
            if (op == "print" || op == "csv" || op == "display" || op == "std" || op == "tuple" || op == "array" || op == "vector" || op == "small") {
                int m;
                in >> m;
                std::vector<Val> v;
                while (m--) v.push_back(val());
                bool same;
                std::string t = printer(op, v, same);
                e += ",\"v\":" + jvals(v) + ",\"r\":" + text(t) + ",\"same\":" + (same ? "true" : "false");
            } else if (op == "read" || op == "sread" || op == "tie") {
                int m, cut;
                in >> m;
                std::vector<Val> v;
                for (int i = 0; i < m; ++i) v.push_back(val());
                std::string sep;
                in >> sep >> cut;
                std::string t;
                for (int i = 0; i < m - cut; ++i) {
                    for (char c : sep) t += c == '_' ? ' ' : c == 'n' ? '\n' : c == 't' ? '\t' : c;
                    if (v[i].t == 's') t += v[i].s;
                    else if (v[i].t == 'i') t += std::to_string(v[i].v);
                    else {
                        char b[40];
                        std::snprintf(b, sizeof b, "%.2f", v[i].v / 4.0);
                        t += b;
                    }
                }
                Slot x[4];
                for (int i = 0; i < m; ++i) x[i].v = {v[i].t, 77, "old"};
                std::istringstream is(t);
                bool same = true;
                auto *b = std::cin.rdbuf();
                if (op == "sread") {
                    std::cin.clear();
                    std::cin.rdbuf(is.rdbuf());
                }
                auto go = [&](auto &...y) {
                    if (op == "tie") hub::operator>>(is, std::tie(y...));
                    else if (op == "sread") same = &std_input(y...) == &std::cin;
                    else same = &input(is, y...) == &is;
                };
                if (m == 1) go(x[0]);
                else if (m == 2) go(x[0], x[1]);
                else if (m == 3) go(x[0], x[1], x[2]);
                else go(x[0], x[1], x[2], x[3]);
                bool good = op == "sread" ? !std::cin.fail() : !is.fail();
                if (op == "sread") {
                    std::cin.rdbuf(b);
                    std::cin.clear();
                }
                std::vector<Val> r;
                for (int i = 0; i < m; ++i) r.push_back(x[i].v);
                e += ",\"v\":" + jvals(v) + ",\"cut\":" + std::to_string(cut) + ",\"r\":" + jvals(std::vector<Val>(r.begin(), r.end() - cut)) + ",\"good\":" + (good ? "true" : "false") + ",\"same\":" + (same ? "true" : "false");
            } else if (op == "emplace" || op == "push") {
                int i, m, x[3];
                in >> i >> m;
                for (int j = 0; j < m; ++j) in >> x[j];
                auto go = [&](auto... y) {
                    if (op == "emplace") hub::emplace_back(s[i], y...);
                    else hub::push_back(s[i], y...);
                };
                if (m == 1) go(x[0]);
                else if (m == 2) go(x[0], x[1]);
                else go(x[0], x[1], x[2]);
                e += ",\"i\":" + std::to_string(i + 1) + ",\"x\":" + jout::nums(std::vector<int>(x, x + m));
            } else if (op == "resize" || op == "reserve" || op == "clear" || op == "fit") {
                int mask, m;
                in >> mask >> m;
                auto go = [&](auto &...y) {
                    if (op == "resize") hub::resize_all(m, y...);
                    else if (op == "reserve") hub::reserve_all(m, y...);
                    else if (op == "clear") hub::clear_all(y...);
                    else hub::shrink_to_fit_all(y...);
                };
                switch (mask) {
                    case 1: go(s[0]); break;
                    case 2: go(s[1]); break;
                    case 3: go(s[0], s[1]); break;
                    case 4: go(s[2]); break;
                    case 5: go(s[0], s[2]); break;
                    case 6: go(s[1], s[2]); break;
                    default: go(s[0], s[1], s[2]);
                }
                e += ",\"who\":[" + std::string(mask & 1 ? "true" : "false") + (mask & 2 ? ",true" : ",false") + (mask & 4 ? ",true" : ",false") + "],\"n\":" + std::to_string(m) + ",\"cap\":[" + std::to_string(s[0].capacity()) + "," + std::to_string(s[1].capacity()) + "," + std::to_string(s[2].capacity()) + "]";
            } else {
                std::string t;
                in >> t;
                e += ",\"t\":\"" + t + "\"";
                if (t == "f") e += numeric<float>(op);
                else if (t == "l") e += numeric<long double>(op);
                else e += numeric<double>(op);
            }
            e += ",\"s\":[" + jout::nums(s[0]) + "," + jout::nums(s[1]) + "," + jout::nums(s[2]) + "]}";
            ev += (ev.size() ? "," : "") + e;
        }
        std::cout << "{\"ev\":[" << ev << "]}\n";
    }
}

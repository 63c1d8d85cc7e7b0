// Drives llvm::SmallVector as a sequence container. One program per input line:
//   <type> <nops> (op x y i j n val...)*
// and reports the contents of all vectors after every operation.
#include <fstream>
#include <memory>
#include <iostream>
#include <set>
#include <sstream>
#include <vector>
#include "IO.hpp"
#include "small-vector.hpp"
static std::set<void const *> live;
static bool broken = false;
struct Tracked {  // an element that knows where it lives
    int v;
    int *heap;
    void reg() { if (!live.insert(this).second) broken = true; heap = new int(v); }
    void check() const { if (!live.count(this)) broken = true; else if (*heap != v) broken = true; }
    Tracked() : v(0) { reg(); }
    explicit Tracked(int a) : v(a) { reg(); }
    Tracked(int a, int b) : v(a * 10 + b) { reg(); }
    Tracked(Tracked const &o) : v(o.v) { o.check(); reg(); }
    Tracked(Tracked &&o) noexcept : v(o.v) { o.check(); reg(); o.set(-77); }
    void set(int a) { v = a; *heap = a; }
    Tracked &operator=(Tracked const &o) { check(), o.check(); set(o.v); return *this; }
    Tracked &operator=(Tracked &&o) noexcept { check(), o.check(); int a = o.v; if (this != &o) o.set(-77); set(a); return *this; }
    ~Tracked() { if (!live.erase(this)) broken = true; else delete heap; }
};
bool operator==(Tracked const &a, Tracked const &b) { return a.v == b.v; }
bool operator<(Tracked const &a, Tracked const &b) { return a.v < b.v; }
std::ostream &operator<<(std::ostream &o, Tracked const &a) { return o << a.v; }
template <typename T> T make(int v) { return T(v); }
template <typename T> T make2(int a, int b) { if constexpr (std::is_same_v<T, Tracked>) return T(a, b); else return T(a * 10 + b); }
template <typename T> int val(T const &t) { if constexpr (std::is_same_v<T, Tracked>) { t.check(); return t.v; } else return (int)t; }
template <typename T, unsigned N>
void program(std::istream &in) {
    size_t base = live.size();
    std::ostringstream out;
    {
        using V = llvm::SmallVector<T, N>;
        std::vector<std::unique_ptr<V>> v;
        int nops;
        in >> nops;
        for (int k = 0; k < 3; ++k) v.push_back(std::make_unique<V>());
        out << "{\"ev\":[";
        for (int o = 0; o < nops; ++o) {
            std::string op;
            int x, y, i, j, n;
            size_t nv;
            in >> op >> x >> y >> i >> j >> n >> nv;
            std::vector<int> vals(nv);
            for (auto &a : vals) in >> a;
            V &a = *v[x], &b = *v[y];
            std::vector<T> vs;
            vs.reserve(nv);
            for (int q : vals) vs.push_back(make<T>(q));
            long ret = -1;
            std::string str;
            if (op == "push") a.push_back(vs[0]);
            else if (op == "pushm") a.push_back(make<T>(vals[0]));
            else if (op == "emplace") { if constexpr (std::is_same_v<T, Tracked>) a.emplace_back(vals[0], vals[1]); else a.emplace_back(make2<T>(vals[0], vals[1])); }
            else if (op == "pop") a.pop_back();
            else if (op == "popval") { T t = a.pop_back_val(); ret = val(t); }
            else if (op == "clear") a.clear();
            else if (op == "resize") a.resize(n);
            else if (op == "resizev") a.resize(n, vs[0]);
            else if (op == "reserve") { a.reserve(n); ret = a.capacity() >= (size_t)n; }
            else if (op == "append") a.append(vs.begin(), vs.end());
            else if (op == "appendn") a.append(n, vs[0]);
            else if (op == "appendil") a.append({make<T>(vals[0]), make<T>(vals[1])});
            else if (op == "appendv") a.append(b.begin(), b.end());
            else if (op == "assignn") a.assign(n, vs[0]);
            else if (op == "assign") a.assign(vs.begin(), vs.end());
            else if (op == "assignil") a.assign({make<T>(vals[0]), make<T>(vals[1])});
            else if (op == "eqil") a = {make<T>(vals[0]), make<T>(vals[1]), make<T>(vals[2])};
            else if (op == "erase") ret = a.erase(a.begin() + i) - a.begin();
            else if (op == "eraser") ret = a.erase(a.begin() + i, a.begin() + j) - a.begin();
            else if (op == "insert") ret = a.insert(a.begin() + i, vs[0]) - a.begin();
            else if (op == "insertm") ret = a.insert(a.begin() + i, make<T>(vals[0])) - a.begin();
            else if (op == "insertn") ret = a.insert(a.begin() + i, (size_t)n, vs[0]) - a.begin();
            else if (op == "insertr") ret = a.insert(a.begin() + i, vs.begin(), vs.end()) - a.begin();
            else if (op == "insertil") a.insert(a.begin() + i, {make<T>(vals[0]), make<T>(vals[1])});
            else if (op == "swap") a.swap(b);
            else if (op == "stdswap") std::swap(a, b);
            else if (op == "copy") a = b;
            else if (op == "move") a = std::move(b);
            else if (op == "ccopy") v[x] = std::make_unique<V>(b);
            else if (op == "cmove") v[x] = std::make_unique<V>(std::move(b));
            else if (op == "cn") v[x] = std::make_unique<V>((size_t)n, vs[0]);
            else if (op == "cn0") v[x] = std::make_unique<V>((size_t)n);
            else if (op == "cr") v[x] = std::make_unique<V>(vs.begin(), vs.end());
            else if (op == "cil") v[x].reset(new V{make<T>(vals[0]), make<T>(vals[1])});
            else if (op == "set") a[i] = vs[0];
            else if (op == "front") { ret = val(a.front()); }
            else if (op == "back") { ret = val(a.back()); }
            else if (op == "eq") ret = (a == b) + 2 * (a != b);
            else if (op == "lt") ret = a < b;
            else if (op == "rev") { for (auto it = a.rbegin(); it != a.rend(); ++it) str += std::to_string(val(*it)) + " "; }
            else if (op == "print") { std::ostringstream s; using hub::operator<<; s << a; str = s.str(); }
            else { std::cerr << "unknown op " << op << "\n"; std::exit(3); }
            out << (o ? "," : "") << "{\"op\":\"" << op << "\",\"x\":" << x + 1 << ",\"y\":" << y + 1 << ",\"i\":" << i << ",\"j\":" << j << ",\"n\":" << n << ",\"ret\":" << ret << ",\"vals\":[";
            for (size_t q = 0; q < nv; ++q) out << (q ? "," : "") << vals[q];
            std::istringstream ss(str);
            int w;
            out << "],\"seq\":[";
            for (bool f = true; ss >> w; f = false) out << (f ? "" : ",") << w;
            bool ok = true;
            size_t total = 0;
            out << "],\"st\":[";
            for (int q = 0; q < 3; ++q) {
                V const &c = *v[q];
                ok = ok && c.size() <= c.capacity() && c.empty() == (c.size() == 0) && c.end() == c.begin() + c.size() && c.data() == c.begin();
                total += c.size();
                out << (q ? ",[" : "[");
                for (size_t z = 0; z < c.size(); ++z) out << (z ? "," : "") << val(c[z]);
                out << "]";
            }
            vs.clear();
            if (std::is_same_v<T, Tracked> && live.size() - base != total) ok = false;
            out << "],\"ok\":" << (ok && !broken) << "}";
        }
    }
    out << "],\"left\":" << (live.size() - base) << "}";
    std::cout << out.str() << "\n";
}
int main(int, char **argv) {
    std::ifstream in(argv[1]);
    std::string t;
    while (in >> t) {
        if (t == "i4") program<int, 4>(in);
        if (t == "d16") program<double, 16>(in);
        if (t == "t3") program<Tracked, 3>(in);
        if (t == "t1") program<Tracked, 1>(in);
    }
}

// Shared files and asynchronous pipes under enumerated schedules. One scenario per input line:
//   <kind> <threads> <records per thread> <variant> <max dfs> <max random> <bound> <seed>
#include "vfsched.hpp"
#include <new>
// fresh memory is not zero: flags that are read before they are initialised show
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); memset(p, 0x5b, n); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
#include "multi-thread/multi-thread.hpp"
#include "multi-thread/ciostream.hpp"
using namespace hub::multi_thread;
static std::string num(char const *k, long v) { return std::string(",\"") + k + "\":" + std::to_string(v); }
static void ev(std::string const &e, long v = -1, long ok = 1) { vf::log("{\"e\":\"" + e + "\"" + num("v", v) + num("ok", ok) + num("t", vf::self->id) + ",\"s\":[]}"); }
struct Rec {  // written and read in two pieces
    int v = -5;
    Rec() = default;
    explicit Rec(int a) : v(a) {}
};
std::ostream &operator<<(std::ostream &o, Rec const &r) { o << r.v; vf::yield(); o << ' ' << r.v + 1000 << '\n'; return o; }
std::istream &operator>>(std::istream &i, Rec &r) {
    int a = -7, b = -7;
    i >> a;
    vf::yield();
    i >> b;
    if (i) r.v = b == a + 1000 ? a : -9;
    return i;
}
static void content(char const *f) {  // pairs v, v+1000; anything else is -9
    std::ifstream in(f);
    std::string s;
    long a, b;
    while (in >> a) { if (!(in >> b)) b = -1; s += (s.empty() ? "" : ",") + std::to_string(b == a + 1000 ? a : -9); }
    vf::log("{\"e\":\"content\",\"v\":-1,\"ok\":1,\"t\":0,\"s\":[" + s + "]}");
}
static void fill(char const *f, int m, int tail) {
    std::ofstream o(f);
    for (int i = 0; i < m; ++i) { o << i << ' ' << i + 1000; if (i + 1 < m || tail) o << '\n'; }
    if (tail > 1) o << "  \n\n";
}
int main(int, char **argv) {
    std::ifstream in(argv[1]);
    std::string k;
    int id = 0;
    while (in >> k) {
        long T, K, var, md, mr, bd, sd;
        in >> T >> K >> var >> md >> mr >> bd >> sd;
        std::string head = "\"kind\":\"" + k + "\",\"T\":" + std::to_string(T) + ",\"K\":" + std::to_string(K) + ",\"var\":" + std::to_string(var);
        char name[64];
        snprintf(name, sizeof name, "f%d.txt", id++);
        vf::explore(head, [&] {
            if (k == "write") {  // ConcurrentFile, T writers of K records
                std::remove(name);
                {
                    auto file = make_thread_safe_fstream(name, std::ios::out);
                    std::vector<std::thread> th;
                    for (int t = 0; t < T; ++t)
                        th.emplace_back([&, t, mine = file]() mutable {
                            for (int r = 0; r < K; ++r) {
                                Rec x(t * 10 + r);
                                ev("wb", x.v);
                                if (var == 0) file << x;
                                else if (var == 1) mine << x;
                                else if (var == 2 || t % 2) { long q = mine.execute([](std::fstream &f, Rec const &y) { f << y; return (long)y.v; }, x); if (q != x.v) ev("wrong"); }
                                else { file << x; file.flush(); }
                                ev("we", x.v);
                            }
                        });
                    for (auto &t : th) t.join();
                    if (file.eof()) ev("wrong");
                }
                content(name);
            } else if (k == "read") {  // T readers share a file of K records
                fill(name, K, var);
                ev("file", K);
                ConcurrentFile file(std::string(name), std::ios::in);
                std::vector<std::thread> th;
                for (int t = 0; t < T; ++t)
                    th.emplace_back([&] {
                        for (int g = 0; g < 1000; ++g) {
                            Rec x;
                            ev("rb");
                            bool ok = file >> x;
                            ev("re", ok ? x.v : -1, ok);
                            if (!ok) break;
                        }
                    });
                for (auto &t : th) t.join();
                ev(file.eof() ? "end" : "wrong");
            } else if (k == "out") {  // asynchronous output, T producers
                std::remove(name);
                {
                    std::string fn(name);
                    Costream<Rec> pip = var == 1 ? Costream<Rec>(fn) : Costream<Rec>(name);
                    Costream<Rec> moved = std::move(pip);
                    std::vector<std::thread> th;
                    auto work = [&](int t) {
                        for (int r = 0; r < K; ++r) {
                            Rec x(t * 10 + r);
                            ev("wb", x.v);
                            moved << x;
                            ev("we", x.v);
                        }
                    };
                    for (int t = 1; t < T; ++t) th.emplace_back(work, t);
                    work(0);
                    for (auto &t : th) t.join();
                }
                content(name);
            } else if (k == "pipe") {  // the output pipe itself
                std::remove(name);
                {
                    Opip<Rec> *p = new Opip<Rec>(name);
                    for (int r = 0; r < K; ++r) { ev("wb", r); *p << Rec(r); ev("we", r); }
                    delete p;
                }
                content(name);
            } else if (k == "in") {  // asynchronous input, T consumers until the end
                fill(name, K, var);
                ev("file", K);
                {
                    auto p = std::make_unique<Ipip<Rec>>(name);
                    std::vector<std::thread> th;
                    auto work = [&] {
                        for (int g = 0; g < 1000; ++g) {
                            Rec x;
                            ev("rb");
                            bool ok = *p >> std::move(x);
                            ev("re", ok ? x.v : -1, ok);
                            if (!ok) break;
                        }
                    };
                    for (int t = 1; t < T; ++t) th.emplace_back(work);
                    work();
                    for (auto &t : th) t.join();
                }
                ev("end");
            } else if (k == "stop") {  // dropped before the end
                fill(name, K, 1);
                ev("file", K);
                {
                    Cistream<Rec> p(name);
                    for (int r = 0; r < var; ++r) { Rec x; ev("rb"); p >> std::move(x); ev("re", x.v); }
                }
                ev("left");
            }
            ev("ret");
        }, md, mr, bd, sd);
    }
}

// Parallel loops of the library under enumerated schedules. One scenario per input line:
//   loop <total> <threads> <lvalue>   |  each <threads> <lvalue> <indexed> <auto>
//   and common: <max dfs> <max random> <bound> <seed>
#include "vfsched.hpp"
#include "multi-thread/multi-thread.hpp"
using namespace hub::multi_thread;
static std::string num(char const *k, long v) { return std::string(",\"") + k + "\":" + std::to_string(v); }
static void ev(std::string const &e, std::string const &rest = "") { vf::log("{\"e\":\"" + e + "\"" + rest + "}"); }
static int sum(std::vector<int> const &v) { int s = 0; for (int x : v) s = s * 10 + x; return s; }
static int yields = 1;
int main(int, char **argv) {
    std::ifstream in(argv[1]);
    std::string k;
    while (in >> k) {
        long total = 0, n, lv, ix = 0, au = 0, md, mr, bd, sd;
        if (k == "loop") in >> total >> n >> lv;
        else in >> n >> lv >> ix >> au;
        in >> md >> mr >> bd >> sd >> yields;
        std::string head = "\"kind\":\"" + k + "\",\"total\":" + std::to_string(total) + ",\"n\":" + std::to_string(au ? 2 : n) + ",\"ix\":" + std::to_string(ix);
        vf::explore(head, [&] {
            if (k == "loop") {
                std::vector<int> mark{4, 2};
                auto job = [mark](size_t b, size_t f) {
                    ev("in", num("b", b) + num("f", f) + num("cap", sum(mark)) + num("a", 0) + num("i", -1));
                    for (int q = 0; q < yields; ++q) vf::yield();
                    ev("out", num("b", b) + num("f", f) + num("cap", 0) + num("a", 0) + num("i", -1));
                };
                if (lv) multi_threads_loop(total, n, job);
                else multi_threads_loop(total, n, [mark](size_t b, size_t f) {
                    ev("in", num("b", b) + num("f", f) + num("cap", sum(mark)) + num("a", 0) + num("i", -1));
                    for (int q = 0; q < yields; ++q) vf::yield();
                    ev("out", num("b", b) + num("f", f) + num("cap", 0) + num("a", 0) + num("i", -1));
                });
            } else {
                std::vector<int> mark{4, 2}, a{7, 5};
                std::string s{"a string too long for the small buffer"};
                auto body = [](long i, std::vector<int> const &mark, std::vector<int> const &a, std::string const &s) {
                    ev("in", num("b", 0) + num("f", 0) + num("cap", sum(mark)) + num("a", sum(a) * 100 + (long)s.size()) + num("i", i));
                    for (int q = 0; q < yields; ++q) vf::yield();
                    ev("out", num("b", 0) + num("f", 0) + num("cap", 0) + num("a", 0) + num("i", i));
                };
                if (ix) {
                    auto job = [mark, body](size_t i, std::vector<int> a, std::string s) { body(i, mark, a, s); };
                    if (au) { if (lv) auto_indexed_multi_thread(job, a, s); else auto_indexed_multi_thread([mark, body](size_t i, std::vector<int> a, std::string s) { body(i, mark, a, s); }, std::vector<int>{7, 5}, std::string{s}); }
                    else if (lv) indexed_multi_thread(n, job, a, s);
                    else indexed_multi_thread(n, [mark, body](size_t i, std::vector<int> a, std::string s) { body(i, mark, a, s); }, std::vector<int>{7, 5}, std::string{s});
                } else {
                    auto job = [mark, body](std::vector<int> a, std::string s) { body(-1, mark, a, s); };
                    if (au) { if (lv) auto_multi_thread(job, a, s); else auto_multi_thread([mark, body](std::vector<int> a, std::string s) { body(-1, mark, a, s); }, std::vector<int>{7, 5}, std::string{s}); }
                    else if (lv) multi_thread(n, job, a, s);
                    else multi_thread(n, [mark, body](std::vector<int> a, std::string s) { body(-1, mark, a, s); }, std::vector<int>{7, 5}, std::string{s});
                }
            }
            ev("ret", num("b", 0) + num("f", 0) + num("cap", 0) + num("a", 0) + num("i", -1));
        }, md, mr, bd, sd);
    }
}

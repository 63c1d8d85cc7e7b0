// The thread pool and the concurrent deque under enumerated schedules. One scenario per line:
//   pool <committers> <tasks each> <wait: 0 none, 1 all> <kind> <max dfs> <max random> <bound> <seed>
//   full <extra> ...            the queue filled to its limit while the workers are held
//   deque <scenario number> <..> the operations of each thread as in the table below
#include "vfsched.hpp"
#include "multi-thread/concurrent-queue.h"
#include "multi-thread/thread_pool.h"
using namespace hub::multi_thread;
static std::string num(char const *k, long v) { return std::string(",\"") + k + "\":" + std::to_string(v); }
static void ev(std::string const &e, long k, long v = 0) { vf::log("{\"e\":\"" + e + "\"" + num("k", k) + num("v", v) + num("t", vf::self ? vf::self->id : -1) + ",\"op\":\"\"}"); }
static void inv(std::string const &op, long v) { vf::log("{\"e\":\"inv\"" + num("k", 0) + num("v", v) + num("t", vf::self->id) + ",\"op\":\"" + op + "\"}"); }
static void res(long ok, long v) { vf::log("{\"e\":\"res\"" + num("k", ok) + num("v", v) + num("t", vf::self->id) + ",\"op\":\"\"}"); }
static void end_of_program() {
    ev("end", 0);
    vf::finish(0);
}
static int task(int k, std::vector<int> v) {
    ev("in", k);
    vf::yield();
    ev("out", k);
    return k * 10 + v.at(0) * 0 + (int)v.size();
}
template <typename F>
static bool await(F &f) {
    vf::wait_until([&] { return f.wait_for(std::chrono::seconds(0)) == std::future_status::ready; });
    return true;
}
template <typename F>
static void get(int k, F &f) {
    await(f);
    try {
        ev("got", k, f.get());
    } catch (std::logic_error const &) {
        ev("got", k, -100);
    }
}
static bool commit(ThreadPool &p, int k, int kind, std::vector<std::pair<int, std::future<int>>> &out) {
    ev("cb", k);
    try {
        std::future<int> f;
        if (kind == 0) f = p.commit(task, k, std::vector<int>{1, 2, 3});
        else if (kind == 1) { std::vector<int> big{1, 2, 3}; f = p.commit([big](int q) { return task(q, big); }, k); }
        else f = p.commit([k]() -> int { task(k, {1}); if (k % 2) throw std::logic_error("x"); return k * 10 + 3; });
        ev("ce", k, 1);
        out.emplace_back(k, std::move(f));
        return true;
    } catch (std::runtime_error const &) {
        ev("ce", k, 0);
        return false;
    }
}
int main(int, char **argv) {
    std::ifstream in(argv[1]);
    std::string k;
    while (in >> k) {
        long a, b, w, kind, md, mr, bd, sd;
        in >> a >> b >> w >> kind >> md >> mr >> bd >> sd;
        std::string head = "\"kind\":\"" + k + "\",\"W\":2,\"a\":" + std::to_string(a) + ",\"b\":" + std::to_string(b) + ",\"exc\":" + std::to_string(kind == 2);
        vf::explore(head, [&] {
            if (k == "pool") {
                std::atexit(end_of_program);
                auto &p = ThreadPool::get_instance();
                std::vector<std::vector<std::pair<int, std::future<int>>>> fs(a);
                auto work = [&](int c) {
                    for (int i = 0; i < b; ++i) commit(p, c * 10 + i, kind, fs[c]);
                    if (w) for (auto &[q, f] : fs[c]) get(q, f);
                };
                std::vector<std::thread> th;
                for (int c = 1; c < a; ++c) th.emplace_back(work, c);
                work(0);
                for (auto &t : th) t.join();
                ev("quit", 0);
                std::exit(0);
            } else if (k == "full") {
                std::atexit(end_of_program);
                auto &p = ThreadPool::get_instance();
                bool open = false;
                int held = 0;
                std::vector<std::future<void>> hs;
                for (int i = 0; i < 2; ++i) hs.push_back(p.commit([&] { ++held; vf::wait_until([&] { return open; }); }));
                vf::wait_until([&] { return held == 2; });
                std::vector<std::pair<int, std::future<int>>> fs;
                int ok = 0, refused = 0;
                for (int i = 0; i < 1000 + a; ++i) {
                    try {
                        fs.emplace_back(i, p.commit([i] { return i + 1; }));
                        if (refused) ev("wrong", i);  // nothing left the queue, it cannot accept again
                        ++ok;
                    } catch (std::runtime_error const &) { ++refused; }
                }
                ev("limit", ok, refused);
                open = true;
                long bad = 0;
                for (auto &[i, f] : fs) { await(f); if (f.get() != i + 1) ++bad; }
                for (auto &h : hs) await(h);
                ev("again", bad);
                std::vector<std::pair<int, std::future<int>>> one;
                commit(p, 1, 0, one);
                for (auto &[q, f] : one) get(q, f);
                ev("quit", 0);
                std::exit(0);
#ifdef DEQUE
            } else {
                // scripts: b/f push back/front, B/F pop back/front, e empty, s stop; one string per thread
                static char const *const scripts[][3] = {
                    {"bb", "FF", ""}, {"bf", "F", "B"}, {"b", "F", "s"}, {"bs", "FF", ""}, {"s", "F", "B"}, {"ebe", "Fe", ""}, {"b", "f", "FF"}, {"bbs", "F", "B"}, {"bf", "bB", "F"}, {"bbb", "BF", "F"}};
                ConcurrentDeque<int> d;
                std::vector<std::thread> th;
                auto work = [&](char const *s, int t) {
                    for (int i = 0; s[i]; ++i) {
                        int v = t * 10 + i, x = -1;
                        switch (s[i]) {
                            case 'b': inv("pushb", v), d.emplace_back(v), res(1, 0); break;
                            case 'f': inv("pushf", v), d.emplace_front(v), res(1, 0); break;
                            case 'F': { inv("popf", 0); bool ok = d.try_pop_front(x); res(ok, ok ? x : -1); break; }
                            case 'B': { inv("popb", 0); bool ok = d.try_pop_back(x); res(ok, ok ? x : -1); break; }
                            case 'e': { inv("empty", 0); bool ok = d.empty(); res(ok, 0); break; }
                            case 's': inv("stop", 0), d.stop(), res(1, 0); break;
                        }
                    }
                };
                for (int t = 0; t < 3; ++t) th.emplace_back(work, scripts[a][t], t + 1);
                for (auto &t : th) t.join();
                ev("end", 0);
#endif
            }
        }, md, mr, bd, sd);
    }
}

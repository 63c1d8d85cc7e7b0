// A deterministic scheduler under the standard threading primitives. Including this header before
// the code under test replaces std::thread, std::mutex, std::condition_variable, std::atomic_bool,
// std::queue and std::deque (by macro) with versions that run one thread at a time and hand control
// over only at synchronisation points; explore() then enumerates or samples the schedules, each in a
// forked child, and prints the distinct event logs. Nothing below depends on how the code is written,
// only on which primitives it uses; code that uses others simply runs without hand-over points there.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vf {
    struct Shared {  // parent and child
        uint32_t nchoice, nprefix, loglen, preempt, status;
        uint8_t prefix[20000], opts[20000], taken[20000], pre[20000];
        char log[1 << 16];
    };
    inline Shared *sh = nullptr;
    inline uint64_t rnd_state = 0;  // 0: follow the prefix, then the first option
    inline uint32_t preempt_bound = 3;
    struct Task {
        int id;
        std::function<bool()> ready;  // empty: runnable
        bool done = false, go = false;
        std::condition_variable cv;
        std::thread th;
    };
    inline std::mutex big;
    inline std::vector<std::unique_ptr<Task>> tasks;
    inline thread_local Task *self = nullptr;
    inline uint32_t steps = 0;
    inline bool active = false;
    inline void log(std::string const &s) {
        if (sh->loglen + s.size() + 2 > sizeof(sh->log)) return;
        if (sh->loglen) sh->log[sh->loglen++] = ',';
        memcpy(sh->log + sh->loglen, s.data(), s.size());
        sh->loglen += s.size();
    }
    [[noreturn]] inline void finish(int status) {
        sh->status = status;
        fflush(nullptr);
        _exit(0);
    }
    // choose among n options; opts[i] true when taking it is a preemption
    inline uint32_t choose(uint32_t n, bool preempting) {
        if (n <= 1) return 0;
        uint32_t i = sh->nchoice++;
        if (i >= sizeof(sh->opts)) { log("{\"e\":\"toolong\"}"); finish(1); }
        uint32_t c = 0;
        if (rnd_state) {
            rnd_state = rnd_state * 6364136223846793005ull + 1442695040888963407ull;
            uint32_t r = (uint32_t)(rnd_state >> 33);
            c = preempting && (r & 3) ? 0 : (r >> 2) % n;
        } else if (i < sh->nprefix)
            c = sh->prefix[i];
        if (preempting && c) sh->preempt++;
        sh->opts[i] = n, sh->taken[i] = c, sh->pre[i] = preempting;
        return c;
    }
    // hand over; called by the running task with its own readiness set
    inline void point() {
        if (!active || !self) return;
        if (++steps > 15000) { log("{\"e\":\"livelock\"}"); finish(1); }
        std::unique_lock<std::mutex> l(big);
        Task *me = self;
        std::vector<Task *> can;
        bool mine = !me->done && (!me->ready || me->ready());
        if (mine) can.push_back(me);
        for (auto &t : tasks)
            if (t.get() != me && !t->done && (!t->ready || t->ready())) can.push_back(t.get());
        if (can.empty()) {
            bool all = true;
            for (auto &t : tasks) all = all && t->done;
            if (!all) { log("{\"e\":\"deadlock\"}"); finish(1); }
            return;
        }
        // once the preemptions are used up the running task goes on while it can
        uint32_t n = can.size();
        if (mine && !rnd_state && sh->preempt >= preempt_bound) n = 1;
        Task *nx = can[choose(n, mine)];
        if (nx == me) { me->ready = nullptr; return; }
        nx->go = true;
        nx->cv.notify_one();
        if (me->done) return;
        me->cv.wait(l, [&] { return me->go; });
        me->go = false;
        me->ready = nullptr;
    }
    inline void wait_until(std::function<bool()> f) {
        if (!active) return;
        self->ready = std::move(f);
        point();
    }
    inline void yield() { point(); }
    inline Task *spawn(std::function<void()> f) {
        auto t = std::make_unique<Task>();
        Task *p = t.get();
        {
            std::lock_guard<std::mutex> l(big);
            p->id = (int)tasks.size();
            tasks.push_back(std::move(t));
        }
        p->th = std::thread([p, f = std::move(f)]() mutable {
            {
                std::unique_lock<std::mutex> l(big);
                p->cv.wait(l, [&] { return p->go; });
                p->go = false;
                p->ready = nullptr;
            }
            self = p;
            {
                auto g = std::move(f);
                f = nullptr;
                g();
            }  // what the thread owned is gone before it counts as finished
            p->done = true;
            point();
        });
        p->th.detach();
        point();
        return p;
    }
    // overlapping accesses to one container, at least one of them writing
    struct Guarded {
        mutable int readers = 0, writers = 0;
        struct R { Guarded const *g; ~R() { g->readers--; } };
        struct W { Guarded const *g; ~W() { g->writers--; } };
        Guarded() = default;
        Guarded(Guarded const &) {}
        Guarded &operator=(Guarded const &) { return *this; }
        R read() const { if (writers) log("{\"e\":\"race\"}"); readers++; point(); return R{this}; }
        W write() const { if (writers || readers) log("{\"e\":\"race\"}"); writers++; point(); return W{this}; }
    };
}  // namespace vf

namespace std {
    class vf_mutex {
       public:
        vf_mutex() = default;
        vf_mutex(vf_mutex const &) = delete;
        void lock() {
            vf::point();
            if (vf::active) {
                while (held_) vf::wait_until([this] { return !held_; });
                held_ = true, owner_ = vf::self;
            }
        }
        bool try_lock() { vf::point(); if (held_) return false; held_ = true, owner_ = vf::self; return true; }
        void unlock() {
            if (vf::active && (!held_ || owner_ != vf::self)) vf::log("{\"e\":\"badunlock\"}");
            held_ = false;
            vf::point();
        }
        bool held_ = false;
        vf::Task *owner_ = nullptr;
    };
    class vf_condition_variable {
        struct W { bool hit = false; };
        std::list<W *> ws_;
       public:
        void notify_one() noexcept {
            vf::point();
            if (ws_.empty()) return;
            uint32_t k = vf::choose((uint32_t)ws_.size(), false);
            auto it = ws_.begin();
            std::advance(it, k);
            (*it)->hit = true;
            ws_.erase(it);
        }
        void notify_all() noexcept {
            vf::point();
            for (auto *w : ws_) w->hit = true;
            ws_.clear();
        }
        template <typename L>
        void wait(L &l) {
            if (!vf::active) return;
            W w;
            ws_.push_back(&w);
            if (!l.mutex()->held_ || l.mutex()->owner_ != vf::self) vf::log("{\"e\":\"badwait\"}");
            l.mutex()->held_ = false;
            vf::wait_until([&] { return w.hit; });
            l.mutex()->lock();
        }
        template <typename L, typename P>
        void wait(L &l, P p) { while (!p()) wait(l); }
        template <typename L, typename D>
        std::cv_status wait_for(L &l, D const &) {
            l.unlock(), l.lock();
            return std::cv_status::timeout;
        }
        template <typename L, typename D, typename P>
        bool wait_for(L &l, D const &, P p) { for (int i = 0; i < 50 && !p(); ++i) l.unlock(), l.lock(); return p(); }
        template <typename L, typename D, typename P>
        bool wait_until(L &l, D const &d, P p) { return wait_for(l, d, p); }
    };
    using vf_condition_variable_any = vf_condition_variable;
    class vf_thread {
       public:
        using id = int;
        vf_thread() noexcept = default;
        template <typename F, typename... A, typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, vf_thread>>>
        explicit vf_thread(F &&f, A &&...a) {
            auto tup = std::make_shared<std::tuple<std::decay_t<F>, std::decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
            t_ = vf::spawn([tup] { std::apply([](auto &g, auto &...x) { std::invoke(std::move(g), std::move(x)...); }, *tup); });
        }
        vf_thread(vf_thread &&o) noexcept : t_(o.t_) { o.t_ = nullptr; }
        vf_thread &operator=(vf_thread &&o) noexcept { if (t_) std::terminate(); t_ = o.t_; o.t_ = nullptr; return *this; }
        ~vf_thread() { if (t_) std::terminate(); }
        bool joinable() const noexcept { return t_ != nullptr; }
        void join() {
            vf::Task *t = t_;
            while (!t->done) vf::wait_until([t] { return t->done; });
            t_ = nullptr;
        }
        void detach() { t_ = nullptr; }
        static unsigned hardware_concurrency() noexcept { return 2; }
        int get_id() const { return t_ ? t_->id : -1; }
       private:
        vf::Task *t_ = nullptr;
    };
    class vf_atomic_bool {
       public:
        vf_atomic_bool() = default;
        vf_atomic_bool(bool b) : b_(b) {}
        operator bool() const { vf::point(); return b_; }
        bool operator=(bool b) { vf::point(); return b_ = b; }
        bool load(std::memory_order = std::memory_order_seq_cst) const { vf::point(); return b_; }
        void store(bool b, std::memory_order = std::memory_order_seq_cst) { vf::point(); b_ = b; }
        bool exchange(bool b, std::memory_order = std::memory_order_seq_cst) { vf::point(); return std::exchange(b_, b); }
       private:
        bool b_ = false;
    };
    template <typename T, typename C = std::deque<T>>
    class vf_queue : vf::Guarded {
        C c_;
       public:
        using value_type = T;
        template <typename... A> decltype(auto) emplace(A &&...a) { auto g = write(); c_.emplace_back(std::forward<A>(a)...); return (c_.back()); }
        void push(T v) { auto g = write(); c_.push_back(std::move(v)); }
        void pop() { auto g = write(); if (c_.empty()) vf::log("{\"e\":\"underflow\"}"), vf::finish(1); c_.pop_front(); }
        T &front() { auto g = read(); if (c_.empty()) vf::log("{\"e\":\"underflow\"}"), vf::finish(1); return c_.front(); }
        T &back() { auto g = read(); return c_.back(); }
        bool empty() const { auto g = read(); return c_.empty(); }
        size_t size() const { auto g = read(); return c_.size(); }
    };
    template <typename T>
    class vf_deque : vf::Guarded {
        std::deque<T> c_;
       public:
        using value_type = T;
        void under() { if (c_.empty()) vf::log("{\"e\":\"underflow\"}"), vf::finish(1); }
        template <typename... A> decltype(auto) emplace_back(A &&...a) { auto g = write(); c_.emplace_back(std::forward<A>(a)...); return (c_.back()); }
        template <typename... A> decltype(auto) emplace_front(A &&...a) { auto g = write(); c_.emplace_front(std::forward<A>(a)...); return (c_.front()); }
        void push_back(T v) { auto g = write(); c_.push_back(std::move(v)); }
        void push_front(T v) { auto g = write(); c_.push_front(std::move(v)); }
        void pop_front() { auto g = write(); under(); c_.pop_front(); }
        void pop_back() { auto g = write(); under(); c_.pop_back(); }
        T &front() { auto g = read(); under(); return c_.front(); }
        T &back() { auto g = read(); under(); return c_.back(); }
        bool empty() const { auto g = read(); return c_.empty(); }
        size_t size() const { auto g = read(); return c_.size(); }
        void clear() { auto g = write(); c_.clear(); }
    };
}  // namespace std

namespace vf {
    // Runs body under many schedules; prints each distinct log once as {"sc":..., "ev":[...]}.
    inline uint64_t explored = 0, distinct = 0;
    inline void one(std::function<void()> const &body) {
        sh->nchoice = sh->loglen = sh->preempt = 0;
        sh->status = 99;
        pid_t p = fork();
        if (p == 0) {
            std::ios::sync_with_stdio(true);
            auto t = std::make_unique<Task>();
            t->id = 0;
            self = t.get();
            tasks.push_back(std::move(t));
            steps = 0;
            active = true;
            alarm(20);
            body();
            for (auto &x : tasks)
                if (!x->done && x.get() != self) { Task *y = x.get(); while (!y->done) wait_until([y] { return y->done; }); }
            finish(0);
        }
        int st;
        waitpid(p, &st, 0);
        ++explored;
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || sh->status == 99) log("{\"e\":\"crash\"}");
    }
    inline void explore(std::string const &head, std::function<void()> const &body, uint64_t max_dfs, uint64_t max_rnd, uint32_t bound, uint64_t seed) {
        if (!sh) sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        std::set<std::string> seen;
        auto report = [&] {
            std::string s(sh->log, sh->loglen);
            if (seen.insert(s).second) {
                ++distinct;
                std::cout << "{" << head << ",\"ev\":[" << s << "]}\n" << std::flush;
            }
        };
        rnd_state = 0;
        preempt_bound = bound;
        sh->nprefix = 0;
        bool complete = false;
        for (uint64_t k = 0; k < max_dfs; ++k) {
            one(body);
            report();
            // next schedule: the last choice that can still be advanced
            int64_t i = (int64_t)sh->nchoice - 1;
            for (; i >= 0; --i)
                if (sh->taken[i] + 1 < sh->opts[i]) break;
            if (i < 0) { complete = true; break; }
            memcpy(sh->prefix, sh->taken, i);
            sh->prefix[i] = sh->taken[i] + 1;
            sh->nprefix = i + 1;
        }
        if (!complete)
            for (uint64_t k = 0; k < max_rnd; ++k) {
                sh->nprefix = 0;
                rnd_state = (seed * 1000003 + k) * 2654435761ull + 12345;
                one(body);
                report();
                rnd_state = 0;
            }
        std::cout << "#" << head << " complete=" << complete << " explored=" << explored << " distinct=" << distinct << "\n" << std::flush;
    }
}  // namespace vf
#define mutex vf_mutex
#define condition_variable vf_condition_variable
#define condition_variable_any vf_condition_variable_any
#define thread vf_thread
#define atomic_bool vf_atomic_bool
#define queue vf_queue
#define deque vf_deque

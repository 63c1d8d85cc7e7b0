// Timers under a clock of our own. Script line: <unit in ns> <number of ops> { op timer amount }
#include <time.h>
#include <sys/time.h>
static long long mono = 0, wall = 0;   // nanoseconds
extern "C" int clock_gettime(clockid_t id, struct timespec *t) {
    long long n = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? wall : mono;
    t->tv_sec = n / 1000000000, t->tv_nsec = n % 1000000000;
    return 0;
}
extern "C" time_t time(time_t *t) { time_t s = wall / 1000000000; if (t) *t = s; return s; }
extern "C" int gettimeofday(struct timeval *t, void *) { t->tv_sec = wall / 1000000000, t->tv_usec = wall % 1000000000 / 1000; return 0; }
extern "C" clock_t clock() { return 0; }   // the process uses no time of its own
#include <fstream>
#include <iostream>
#include <sstream>
#include "jout.hpp"
#include "tools/timer.hpp"
int main(int, char **argv) {
    std::ifstream f(argv[1]);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream in(line);
        long long unit, up, n;
        in >> unit >> up >> n;
        mono = up * 1000000007, wall = 1700000000000000000LL + up;
        hub::tools::Timer t[2];
        std::cout << "{\"ev\":[";
        for (int i = 0; i < n; ++i) {
            std::string op;
            long k, x;
            in >> op >> k >> x;
            long v = -1;
            if (op == "start") t[k].start();
            else if (op == "pause") t[k].pause();
            else if (op == "reset") t[k].reset();
            else if (op == "get") v = jout::qr(t[k].get_time() * (1e9 / unit));
            else if (op == "copy") t[k] = t[1 - k];
            else if (op == "pass") mono += x * unit, wall += x * unit;
            else if (op == "jump") wall += x * unit;
            else abort();
            std::cout << (i ? "," : "") << "{\"op\":\"" << op << "\",\"k\":" << k + 1 << ",\"x\":" << x << ",\"v\":" << v << "}";
        }
        std::cout << "]}\n";
    }
}

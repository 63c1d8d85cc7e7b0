// File names made from the time of day, under a clock of our own. Script line: <start> <n> { op text number }; every line is a fresh program.
#include <time.h>
#include <sys/time.h>
static long long now = 0;   // seconds
extern "C" time_t time(time_t *t) { if (t) *t = now; return now; }
extern "C" int clock_gettime(clockid_t, struct timespec *t) { t->tv_sec = now, t->tv_nsec = 999999999; return 0; }
extern "C" int gettimeofday(struct timeval *t, void *) { t->tv_sec = now, t->tv_usec = 999999; return 0; }
#include <stdlib.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include "tools/auto-name.hpp"
int main(int, char **argv) {
    setenv("TZ", "XXX-3", 1);
    tzset();
    std::ifstream f(argv[1]);
    std::string line;
    while (std::getline(f, line)) {
        pid_t p = fork();
        if (p) {
            int st = 0;
            waitpid(p, &st, 0);
            if (st) return 3;
            continue;
        }
        std::istringstream in(line);
        long long n;
        in >> now >> n;
        std::ostringstream o;
        o << "{\"now\":" << now << ",\"ev\":[";
        for (int i = 0; i < n; ++i) {
            std::string op, txt, r;
            long x;
            in >> op >> txt >> x;
            if (txt == "-") txt = "";
            if (op == "pass") now += x;
            else if (op == "auto") r = x ? hub::tools::auto_name() : hub::tools::auto_name(txt);
            else if (op == "make") r = hub::tools::make_name(txt, x);
            else if (op == "ext") r = hub::tools::make_name(txt, x, ".b" + txt);
            else abort();
            o << (i ? "," : "") << "{\"op\":\"" << op << "\",\"p\":\"" << (op == "auto" && x ? "space_" : txt) << "\",\"x\":" << x << ",\"r\":\"" << r << "\"}";
        }
        std::cout << o.str() << "]}" << std::endl;
        _exit(0);
    }
}

// Configuration files and command lines.
//   F <divider> <commenter> <how> <nbytes> b.. <nget> (type keylen k..)*
//   C <declared> <argc> (len chars)* (type per argument)*
// A get that does not return ends the process: every get runs in a child.
#include <sys/wait.h>
#include <unistd.h>
#include <cmath>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <vector>
#include "IO.hpp"
#include "jout.hpp"
#include "tools/config-reader.hpp"
using namespace hub;
using namespace hub::tools;
std::string codes(std::string const &s) {
    std::string o = "[";
    for (unsigned char c : s) o += (o.size() > 1 ? "," : "") + std::to_string((int)c);
    return o + "]";
}
std::string word(std::istream &in) {
    int n, c;
    in >> n;
    std::string s;
    while (n--) in >> c, s += (char)c;
    return s;
}
// the JSON a child wrote, or "gone" when it never got there
std::string child(std::function<std::string()> f) {
    int p[2];
    if (pipe(p)) abort();
    std::cout.flush();
    pid_t pid = fork();
    if (!pid) {
        close(p[0]);
        if (!freopen("/dev/null", "w", stdout)) abort();
        std::string s = f();
        if (write(p[1], s.data(), s.size()) < 0) abort();
        _exit(7);
    }
    close(p[1]);
    std::string s;
    char b[512];
    for (ssize_t k; (k = read(p[0], b, sizeof b)) > 0;) s.append(b, k);
    close(p[0]);
    int st;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 7) return s;
    return WIFEXITED(st) ? "{\"k\":\"gone\",\"s\":[],\"i\":0}" : "{\"k\":\"crash\",\"s\":[],\"i\":0}";
}
std::string I(long v) { return "{\"k\":\"num\",\"s\":[],\"i\":" + std::to_string(v) + "}"; }
std::string S(std::string const &s) { return "{\"k\":\"str\",\"s\":" + codes(s) + ",\"i\":0}"; }
template <typename X> long milli(X x) { return jout::qr(static_cast<double>(x), 1000); }
std::string get(ConfigReader &r, std::string const &ty, std::string const &key) {
    if (ty == "s") return S(r.get<std::string>(key));
    if (ty == "i") return I(1000L * r.get<int>(key));
    if (ty == "l") return I(1000L * r.get<long>(key));
    if (ty == "u") return I(1000L * (long)r.get<size_t>(key));
    if (ty == "d") return I(milli(r.get<double>(key)));
    if (ty == "f") return I(milli(r.get<float>(key)));
    if (ty == "L") return I(milli(r.get<long double>(key)));
    abort();
}
std::string opt(OptArg &a, std::string const &ty) {
    if (ty == "s") { std::string s = a; return S(s); }
    if (ty == "c") { char const *s = a; return S(s); }
    if (ty == "i") { int x = a; return I(1000L * x); }
    if (ty == "l") { long x = a; return I(1000L * x); }
    if (ty == "q") { long long x = a; return I(1000L * x); }
    if (ty == "u") { unsigned long x = a; return I(1000L * (long)x); }
    if (ty == "U") { unsigned long long x = a; return I(1000L * (long)x); }
    if (ty == "d") { double x = a; return I(milli(x)); }
    if (ty == "f") { float x = a; return I(milli(x)); }
    if (ty == "L") { long double x = a; return I(milli(x)); }
    if (ty == "S") return S(a.as<std::string>());
    if (ty == "D") return I(milli(a.as<double>()));
    if (ty == "F") return I(milli(a.as<float>()));
    if (ty == "I") return I(1000L * a.as<int>());
    if (ty == "W") return I(1000L * a.as<long>());
    if (ty == "Q") return I(1000L * a.as<long long>());
    if (ty == "V") return I(1000L * (long)a.as<unsigned long>());
    if (ty == "E") return I(milli(a.as<long double>()));
    if (ty == "o") { std::ostringstream s; s << a; return S(s.str()); }
    abort();
}
int main(int, char **argv) {
    std::ifstream f(argv[1]);
    std::string path = std::string(argv[2]) + "/conf.txt", line, k, ty;
    while (std::getline(f, line)) {
        std::istringstream in(line);
        in >> k;
        if (k == "F") {
            int dv, cm, how, n;
            in >> dv >> cm >> how;
            std::string text = word(in);
            { std::ofstream o(path, std::ios::binary); o << text; }
            in >> n;
            std::cout << "{\"k\":\"F\",\"dv\":" << dv << ",\"cm\":" << cm << ",\"text\":" << codes(text) << ",\"ev\":[";
            for (int i = 0; i < n; ++i) {
                in >> ty;
                std::string key = word(in);
                std::string r = child([&] {
                    if (how == 0) { ConfigReader c(path); return get(c, ty, key); }
                    if (how == 1) { ConfigReader c(path.c_str(), (char)dv, (char)cm); return get(c, ty, key); }
                    if (how == 2) { ConfigReader c(path, (char)dv, (char)cm); get(c, "s", key); return get(c, ty, key); }
                    ConfigReader c(path + ".missing", (char)dv, (char)cm);
                    return get(c, ty, key);
                });
                std::cout << (i ? "," : "") << "{\"ty\":\"" << ty << "\",\"key\":" << codes(key) << ",\"miss\":" << (how == 3) << ",\"r\":" << r << "}";
            }
        } else {
            int decl, argc;
            in >> decl >> argc;
            std::vector<std::string> w, t(4, "s");
            for (int i = 0; i < argc; ++i) w.push_back(word(in));
            for (int i = 0; i < decl; ++i) in >> t[i];
            std::vector<char *> av{(char *)"prog"};
            for (auto &s : w) av.push_back(s.data());
            av.push_back(nullptr);
            std::cout << "{\"k\":\"C\",\"decl\":" << decl << ",\"args\":[";
            for (int i = 0; i < argc; ++i) std::cout << (i ? "," : "") << codes(w[i]);
            std::cout << "],\"ev\":[";
            for (int i = 0; i < decl; ++i) {
                std::string r = child([&] {
                    OptArg v[4];
                    if (decl == 1) { read_command_line(argc + 1, av.data(), v[0]); }
                    if (decl == 2) { READ_CMD_LINE(argc + 1, av.data(), p, q); v[0] = p; v[1] = q; }
                    if (decl == 3) { READ_CMD_LINE(argc + 1, av.data(), p, q, r); v[0] = p; v[1] = q; v[2] = r; }
                    if (decl == 4) { read_command_line(argc + 1, av.data(), v[0], v[1], v[2], v[3]); }
                    return opt(v[i], t[i]);
                });
                std::cout << (i ? "," : "") << "{\"ty\":\"" << t[i] << "\",\"i\":" << i + 1 << ",\"r\":" << r << "}";
            }
        }
        std::cout << "]}" << std::endl;
    }
}

// Error estimators and step controller. One scenario per input line, one JSON record per line.
//   est <k> <form> <n> <atol> <rtol> <scale> a... b... c...    k: wo|mr|rms, form: 2 arguments, 3 arguments, 3k compensated numbers
//   pid <S1> <S2> <S3> <S4> <Kp> <Ki> <how> <order> <form> <e0> <e1> <scale>
#include <array>
#include <fstream>
#include <iostream>
#include <limits>
#include <tuple>
#include "spaceHub.hpp"
#include "jout.hpp"
using namespace hub;
using T = Types<double>;
static long near(double x, double scale) {  // x*scale is an integer up to rounding
    double y = x * scale, r = std::nearbyint(y);
    if (!(std::fabs(y) < 1.9e9) || std::fabs(y - r) > 1e-9 * std::max(1.0, std::fabs(y))) return jout::BAD;
    return (long)r;
}
template <typename C, typename A>
double est(C &c, std::string const &form, A const &a, A const &b, A const &d) {
    if constexpr (!std::is_same_v<C, ode::RMS<T>>)
        if (form == "2") return c.error(a, b);
    return c.error(a, b, d);
}
template <typename C>
double est_all(double at, double rt, bool set, std::string const &form, std::vector<double> const &a, std::vector<double> const &b, std::vector<double> const &d) {
    C c = set ? C{} : C(at, rt);
    if (set) c.set_atol(at), c.set_rtol(rt);
    if (c.atol() != at || c.rtol() != rt) return std::numeric_limits<double>::quiet_NaN();
    return est(c, form, a, b, d);
}
int main(int, char **argv) {
    std::ifstream in(argv[1]);
    std::string w;
    while (in >> w) {
        if (w == "est") {
            std::string k, form;
            size_t n;
            int set;
            double at, rt, sc;
            in >> k >> form >> set >> n >> at >> rt >> sc;
            std::vector<double> a(n), b(n), d(n);
            for (auto *v : {&a, &b, &d})
                for (auto &x : *v) in >> x;
            double e = 0;
            if (k == "wo") e = est_all<ode::WorstOffender<T>>(at, rt, set, form, a, b, d);
            if (k == "mr") e = est_all<ode::MaxRatioError<T>>(at, rt, set, form, a, b, d);
            if (k == "rms") { e = est_all<ode::RMS<T>>(at, rt, set, form, a, b, d); if (e < 0) e = NAN; e = e * e * n; }
            std::cout << "{\"ev\":[{\"e\":\"" << k << "\",\"form\":\"" << form << "\",\"at\":" << jout::q(at) << ",\"rt\":" << jout::q(rt) << ",\"a\":" << jout::nums(a) << ",\"b\":"
                      << jout::nums(b) << ",\"c\":" << jout::nums(d) << ",\"K\":" << jout::q(sc) << ",\"r\":" << near(e, sc) << "}]}\n";
        } else {
            double s1, s2, s3, s4, kp, ki, e0, e1;
            std::string form;
            int how, order, k, j, kpn, kin;
            in >> s1 >> s2 >> s3 >> s4 >> kpn >> kin >> how >> order >> form >> k >> j;
            // errors are chosen so that the roots are the integers k and j
            kp = kpn / 10.0, ki = kin / 10.0;
            ode::PIDController<T> p;
            if (how & 1) p.set_safe_guards(s1, s2);
            if (how & 2) p.set_limiter(s3, s4);
            if (how & 4) p.set_PID_coefficients(kp, ki, 0);
            double P = (form == "pi") ? kp : 1.0;
            e0 = k == 0 ? 0 : s2 / std::pow((double)(k > 0 ? k : -1.0 / k), order / P);
            e1 = form == "pi" ? s2 * std::pow((double)j, order / ki) : 0;
            double r, lim;
            if (form == "pi") {
                std::tuple<double, double> t{e0, e1};
                r = p.next(order, t), lim = p.next_with_limiter(order, t);
            } else if (form == "p1") {
                std::tuple<double> t{e0};
                r = p.next(order, t), lim = p.next_with_limiter(order, t);
            } else
                r = p.next(order, e0), lim = p.next_with_limiter(order, e0);
            double lo = p.limiter_min(order), hi = p.limiter_max(order);
            // limits: hi^order * S3 = 1, (lo * S4)^order = S3
            long hic = near(std::pow(hi, order) * s3, 1), loc = near(std::pow(lo * s4, order) / s3, 1);
            long hi0 = near(p.limiter_max() / s4, 1), lo0 = near(p.limiter_min() * s4, 1);
            double probes[5] = {lo * 0.5, lo, 0.5 * (lo + hi), hi, hi * 2};
            auto cls = [&](double out, double x, double l, double h) { return out == x ? 0 : out == l ? -1 : out == h ? 1 : 9; };
            std::cout << "{\"ev\":[{\"e\":\"pid\",\"form\":\"" << form << "\",\"k\":" << k << ",\"j\":" << (form == "pi" ? j : 1) << ",\"ord\":" << order
                      << ",\"r\":" << near(r / s1, 36000) << ",\"zero\":" << (r == hi) << ",\"hi\":" << hic << ",\"lo\":" << loc << ",\"hi0\":" << hi0 << ",\"lo0\":" << lo0
                      << ",\"below\":" << (r < lo) << ",\"above\":" << (r > hi) << ",\"lim\":" << cls(lim, r, lo, hi) << ",\"pr\":[";
            for (int i = 0; i < 5; ++i) std::cout << (i ? "," : "") << cls(p.limiter(order, probes[i]), probes[i], lo, hi);
            std::cout << "],\"pr0\":[";
            double l0 = p.limiter_min(), h0 = p.limiter_max();
            double probes0[5] = {l0 * 0.5, l0, 1, h0, h0 * 2};
            for (int i = 0; i < 5; ++i) std::cout << (i ? "," : "") << cls(p.limiter(probes0[i]), probes0[i], l0, h0);
            std::cout << "]}]}\n";
        }
    }
}

// Real methods run to their end time; automatic first step of real systems.
#include <fstream>
#include <iostream>
#include <sstream>
#include "jout.hpp"
#include "spaceHub.hpp"
using namespace hub;
using force::Interactions;
using Grav = Interactions<force::NewtonianGrav>;

template <typename Sim>
void end_run(const char *name, double start, double span, double rtol, int n, double h0, int stop_at) {
    using P = typename Sim::Particle;
    using S = typename Sim::ParticleSystem;
    std::vector<P> ps;
    // a loosely bound hierarchical group: everything resolves easily
    double const x[4] = {0, 3, 40, -300}, v[4] = {0.1, 0.6, -0.3, 0.08}, m[4] = {2, 1, 1, 1};
    for (int i = 0; i < n; ++i) ps.emplace_back(m[i], x[i], 0.25 * i, 0, 0, v[i], 0.01 * i);
    for (auto &p : ps) p.vel *= std::sqrt(consts::G);
    double const year = 2 * consts::pi / std::sqrt(consts::G) * 3;
    double end = (start + span) * year;
    Sim sim(start * year, ps);
    typename Sim::RunArgs args;
    args.time_rtol = rtol;
    args.rtol = 1e-10;
    args.step_size = h0 * year;
    args.add_stop_condition(end);
    long ops = 0, back = 0, stops = 0, calls = 0;
    double best = 1e300;
    bool nan = false;
    if (stop_at >= 0) args.add_stop_condition([&](S &, double) { return calls++ == stop_at; });
    args.add_operation([&](S &p, double) {
        ++ops;
        double d = std::fabs(double(p.time()) - end);
        if (!(d == d)) nan = true;
        if (d > best) back++;
        best = std::min(best, d);
        if (ops > 200000) throw 1;
    });
    double off = -1;
    args.add_stop_point_operation([&](S &p, double) {
        stops++;
        off = std::fabs(double(p.time()) - end) / (rtol * std::fabs(end));
    });
    bool endless = false;
    try {
        sim.run(args);
    } catch (int) {
        endless = true;
    }
    long o = !(off == off) || off > 1e9 ? 1000000000 : (long)std::ceil(off * (1 - 1e-12));
    std::cout << "{\"what\":\"end\",\"method\":\"" << name << "\",\"n\":" << n << ",\"start\":" << start << ",\"span\":" << span << ",\"stopat\":" << stop_at << ",\"ops\":" << ops
              << ",\"stops\":" << stops << ",\"off\":" << o << ",\"endless\":" << (endless ? "true" : "false") << ",\"nan\":" << (nan ? "true" : "false") << "}" << std::endl;
}

template <typename Sim>
double auto_step(std::vector<std::array<double, 3>> const &pos, std::vector<double> const &m, double &scale) {
    using P = typename Sim::Particle;
    using S = typename Sim::ParticleSystem;
    std::vector<P> ps;
    for (size_t i = 0; i < m.size(); ++i) ps.emplace_back(m[i], pos[i][0], pos[i][1], pos[i][2], 0.1 * i, 0.0, 0.0);
    Sim sim(0.0, ps);
    typename Sim::RunArgs args;
    double h = -1;
    args.add_start_point_operation([&](S &p, double hh) {
        h = hh;
        scale = p.step_scale();
    });
    args.add_stop_condition([](S &, double) { return true; });
    sim.run(args);
    return h;
}

template <typename Sim>
void automatic(const char *name, std::istream &s) {
    size_t n;
    s >> n;
    std::vector<std::array<double, 3>> pos(n);
    std::vector<double> m(n);
    std::ostringstream xs;
    for (size_t i = 0; i < n; ++i) {
        int k;
        s >> m[i] >> k;
        pos[i] = {double(k), 2.0 * k, -2.0 * k};  // mutual distances are 3|ki-kj|
        xs << (i ? "," : "") << "[" << m[i] << "," << k << "]";
    }
    double sc, sc0;
    double h = auto_step<Sim>(pos, m, sc);
    double ref = auto_step<Sim>({{0, 0, 0}, {1, 2, 2}}, {0.5, 0.5}, sc0);
    double ratio = (h / sc) / (ref / sc0);
    std::cout << "{\"what\":\"auto\",\"method\":\"" << name << "\",\"p\":[" << xs.str() << "],\"sq\":" << jout::qr(ratio * ratio, 27720) << ",\"pos\":" << (h > 0 ? "true" : "false")
              << "}" << std::endl;
}

template <typename Sim>
void go(const char *name, const char *want, const std::string &kind, std::istream &s) {
    if (std::string(want) != name) return;
    if (kind == "auto") return automatic<Sim>(name, s);
    double start, span, rtol, h0;
    int n, stop_at;
    s >> start >> span >> rtol >> n >> h0 >> stop_at;
    end_run<Sim>(name, start, span, rtol, n, h0, stop_at);
}

int main(int, char **argv) {
    std::ifstream in(argv[1]);
    std::string line, kind, name;
    std::ostringstream muted;
    while (std::getline(in, line)) {
        std::istringstream s(line);
        s >> kind >> name;
#define M(x) go<methods::x<Grav>>(#x, name.c_str(), kind, s);
        METHODS
#undef M
    }
}

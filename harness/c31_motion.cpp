// Whole runs with the ready-made methods.  -DPART selects which of them are compiled.
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include "spaceHub.hpp"
#include "jout.hpp"
using namespace hub;

struct Uniform {
    static constexpr bool vel_dependent{false};
    inline static double g[3] = {0, 0, 0};
    template <typename P>
    static void add_acc_to(P const &p, typename P::VectorArray &a) {
        for (size_t i = 0; i < p.number(); ++i) a[i].x += g[0], a[i].y += g[1], a[i].z += g[2];
    }
};
struct Gyro {
    static constexpr bool vel_dependent{true};
    inline static double g[3] = {0, 0, 0};
    template <typename P>
    static void add_acc_to(P const &p, typename P::VectorArray &a) {
        typename P::Vector c(0, 0, 0);
        typename P::Scalar m = 0;
        for (size_t i = 0; i < p.number(); ++i) c += p.vel()[i] * p.mass()[i], m += p.mass()[i];
        c /= m;
        for (size_t i = 0; i < p.number(); ++i) a[i].x += g[1] * c.z - g[2] * c.y, a[i].y += g[2] * c.x - g[0] * c.z, a[i].z += g[0] * c.y - g[1] * c.x;
    }
};
using FU = force::Interactions<force::NewtonianGrav, Uniform>;
using FG = force::Interactions<force::NewtonianGrav, Gyro>;
using FB = force::Interactions<force::NewtonianGrav, Gyro, Uniform>;

template <typename Sim>
void go(std::istream &in) {
    using S = typename Sim::Scalar;
    using P = typename Sim::Particle;
    size_t n, legs;
    double t0, rtol, atol, h;
    in >> n >> t0 >> rtol >> atol >> h;
    for (double &x : Uniform::g) in >> x;
    for (double &x : Gyro::g) in >> x;
    std::vector<P> ps;
    for (size_t i = 0; i < n; ++i) {
        S m, x, y, z, u, v, w;
        in >> m >> x >> y >> z >> u >> v >> w;
        if constexpr (std::is_constructible_v<P, S, S, S, S, S, S, S, S> && !std::is_constructible_v<P, S, S, S, S, S, S, S>)
            ps.emplace_back(m, S(0.01), x, y, z, u, v, w);
        else if constexpr (std::is_same_v<P, typename particles::SizeParticles<typename Sim::ParticleSystem::TypeSet>::Particle>)
            ps.emplace_back(m, S(0.01), x, y, z, u, v, w);
        else
            ps.emplace_back(m, x, y, z, u, v, w);
    }
    std::string what;
    in >> what;
    if (what == "order") {      // the same stretch with different steps: where it ends
        double t, s;
        in >> t >> legs;
        printf("\n{\"ends\":[");
        for (size_t i = 0; i < legs; ++i) {
            in >> s;
            Sim sim(S(t0), ps);
            typename Sim::RunArgs a;
            a.add_stop_condition(S(t));
            a.step_size = S(s) * sim.particles().step_scale();
            sim.run(a);
            auto const &p = sim.particles();
            auto put = [&](auto x, const char *e) { printf("\"%.20Lg\"%s", (long double)(double)x, e); };
            printf(i ? ",[" : "[");
            put(p.time(), ","), put(p.pos(1).x - p.pos(0).x, ","), put(p.pos(1).y - p.pos(0).y, ","), put(p.pos(1).z - p.pos(0).z, "]");
        }
        printf("]}\n");
        fflush(stdout);
        return;
    }
    Sim sim(S(t0), ps);
    std::ostringstream o;
    o << "{\"digits\":" << std::numeric_limits<S>::digits << ",\"comp\":" << (std::is_same_v<typename Sim::StateScalar, S> ? "false" : "true") << ",\"ev\":[";
    const double scale0 = double(sim.particles().step_scale());
    auto show = [&] {
        auto const &p = sim.particles();
        o << "{\"t\":" << jout::qr(double(p.time()), 1e6) << ",\"scale\":" << jout::qr(double(p.step_scale()) / scale0, 1e6);
        for (int k = 0; k < 2; ++k) {
            o << (k ? ",\"v\":[" : ",\"x\":[");
            for (size_t i = 0; i < n; ++i) {
                double a, b, c;
                if (k)
                    a = double(p.vel(i).x), b = double(p.vel(i).y), c = double(p.vel(i).z);
                else
                    a = double(p.pos(i).x), b = double(p.pos(i).y), c = double(p.pos(i).z);
                o << (i ? ",[" : "[") << jout::qr(a, 1e6) << "," << jout::qr(b, 1e6) << "," << jout::qr(c, 1e6) << "]";
            }
            o << "]";
        }
        o << "}";
    };
    show();
    in >> legs;
    for (size_t i = 0; i < legs; ++i) {
        double t;
        in >> t;
        typename Sim::RunArgs a;
        a.rtol = rtol;
        a.atol = atol;
        a.add_stop_condition(S(t));
        bool back = t < double(sim.particles().time());
        if (h != 0 || back) a.step_size = S(back ? -1 : 1) * S(h != 0 ? h : 0.01) * sim.particles().step_scale();
        size_t steps = 0;
        a.add_stop_condition([&](auto &, auto) { return ++steps > 400000; });
        sim.run(a);
        o << ",";
        show();
    }
    o << "]}";
    std::cout << "\n" << o.str() << std::endl;
}
std::map<std::string, std::function<void(std::istream &)>> table;
#define M1(NAME) table[#NAME] = go<methods::NAME<>>;
#define FOUR(NAME) M1(NAME) M1(NAME##_Plus) M1(NAME##_Ext) M1(NAME##_ExtPlus)
#define BOTH(NAME) FOUR(NAME) FOUR(Const_##NAME)
#define SYMS(NAME) BOTH(NAME) BOTH(AR_##NAME) BOTH(Chain_##NAME) BOTH(AR_##NAME##_Chain)
#define FORCES(NAME)                                                         \
    table[#NAME "/field"] = go<methods::NAME<FU>>;                           \
    table[#NAME "/gyro"] = go<methods::NAME<FG>>;                            \
    table[#NAME "/both"] = go<methods::NAME<FB, particles::SizeParticles>>;
void fill() {
#if PART == 0
    FOUR(BS) FOUR(AR_BS) FOUR(Chain_BS) FOUR(AR_Chain)
    table["DefaultMethod_Plus"] = go<methods::DefaultMethod<>>;
#elif PART == 1
    SYMS(Sym2)
#elif PART == 2
    SYMS(Sym4)
#elif PART == 3
    SYMS(Sym6)
#elif PART == 4
    SYMS(Sym8)
#elif PART == 5
    SYMS(Sym10)
#elif PART == 6
    SYMS(Radau)
#elif PART == 7
    FORCES(BS) FORCES(AR_BS) FORCES(Chain_BS) FORCES(AR_Chain) FORCES(AR_Chain_Plus) FORCES(Sym6) FORCES(AR_Sym6) FORCES(Chain_Sym6) FORCES(AR_Sym6_Chain) FORCES(Radau) FORCES(AR_Radau) FORCES(Chain_Radau) FORCES(AR_Radau_Chain)
#endif
}
int main(int, char **argv) {
    fill();
    if (std::string(argv[1]) == "list") {
        for (auto &x : table) std::cout << x.first << "\n";
        return 0;
    }
    std::ifstream f(argv[1]);
    std::string line, k;
    while (std::getline(f, line)) {
        std::istringstream in(line);
        in >> k;
        table.at(k)(in);
    }
}

// Scale factors of the regularised systems on configurations whose mutual distances are all integers.
#include <fstream>
#include <iostream>
#include <sstream>
#include "jout.hpp"
#include "interaction/interaction.hpp"
#include "interaction/newtonian.hpp"
#include "kahan-number.hpp"
#include "particle-system/archain.hpp"
#include "particle-system/regu-system.hpp"
#include "particles/point-particles.hpp"
#include "type-class.hpp"
using namespace hub;
struct Push {
    static constexpr bool vel_dependent{false};
    template <typename P>
    static void add_acc_to(P const &p, typename P::VectorArray &acc) {
        for (size_t i = 0; i < p.number(); ++i) acc[i].x += 3.0 + i;
    }
};
struct Nil {
    static constexpr bool vel_dependent{false};
    template <typename P>
    static void add_acc_to(P const &, typename P::VectorArray &) {}
};
using Force = force::Interactions<Nil, Push>;

template <typename Sys, typename Pts>
void go(std::istream &in, const char *rn, bool chain) {
    size_t n;
    double K;
    in >> n >> K;
    std::vector<typename Pts::Particle> ps;
    std::string ms;
    for (size_t i = 0; i < n; ++i) {
        double m, x, y, z, u, v, w;
        in >> m >> x >> y >> z >> u >> v >> w;
        ps.emplace_back(m, x, y, z, u, v, w);
        ms += (i ? "," : "") + std::to_string(long(m));
    }
    Sys s(0.0, ps);
    std::ostringstream o;
    auto state = [&](const char *e) {
        std::ostringstream r;
        r << "\"e\":\"" << e << "\",\"pos\":" << jout::vecs(s.pos()) << ",\"vel\":" << jout::vecs(s.vel()) << ",\"om\":" << jout::qr(double(s.omega()), 2 * K) << ",\"be\":" << jout::qr(double(s.bindE()), 2 * K);
        return r.str();
    };
    o << "{" << state("new") << ",\"scale\":" << jout::qr(double(s.step_scale()), 2 * K) << "}";
    int frames;
    in >> frames;
    for (int f = 0; f < frames; ++f) {
        // new positions, velocities and accumulators through the state array
        typename Sys::StateScalarArray y;
        s.write_to_scalar_array(y);
        typename Sys::StateVectorArray p(n), v(n), cp(n), cv(n);
        for (size_t i = 0; i < n; ++i) {
            double a, b, c, d, e, g;
            in >> a >> b >> c >> d >> e >> g;
            p[i].x = a, p[i].y = b, p[i].z = c, v[i].x = d, v[i].y = e, v[i].z = g;
        }
        double dom, dbe, h;
        in >> dom >> dbe >> h;
        cp = p, cv = v;
        if constexpr (std::is_same_v<Sys, system::ARchainSystem<Pts, Force, Sys::regu_type>>) {
            Chain::calc_chain(p, cp, s.index());
            Chain::calc_chain(v, cv, s.index());
        }
        for (size_t i = 0; i < n; ++i) {
            size_t a = s.pos_offset() + 3 * i, b = s.vel_offset() + 3 * i;
            y[a] = cp[i].x, y[a + 1] = cp[i].y, y[a + 2] = cp[i].z, y[b] = cv[i].x, y[b + 1] = cv[i].y, y[b + 2] = cv[i].z;
        }
        y[s.omega_offset()] = double(y[s.omega_offset()]) + dom;
        y[s.bindE_offset()] = double(y[s.bindE_offset()]) + dbe;
        for (const char *what : {"drift", "kick"}) {
            s.read_from_scalar_array(y);
            std::string st = state(what);
            double dt;
            if (what[0] == 'd') {
                double t0 = double(s.time());
                s.drift(h);
                dt = double(s.time()) - t0;
            } else {
                double v0 = double(s.vel()[0].x);
                s.kick(h);
                dt = (double(s.vel()[0].x) - v0) / 3.0;
            }
            o << ",{" << st << ",\"ratio\":" << jout::qr(h / dt, 2 * K) << ",\"scale\":" << jout::qr(double(s.step_scale()), 2 * K) << "}";
            s.read_from_scalar_array(y);
        }
    }
    std::cout << "{\"chain\":" << (chain ? "true" : "false") << ",\"regu\":\"" << rn << "\",\"K\":" << K << ",\"m\":[" << ms << "],\"ev\":[" << o.str() << "]}\n";
}
template <typename Ty>
void pick(std::string const &k, std::istream &in) {
    using namespace hub::system;
    using Pts = particles::PointParticles<Ty>;
    if (k == "logh") go<RegularizedSystem<Pts, Force, ReguType::LogH>, Pts>(in, "LogH", false);
    if (k == "ttl") go<RegularizedSystem<Pts, Force, ReguType::TTL>, Pts>(in, "TTL", false);
    if (k == "none") go<RegularizedSystem<Pts, Force, ReguType::None>, Pts>(in, "None", false);
    if (k == "clogh") go<ARchainSystem<Pts, Force, ReguType::LogH>, Pts>(in, "LogH", true);
    if (k == "cttl") go<ARchainSystem<Pts, Force, ReguType::TTL>, Pts>(in, "TTL", true);
    if (k == "cnone") go<ARchainSystem<Pts, Force, ReguType::None>, Pts>(in, "None", true);
}
int main(int, char **argv) {
    std::ifstream f(argv[1]);
    std::string line, ty, k;
    while (std::getline(f, line)) {
        std::istringstream in(line);
        in >> ty >> k;
        if (ty == "d") pick<Types<double, Vec3>>(k, in);
        if (ty == "k") pick<Types<double_k, Vec3>>(k, in);
    }
}

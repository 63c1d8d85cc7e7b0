// Accelerations by the velocity dependent forces, on bodies in the real systems.
#include <fstream>
#include <sstream>
#include "spaceHub.hpp"
#include "interaction/disk-capture-star.hpp"
#include "interaction/alpha-disk.hpp"
#include "interaction/magneto-disk.hpp"
#include "interaction/post-newtonian.hpp"
#include "interaction/static-gas-drag.hpp"
#include "interaction/tidal.hpp"
#include "particles/drag-particles.hpp"
#include "particles/finite-size.hpp"
#include "particles/tide-particles.hpp"
#include "jout.hpp"
using namespace hub;
#ifndef SC
#define SC double
#endif
using Ty = Types<SC, Vec3>;
using namespace hub::force;
double AlphaDisk::Q = 1, AlphaDisk::alpha = 1, AlphaDisk::lambda = 1;
int AlphaDisk::force = 0;

template <typename A>
std::string R(A const &a, double k) {
    std::string s = "[";
    for (size_t i = 0; i < a.size(); ++i)
        s += (i ? ",[" : "[") + std::to_string(jout::qr(double(a[i].x), k)) + "," + std::to_string(jout::qr(double(a[i].y), k)) + "," + std::to_string(jout::qr(double(a[i].z), k)) + "]";
    return s + "]";
}
template <typename P>
constexpr int kind_of = std::is_same_v<P, particles::PointParticles<Ty>> ? 0 : std::is_same_v<P, particles::SizeParticles<Ty>> ? 1 : std::is_same_v<P, particles::TideParticles<Ty>> ? 2 : 3;

// every body: m, position, velocity, a, b, c
// more: what else to say about the scene
static std::string more;
template <typename Pts, template <typename, typename> typename Sys, typename Ext>
void go(std::istream &in, std::string const &kind, std::string const &sys, double scale) {
    using F = Interactions<NewtonianGrav, Ext>;
    size_t n;
    in >> n;
    std::vector<typename Pts::Particle> ps;
    std::ostringstream bs;
    for (size_t i = 0; i < n; ++i) {
        double m, x, y, z, u, v, w, a, b, c;
        in >> m >> x >> y >> z >> u >> v >> w >> a >> b >> c;
        if constexpr (kind_of<Pts> == 0) ps.emplace_back(m, x, y, z, u, v, w);
        if constexpr (kind_of<Pts> == 1) ps.emplace_back(m, a, x, y, z, u, v, w);
        if constexpr (kind_of<Pts> == 2) ps.emplace_back(m, a, b, c, x, y, z, u, v, w);
        if constexpr (kind_of<Pts> == 3) ps.emplace_back(m, a, b, x, y, z, u, v, w);
        bs << (i ? "," : "") << "{\"m\":" << m << ",\"x\":[" << x << "," << y << "," << z << "],\"v\":[" << u << "," << v << "," << w << "],";
        if (kind == "gas")
            bs << "\"c\":" << a << ",\"cs\":" << b << "}";
        else
            bs << "\"R\":" << a << ",\"k\":" << b << ",\"tau\":" << c << "}";
    }
    Sys<Pts, F> s(0.0, ps);
    using VA = typename Ty::VectorArray;
    auto fresh = [&](double k) {
        VA a(n);
        for (auto &v : a) v.x = 3 * k, v.y = -2 * k, v.z = k;
        return a;
    };
    std::ostringstream o;
    VA a = fresh(5);
    F::eval_extra_acc(s, a);
    o << "\"extra\":" << R(a, scale);
    a = fresh(7);
    F::eval_extra_vel_dep_acc(s, a);
    o << ",\"dep\":" << R(a, scale);
    // a force adds to what is there
    a = fresh(1 / scale);
    Ext::add_acc_to(s, a);
    VA z = fresh(1 / scale);
    for (size_t i = 0; i < n; ++i) a[i].x -= z[i].x, a[i].y -= z[i].y, a[i].z -= z[i].z;
    o << ",\"added\":" << R(a, scale);
    VA nw = fresh(1), tot = fresh(2);
    F::eval_newtonian_acc(s, nw);
    F::eval_acc(s, tot);
    for (size_t i = 0; i < n; ++i) tot[i].x -= nw[i].x, tot[i].y -= nw[i].y, tot[i].z -= nw[i].z;
    // the total holds the force as far as the digits of a double go
    if (scale < 1e13)
        o << ",\"total\":" << R(tot, scale);
    else
        o << ",\"total\":" << R(a, scale);
    o << ",\"pos\":" << jout::vecs(s.pos()) << ",\"vel\":" << jout::vecs(s.vel());
    std::cout << "{\"kind\":\"" << kind << "\",\"src\":\"" << sys << "\",\"b\":[" << bs.str() << "]," << more << o.str() << "}\n";
}
template <typename P, typename F>
using LogH = system::RegularizedSystem<P, F, system::ReguType::LogH>;
template <typename P, typename F>
using AR = system::ARchainSystem<P, F, system::ReguType::LogH>;
template <typename Pts, typename Ext>
void in_system(std::istream &in, std::string const &kind, double scale) {
    std::string sys;
    in >> sys;
    if (sys == "simple") go<Pts, system::SimpleSystem, Ext>(in, kind, sys, scale);
    if (sys == "chain") go<Pts, system::ChainSystem, Ext>(in, kind, sys, scale);
    if (sys == "logh") go<Pts, LogH, Ext>(in, kind, sys, scale);
    if (sys == "clogh") go<Pts, AR, Ext>(in, kind, sys, scale);
}
// how much thinner the disk is above its plane: a star at R, k ten thousandths above it, with the same velocity
template <typename Disk>
void profile(std::istream &in) {
    double m, R, k, u[3];
    in >> m >> R >> k >> u[0] >> u[1] >> u[2];
    AlphaDisk::force = -1, AlphaDisk::Q = 5, AlphaDisk::alpha = 15, AlphaDisk::lambda = 3;
    double a[2];
    for (int i = 0; i < 2; ++i) {
        std::vector<typename particles::SizeParticles<Ty>::Particle> ps;
        ps.emplace_back(m, 1., 0., 0., 0., 0., 0., 0.);
        ps.emplace_back(1., 1., R * 0.6, R * 0.8, i * k * 1e-4, u[0], u[1], u[2]);
        system::SimpleSystem<particles::SizeParticles<Ty>, Interactions<NewtonianGrav, Disk>> s(0.0, ps);
        typename Ty::VectorArray acc(2);
        for (auto &v : acc) v.x = v.y = v.z = 0;
        Disk::add_acc_to(s, acc);
        a[i] = double(acc[1].z);
    }
    std::cout << "{\"kind\":\"profile\",\"m\":" << m << ",\"R\":" << R << ",\"k\":" << k << ",\"L\":" << jout::qr(-2 * std::log(a[1] / a[0]), 1000) << "}\n";
}
// one star in the magnetic disk: the direction of its drag, of its motion in the disk, of the disk's motion
void magneto(std::istream &in) {
    double m, M, R, x[3], u[3];
    in >> M >> m >> R;
    for (auto &y : x) in >> y;
    for (auto &y : u) in >> y;
    using Pts = particles::SizeParticles<Ty>;
    std::vector<typename Pts::Particle> ps;
    ps.emplace_back(M, 1., 1., 2., 3., -1., 0., 1.);
    ps.emplace_back(m, R, 1 + x[0], 2 + x[1], 3 + x[2], -1 + u[0], u[1], 1 + u[2]);
    system::SimpleSystem<Pts, Interactions<NewtonianGrav, MagnetoDisk>> s(0.0, ps);
    typename Ty::VectorArray a(2);
    for (auto &v : a) v.x = v.y = v.z = 0;
    typename Ty::Vector d(x[0], x[1], x[2]);
    auto disk = MagnetoDisk::disk_v(d);
    double w[3] = {u[0] - double(disk.x), u[1] - double(disk.y), u[2] - double(disk.z)};
    MagnetoDisk::add_acc_to(s, a);
    auto dir = [](double x, double y, double z) {
        double n = std::sqrt(x * x + y * y + z * z);
        if (n == 0) return std::string("[0,0,0]");
        return "[" + std::to_string(jout::qr(x / n, 1e4)) + "," + std::to_string(jout::qr(y / n, 1e4)) + "," + std::to_string(jout::qr(z / n, 1e4)) + "]";
    };
    double n = std::sqrt(double(a[1].x * a[1].x + a[1].y * a[1].y + a[1].z * a[1].z)) * m;
    double t[3] = {double(a[0].x) * M + double(a[1].x) * m, double(a[0].y) * M + double(a[1].y) * m, double(a[0].z) * M + double(a[1].z) * m};
    std::cout << "{\"kind\":\"magneto\",\"x\":[" << x[0] << "," << x[1] << "," << x[2] << "],\"drag\":" << dir(a[1].x, a[1].y, a[1].z) << ",\"rel\":" << dir(w[0], w[1], w[2])
              << ",\"spin\":" << dir(disk.x, disk.y, disk.z) << ",\"rest\":[" << jout::qr(t[0] / n, 1e6) << "," << jout::qr(t[1] / n, 1e6) << "," << jout::qr(t[2] / n, 1e6) << "]}\n";
}
int main(int, char **argv) {
    std::ifstream f(argv[1]);
    std::string line, k;
    const double c = consts::C, c2 = c * c;
    while (std::getline(f, line)) {
        std::istringstream in(line);
        in >> k;
        using Pt = particles::PointParticles<Ty>;
        if (k == "light") std::cout << "{\"kind\":\"light\",\"kms\":" << jout::qr(c / unit::kms, 1000) << ",\"au_day\":" << jout::qr(c / (unit::AU / unit::day), 1e6) << "}\n";
        if (k == "profile") profile<DiskCaptureStar>(in);
        if (k == "aprofile") profile<AlphaDisk>(in);
        if (k == "alpha") {
            // all stars have the speed w in the disk, p/q of that of sound; Q = 2000/g
            double g, p, q, w, M, lambda;
            int mode;
            in >> mode >> g >> p >> q >> w >> M >> lambda;
            AlphaDisk::force = mode, AlphaDisk::Q = 2000 / g, AlphaDisk::lambda = lambda;
            double cs = w * q / p;
            AlphaDisk::alpha = AlphaDisk::Q * lambda * 0.22e-7 * M / (4 * consts::pi * cs * cs * cs);
            std::ostringstream o;
            o << "\"mode\":" << mode << ",\"g\":" << g << ",\"mach\":[" << p << "," << q << "],\"w\":" << w << ",";
            more = o.str();
            in_system<particles::SizeParticles<Ty>, AlphaDisk>(in, k, 1e3);
            more = "";
        }
        if (k == "magneto") magneto(in);
        if (k == "pn1") in_system<Pt, PN1>(in, k, 1e3 * c2);
        if (k == "pn2") in_system<Pt, PN2>(in, k, 1e3 * c2 * c2);
        if (k == "pn25") in_system<Pt, PN2p5>(in, k, 1e3 * c2 * c2 * c);
        if (k == "tide") in_system<particles::TideParticles<Ty>, Tidal>(in, k, 1e3);
        if (k == "gas") in_system<particles::DragParticles<Ty>, StaticGasDrag>(in, k, 1e3);
        if (k == "disk") in_system<particles::SizeParticles<Ty>, DiskCaptureStar>(in, k, 1e3);
    }
}

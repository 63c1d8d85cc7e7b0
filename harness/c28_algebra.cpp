// Vec3 algebra and the array kernels on integer values.
//   V <type> <nops> (op d a b ax ay az bx by bz c)*
//   A <type> <nops> (op d a b len c e  3*len ints)*
#include <array>
#include <fstream>
#include <iostream>
#include <sstream>
#include "jout.hpp"
#include "core-computation.hpp"
#include "kahan-number.hpp"
#include "small-vector.hpp"
#include "type-class.hpp"
#include "vector/vector3.hpp"
using namespace hub;
template <typename T> long Q(T const &x) { return jout::q(static_cast<double>(x)); }
template <typename T> std::string show(Vec3<T> const &v) { std::ostringstream o; o << "[" << Q(v.x) << "," << Q(v.y) << "," << Q(v.z) << "]"; return o.str(); }
template <typename T>
void vec(std::istream &in) {
    int nops;
    in >> nops;
    Vec3<T> r[4];
    for (int o = 0; o < nops; ++o) {
        std::string op;
        int d, a, b, v[6], c;
        in >> op >> d >> a >> b;
        for (auto &k : v) in >> k;
        in >> c;
        r[a] = Vec3<T>(T(v[0]), T(v[1]), T(v[2]));
        if (a != b) r[b] = Vec3<T>(T(v[3]), T(v[4]), T(v[5]));
        std::string pre = "[";
        for (int k = 1; k < 4; ++k) pre += (k > 1 ? "," : "") + show(r[k]);
        Vec3<T> &D = r[d], &A = r[a], &B = r[b];
        T s = T(c);
        long ret = 0;
        std::string txt;
        auto R = [&](auto x) { ret = Q(x); };
        double n2 = 1e3 * ((double)A.x * (double)A.x + (double)A.y * (double)A.y + (double)A.z * (double)A.z);
        if (op == "add") D = A + B; else if (op == "sub") D = A - B; else if (op == "mul") D = A * B; else if (op == "div") D = A / B;
        else if (op == "adds") D = A + s; else if (op == "subs") D = A - s; else if (op == "muls") D = A * s; else if (op == "divs") D = A / s;
        else if (op == "sadd") D = s + A; else if (op == "ssub") D = s - A; else if (op == "smul") D = s * A; else if (op == "sdiv") D = s / A;
        else if (op == "neg") D = -A; else if (op == "abs") D = A.abs();
        else if (op == "iadd") A += B; else if (op == "isub") A -= B; else if (op == "imul") A *= B; else if (op == "idiv") A /= B;
        else if (op == "iadds") A += s; else if (op == "isubs") A -= s; else if (op == "imuls") A *= s; else if (op == "idivs") A /= s;
        else if (op == "fill") A = s; else if (op == "ctors") D = Vec3<T>(s);
        else if (op == "cross") D = cross(A, B); else if (op == "dot") R(dot(A, B));
        else if (op == "norm2") R(norm2(A)); else if (op == "mnorm2") R(A.norm2()); else if (op == "maxc") R(A.max_component());
        else if (op == "vmax") D = vec_max(A, B); else if (op == "vmin") D = vec_min(A, B);
        else if (op == "conv") { Vec3<float> f(A); D = Vec3<T>(f); }
        else if (op == "addf") D = A + Vec3<float>(B); else if (op == "subf") D = A - Vec3<float>(B);
        else if (op == "csv") { std::ostringstream t; t << A; txt = t.str(); }
        else if (op == "read") { std::ostringstream t; t << v[3] << " " << v[4] << "\n" << v[5]; std::istringstream u(t.str()); u >> D; }
        else if constexpr (!std::is_same_v<T, int>) {
            if (op == "norm") ret = jout::qr(double(norm(A)) * 1e3); else if (op == "mnorm") ret = jout::qr(double(A.norm()) * 1e3);
            else if (op == "renorm") ret = jout::qr(double(re_norm(A)) * n2); else if (op == "mrenorm") ret = jout::qr(double(A.re_norm()) * n2);
            else if (op == "dist") ret = jout::qr(double(distance(A, B)) * 1e3);
            else if (op == "vabs") D = vec_abs(A);
            else if constexpr (!std::is_same_v<T, double_k> && !std::is_same_v<T, long double> && !std::is_same_v<T, float>) { if (op == "maxabs") R(max_abs(A)); else abort(); }
            else abort();
        } else abort();
        std::cout << (o ? "," : "") << "{\"op\":\"" << op << "\",\"d\":" << d << ",\"a\":" << a << ",\"b\":" << b << ",\"c\":" << c << ",\"in\":[" << v[3] << "," << v[4] << "," << v[5] << "],\"ret\":" << ret
                  << ",\"txt\":\"" << txt << "\",\"pre\":" << pre << "],\"st\":[" << show(r[1]) << "," << show(r[2]) << "," << show(r[3]) << "]}";
    }
}
template <typename A, typename = void> struct IsV : std::false_type {};
template <typename A> struct IsV<A, std::void_t<decltype(std::declval<typename A::value_type>().x)>> : std::true_type {};
template <typename Arr> Arr make(std::vector<int> const &v) {
    Arr a;
    a.resize(v.size() / (IsV<Arr>::value ? 3 : 1));
    if constexpr (IsV<Arr>::value) for (size_t i = 0; i < a.size(); ++i) a[i] = typename Arr::value_type(v[3 * i], v[3 * i + 1], v[3 * i + 2]);
    else for (size_t i = 0; i < a.size(); ++i) a[i] = v[i];
    return a;
}
template <typename Arr> std::string flat(Arr const &a) {
    std::string o = "[";
    for (size_t i = 0; i < a.size(); ++i) {
        if constexpr (IsV<Arr>::value) o += (i ? "," : "") + std::to_string(Q(a[i].x)) + "," + std::to_string(Q(a[i].y)) + "," + std::to_string(Q(a[i].z));
        else o += (i ? "," : "") + std::to_string(Q(a[i]));
    }
    return o + "]";
}
template <typename Arr, typename S, typename SA>
void arr(std::istream &in) {
    int nops;
    in >> nops;
    constexpr bool v3 = IsV<Arr>::value;
    for (int o = 0; o < nops; ++o) {
        std::string op;
        int d, a, b, len, c, e;
        in >> op >> d >> a >> b >> len >> c >> e;
        Arr r[4];
        std::string pre = "[";
        for (int k = 1; k < 4; ++k) {
            std::vector<int> v(len);
            for (auto &x : v) in >> x;
            r[k] = make<Arr>(v);
            pre += (k > 1 ? "," : "") + flat(r[k]);
        }
        Arr &D = r[d], &A = r[a], &B = r[b];
        S s = c, t = e;
        std::string ret = "[]";
        using namespace hub::calc;
        if (op == "zero") array_set_zero(D); else if (op == "zeros") set_arrays_zero(A, D);
        else if (op == "add2") array_add(D, A, B); else if (op == "add3") array_add(D, A, B, D);
        else if (op == "mul2") array_mul(D, A, B); else if (op == "mul3") array_mul(D, A, B, A);
        else if (op == "sub") array_sub(D, A, B); else if (op == "div") array_div(D, A, B);
        else if (op == "scale") array_scale(D, A, s); else if (op == "divscale") array_div_scale(D, A, s);
        else if (op == "scaleadd") array_scale_add(D, A, B, s); else if (op == "scaleadd2") array_scale_add(D, A, s, B, t);
        else if (op == "scalesub") array_scale_sub(D, A, B, s);
        else if (op == "adv1") array_advance(D, A); else if (op == "adv2") array_advance(D, A, s); else if (op == "adv3") array_advance(D, A, B, s);
        else if (op == "ret1") array_retreat(D, A); else if (op == "ret2") array_retreat(D, A, s); else if (op == "ret3") array_retreat(D, A, B, s);
        else if (op == "sum") { if constexpr (!v3) ret = "[" + std::to_string(Q(array_sum(A))) + "]"; else abort(); }
        else if (op == "dot2" || op == "dot3") {
            if constexpr (!v3) { auto x = op == "dot2" ? array_dot(A, B) : array_dot(A, B, D); ret = "[" + std::to_string(Q(x)) + "]"; } else abort();
        } else if (op == "cdot" || op == "contract2" || op == "contract3") {
            if constexpr (v3) {
                SA z; z.resize(A.size());
                if (op == "cdot") { coord_dot(z, A, B); ret = flat(z); }
                else if (op == "contract2") ret = "[" + std::to_string(Q(coord_contract_to_scalar(A, B))) + "]";
                else { for (size_t i = 0; i < z.size(); ++i) z[i] = S((int)i + c); ret = "[" + std::to_string(Q(coord_contract_to_scalar(z, A, B))) + "]"; }
            } else abort();
        } else abort();
        std::cout << (o ? "," : "") << "{\"op\":\"" << op << "\",\"d\":" << d << ",\"a\":" << a << ",\"b\":" << b << ",\"c\":" << c << ",\"e\":" << e << ",\"w\":" << (v3 ? 3 : 1) << ",\"ret\":" << ret
                  << ",\"pre\":" << pre << "],\"st\":[" << flat(r[1]) << "," << flat(r[2]) << "," << flat(r[3]) << "]}";
    }
}
int main(int, char **argv) {
    std::ifstream f(argv[1]);
    std::string line, k, ty;
    while (std::getline(f, line)) {
        std::istringstream in(line);
        in >> k >> ty;
        std::cout << "{\"k\":\"" << k << "\",\"ev\":[";
        if (k == "V") {
            if (ty == "i") vec<int>(in); else if (ty == "f") vec<float>(in); else if (ty == "d") vec<double>(in); else if (ty == "l") vec<long double>(in); else abort();
        } else {
            using Ty = Types<double, Vec3>;
            if (ty == "sd") arr<Ty::ScalarArray, double, Ty::ScalarArray>(in);
            else if (ty == "sv") arr<std::vector<double>, double, std::vector<double>>(in);
            else if (ty == "si") arr<std::vector<int>, int, std::vector<int>>(in);
            else if (ty == "vd") arr<Ty::VectorArray, double, Ty::ScalarArray>(in);
            else if (ty == "vv") arr<std::vector<Vec3<long double>>, long double, std::vector<long double>>(in);
            else if (ty == "vi") arr<std::vector<Vec3<int>>, int, std::vector<int>>(in);
            else abort();
        }
        std::cout << "]}" << std::endl;
    }
}

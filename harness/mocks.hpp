// Integer valued mock forces.  -DFS=<number> selects the set, INTERNAL names the internal force.
#pragma once
template <typename A, typename M, typename O>
void attract(A const &x, M const &m, O &acc) {
    size_t n = m.size();
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            acc[i].x += double(m[j]) * (double(x[j].x) - double(x[i].x));
            acc[i].y += double(m[j]) * (double(x[j].y) - double(x[i].y));
            acc[i].z += double(m[j]) * (double(x[j].z) - double(x[i].z));
        }
}
// chain systems hold their coordinates twice; pair forces take those of the chain, as the real ones do
template <typename P, typename = void>
struct Linked : std::false_type {};
template <typename P>
struct Linked<P, std::void_t<decltype(std::declval<P const &>().chain_pos()), decltype(std::declval<P const &>().chain_vel()), decltype(std::declval<P const &>().index())>> : std::true_type {};
template <typename C, typename I>
auto along(C const &chain, I const &index) {  // relative to the head of the chain
    std::vector<hub::Vec3<double>> x(index.size(), hub::Vec3<double>(0, 0, 0));
    for (size_t k = 0; k + 1 < index.size(); ++k) {
        auto const &a = x[index[k]];
        x[index[k + 1]] = hub::Vec3<double>(a.x + double(chain[k].x), a.y + double(chain[k].y), a.z + double(chain[k].z));
    }
    return x;
}
struct Inner {
    static constexpr bool vel_dependent{false};
    template <typename P>
    static void add_acc_to(P const &p, typename P::VectorArray &acc) {
        if constexpr (Linked<P>::value) attract(along(p.chain_pos(), p.index()), p.mass(), acc);
        else attract(p.pos(), p.mass(), acc);
    }
};
struct Field {
    static constexpr bool vel_dependent{false};
    template <typename P>
    static void add_acc_to(P const &p, typename P::VectorArray &acc) {
        for (size_t i = 0; i < p.number(); ++i) acc[i].x += 1.0 * (i + 1), acc[i].y += -2.0 * (i + 1), acc[i].z += 3.0 * (i + 1);
    }
};
struct Trap {
    static constexpr bool vel_dependent{false};
    template <typename P>
    static void add_acc_to(P const &p, typename P::VectorArray &acc) {
        for (size_t i = 0; i < p.number(); ++i) acc[i].x -= double(p.pos()[i].x), acc[i].y -= double(p.pos()[i].y), acc[i].z -= double(p.pos()[i].z);
    }
};
struct Drag {
    static constexpr bool vel_dependent{true};
    template <typename P>
    static void add_acc_to(P const &p, typename P::VectorArray &acc) {
        for (size_t i = 0; i < p.number(); ++i) acc[i].x -= double(p.vel()[i].x), acc[i].y -= double(p.vel()[i].y), acc[i].z -= double(p.vel()[i].z);
    }
};
struct Shear {
    static constexpr bool vel_dependent{true};
    template <typename P>
    static void add_acc_to(P const &p, typename P::VectorArray &acc) {
        if constexpr (Linked<P>::value) attract(along(p.chain_vel(), p.index()), p.mass(), acc);
        else attract(p.vel(), p.mass(), acc);
    }
};
#if FS == 0
using Force = force::Interactions<INTERNAL>;
#define FN "[]"
#elif FS == 1
using Force = force::Interactions<INTERNAL, Field>;
#define FN "[\"field\"]"
#elif FS == 2
using Force = force::Interactions<INTERNAL, Trap, Field>;
#define FN "[\"trap\",\"field\"]"
#elif FS == 3
using Force = force::Interactions<INTERNAL, Drag>;
#define FN "[\"drag\"]"
#elif FS == 4
using Force = force::Interactions<INTERNAL, Drag, Field>;
#define FN "[\"drag\",\"field\"]"
#elif FS == 5
using Force = force::Interactions<INTERNAL, Trap, Shear, Drag>;
#define FN "[\"trap\",\"shear\",\"drag\"]"
#endif


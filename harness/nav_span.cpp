// spans over named axes: every storage order x request order
#include "nav.hpp"
namespace
{
template <int A>
using D = lazy::dir_bounds<A>;

template <int A>
D<A> rd(Reader& r)
{
    int f = r(), l = r(), s = r();
    return {f, l, s};
}

template <typename, typename>
struct spans;
template <int... O, int... R>
struct spans<std::integer_sequence<int, O...>, std::integer_sequence<int, R...>> {
    static std::string nm(const char* p)
    {
        return p + (std::string{} + ... + std::to_string(O)) + "_" +
               (std::string{} + ... + std::to_string(R));
    }
    // params: mode (0 plain, 1 ghost width), gcw, then per storage axis lo hi 1, per request axis lo hi st
    static void go(const char* id, int n, Reader r)
    {
        int gcw = r();
        std::tuple<D<O>...> sb{rd<O>(r)...};
        std::tuple<D<R>...> rb{rd<R>(r)...};
        int total = 1;
        std::apply([&](auto... b) { ((total *= (b.ub() - b.lb() + 1 + 2 * std::max(gcw, 0))), ...); }, sb);
        OffsetMemory mem(total);
        auto sp = std::apply(
            [&](auto... b) {
                return gcw < 0 ? make_md_span(mem.base(), b...)
                               : make_md_span(mem.base(), gcw, b...);
            },
            sb);
        auto it = std::apply([&](auto... b) { return sp(b...); }, rb);
        drive(id, it, n, it.size(), Elem1{});
        // the same through a read-only array
        const int* cp = mem.base();
        auto csp = std::apply(
            [&](auto... b) {
                return gcw < 0 ? make_md_span(cp, b...) : make_md_span(cp, gcw, b...);
            },
            sb);
        auto cit = std::apply([&](auto... b) { return csp(b...); }, rb);
        std::string cid = std::string(id) + "c";
        drive(cid.c_str(), cit, n, cit.size(), Elem1{});
    }
    static void reg() { Register(nm("span"), go); }
};
template <int... I>
using S = std::integer_sequence<int, I...>;
constexpr int K = 0, J = 1, I = 2, W = 3;

template <typename O, typename... R>
void reg_all()
{
    (spans<O, R>::reg(), ...);
}
template <typename O>
void reg6()
{
    reg_all<O, S<K, J, I>, S<K, I, J>, S<J, K, I>, S<J, I, K>, S<I, K, J>, S<I, J, K>>();
}
struct Init {
    Init()
    {
#if PART == 1
        reg_all<S<I>, S<I>>();
        reg_all<S<J, I>, S<J, I>, S<I, J>>();
        reg_all<S<I, J>, S<J, I>, S<I, J>>();
        reg6<S<K, J, I>>();
        reg6<S<K, I, J>>();
        reg_all<S<K, J, I, W>, S<K, J, I, W>, S<W, I, J, K>, S<I, W, K, J>, S<J, K, W, I>>();
#else
        reg6<S<J, K, I>>();
        reg6<S<J, I, K>>();
        reg6<S<I, K, J>>();
        reg6<S<I, J, K>>();
        reg_all<S<I, W>, S<I, W>, S<W, I>>();
        reg_all<S<W, I>, S<I, W>, S<W, I>>();
#endif
    }
} init;
} // namespace

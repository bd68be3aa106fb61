// coarse-to-fine views, offset views, window views
#include "nav.hpp"
namespace
{
template <int A>
using D = lazy::dir_bounds<A>;
template <int A>
D<A> rd(Reader& r)
{
    int f = r(), l = r();
    return {f, l};
}
template <int... I>
using S = std::integer_sequence<int, I...>;
constexpr int K = 0, J = 1, I = 2, W = 3;

// fine<Storage, Others, Axis>: params gcw, storage lo hi..., ratio, coarse point per other axis, f0
template <typename, typename, int>
struct coarse;
template <int... O, int... C, int A>
struct coarse<S<O...>, S<C...>, A> {
    // other axes are singleton ranges on the fine side
    static void go(const char* id, int n, Reader r)
    {
        int gcw = r();
        std::tuple<D<O>...> sb{rd<O>(r)...};
        int ratio = r();
        int cpt[4] = {0, 0, 0, 0};
        ((cpt[C] = r()), ...);
        int f0 = r();
        int total = 1;
        std::apply([&](auto... b) { ((total *= (b.ub() - b.lb() + 1 + 2 * std::max(gcw, 0))), ...); }, sb);
        OffsetMemory mem(total);
        auto sp = std::apply([&](auto... b) { return make_md_span(mem.base(), gcw, b...); }, sb);
        auto f = sp.fine(ratio, D<C>{cpt[C], cpt[C]}...);
        auto fb = [&](auto a) {
            constexpr int X = decltype(a)::value;
            if constexpr (X == A)
                return D<A>{f0, f0 + n - 1};
            else
                return D<X>{7, 7};
        };
        auto it = f(fb(std::integral_constant<int, O>{})...);
        drive(id, it, n, n, Elem1{});
    }
    static void reg()
    {
        Register("coarse" + (std::string{} + ... + std::to_string(O)) + "_" +
                     std::to_string(A) + "_" + (std::string{} + ... + std::to_string(C)),
                 go);
    }
};

template <int N>
void reg_off()
{
    // params: base, strides[N], rows n, table n*N
    Register("offset" + std::to_string(N), [](const char* id, int n, Reader r) {
        int base = r();
        int st[N];
        r.arr(st);
        std::vector<int> tab(n * N + N, 1000003);
        for (int i = 0; i < n * N; i++) tab[i] = r();
        auto it = make_offset_iterator(thrust::counting_iterator<int>(base), st,
                                       thrust::device_ptr<int>(tab.data()));
        drive(id, it, n, n, Elem1{});
    });
}

// window views: array over (axes..., W), requested order of the axes
template <typename, typename>
struct win;
template <int... O, int... R>
struct win<S<O...>, S<R...>> {
    static void go(const char* id, int n, Reader r)
    {
        std::tuple<D<O>...> sb{rd<O>(r)...};
        int w0 = r(), w1 = r();
        Wb w{w0, w1};
        auto rs = [&](auto a) {
            constexpr int X = decltype(a)::value;
            int f = r(), l = r(), s = r();
            return D<X>{f, l, s};
        };
        std::tuple<D<R>...> rb{rs(std::integral_constant<int, R>{})...};
        int total = w1 - w0 + 1;
        std::apply([&](auto... b) { ((total *= (b.ub() - b.lb() + 1)), ...); }, sb);
        OffsetMemory mem(total);
        auto sp = std::apply([&](auto... b) { return make_md_span(mem.base(), b..., w); }, sb);
        auto it = std::apply([&](auto... b) { return sp.window()(b...); }, rb);
        drive<false>(id, it, n, it.size(), ElemW{w1 - w0 + 1});
    }
    static void reg()
    {
        Register("window" + (std::string{} + ... + std::to_string(O)) + "_" +
                     (std::string{} + ... + std::to_string(R)),
                 go);
    }
};
struct Init {
    Init()
    {
        coarse<S<I>, S<>, I>::reg();
        coarse<S<J, I>, S<J>, I>::reg();
        coarse<S<J, I>, S<I>, J>::reg();
        coarse<S<I, J>, S<J>, I>::reg();
        coarse<S<I, J>, S<I>, J>::reg();
        coarse<S<K, J, I>, S<K, J>, I>::reg();
        coarse<S<K, J, I>, S<K, I>, J>::reg();
        coarse<S<K, J, I>, S<J, I>, K>::reg();
        coarse<S<K, J, I>, S<J, K>, I>::reg();
        coarse<S<K, J, I>, S<I, K>, J>::reg();
        coarse<S<J, I, K>, S<K, J>, I>::reg();
        coarse<S<J, I, K>, S<I, K>, J>::reg();
        coarse<S<I, K, J>, S<J, I>, K>::reg();
        reg_off<1>(); reg_off<2>(); reg_off<3>();
        win<S<I>, S<I>>::reg();
        win<S<J, I>, S<J, I>>::reg();
        win<S<K, J, I>, S<K, J, I>>::reg();
        win<S<J, I, K>, S<J, I, K>>::reg();
        win<S<J, I>, S<I, J>>::reg();
        win<S<K, J, I>, S<I, J, K>>::reg();
        win<S<I, K, J>, S<K, J, I>>::reg();
        win<S<J, I, K>, S<K, J, I>>::reg();
    }
} init;
} // namespace

// sub-blocks, permutations and pair views over an address-valued base iterator
#include "nav.hpp"
namespace
{
using Cnt = thrust::counting_iterator<int>;

template <int N>
auto sub(Reader& r)
{
    int sz[N], lb[N], ub[N], stm[N];
    r.arr(sz); r.arr(lb); r.arr(ub); r.arr(stm);
    return make_submatrix(Cnt(0), sz, lb, ub, stm);
}
template <int... I>
auto tr(Reader& r)
{
    int sz[sizeof...(I)];
    r.arr(sz);
    return make_transpose<I...>(Cnt(0), sz);
}

template <int N>
void reg_sub()
{
    Register("sub" + std::to_string(N), [](const char* id, int n, Reader r) {
        auto it = sub<N>(r);
        drive(id, it, n, it.size(), Elem1{});
    });
}
template <int N, int I>
void reg_subpair()
{
    Register("subpair" + std::to_string(N) + "_" + std::to_string(I),
             [](const char* id, int n, Reader r) {
                 auto it = sub<N>(r).template stencil<I>();
                 drive(id, it, n, it.size(), Elem2{});
             });
}
template <int N>
void reg_subpairR()
{
    Register("subpairR" + std::to_string(N), [](const char* id, int n, Reader r) {
        int I = r();
        auto it = sub<N>(r).stencil(I);
        drive(id, it, n, it.size(), Elem2{});
    });
}
template <int... I>
void reg_tr()
{
    std::string nm = (std::string{} + ... + std::to_string(I));
    Register("tr" + nm, [](const char* id, int n, Reader r) {
        auto it = tr<I...>(r);
        drive(id, it, n, it.size(), Elem1{});
    });
}
template <int A, int... I>
void reg_trpair()
{
    std::string nm = (std::string{} + ... + std::to_string(I));
    Register("trpair" + nm + "_" + std::to_string(A), [](const char* id, int n, Reader r) {
        auto it = tr<I...>(r).template stencil<A>();
        drive(id, it, n, it.size(), Elem2{});
    });
}
struct Init {
    Init()
    {
#if PART == 1
        reg_sub<1>(); reg_sub<2>(); reg_sub<3>(); reg_sub<4>();
        reg_tr<0, 1>(); reg_tr<1, 0>();
        reg_tr<0, 1, 2>(); reg_tr<0, 2, 1>(); reg_tr<1, 0, 2>();
        reg_tr<1, 2, 0>(); reg_tr<2, 0, 1>(); reg_tr<2, 1, 0>();
        reg_tr<0, 1, 2, 3>(); reg_tr<3, 2, 1, 0>(); reg_tr<1, 3, 0, 2>(); reg_tr<2, 3, 1, 0>();
#else
        reg_subpair<1, 0>();
        reg_subpair<2, 0>(); reg_subpair<2, 1>();
        reg_subpair<3, 0>(); reg_subpair<3, 1>(); reg_subpair<3, 2>();
        reg_subpair<4, 0>(); reg_subpair<4, 1>(); reg_subpair<4, 2>(); reg_subpair<4, 3>();
        reg_subpairR<1>(); reg_subpairR<2>(); reg_subpairR<3>(); reg_subpairR<4>();
        reg_trpair<0, 1, 0>(); reg_trpair<1, 1, 0>();
        reg_trpair<0, 1, 2, 0>(); reg_trpair<1, 1, 2, 0>(); reg_trpair<2, 1, 2, 0>();
        reg_trpair<0, 2, 0, 1>(); reg_trpair<1, 2, 0, 1>(); reg_trpair<2, 2, 1, 0>();
        reg_trpair<1, 2, 3, 1, 0>();
#endif
    }
} init;
} // namespace

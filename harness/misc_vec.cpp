// Owning arrays: index, sizes, host/device coherence; range algebra.
#include "misc.hpp"
#include "md_device_vector.hpp"
#include <memory>

// ------------------------------------------------------------ range algebra
template <typename B, bool Dir>
B apply(int code, const B& b, int k)
{
    if constexpr (Dir) {
        switch (code) {
        case 0: { B c{b}; c += k; return c; }
        case 1: return b - k;
        case 2: return b + k;
        case 3: return b.expand(k);
        case 4: return b.shift(k);
        case 5: return b.unit_stride();
        case 9: { const bounds& p = b; return B(p.expand(k)); }
        }
    } else {
        switch (code) {
        case 0: return b + k;
        case 1: return b - k;
        case 3:
        case 9: return b.expand(k);
        // not offered by plain ranges: done on an axis range and converted back
        case 2: { lazy::dir_bounds<1> d{b}; return d + k; }
        case 4: { lazy::dir_bounds<0> d{b}; return d.shift(k); }
        case 5: { lazy::dir_bounds<2> d{b}; return d.unit_stride(); }
        }
    }
    return b;
}
template <typename B, bool Dir>
void bounds_walk(int id)
{
    std::vector<B> r;
    for (int m = 0; m < 4; m++) {
        int lo = in(), hi = in(), st = in();
        if (m % 2)
            r.push_back(B(lo, hi + 1, st, false));
        else if (st == 1)
            r.push_back(B(lo, hi));
        else
            r.push_back(B(lo, hi, st));
    }
    int n = in();
    printf("B %d\n", id);
    for (int q = 0; q <= n; q++) {
        if (q) {
            int c = in(), t = in() - 1, s = in() - 1, k = in();
            if (c == 7)
                r[t] += k;
            else if (c == 8)
                r[t] -= k;
            else
                r[t] = apply<B, Dir>(c, r[s], k);
        }
        for (auto& b : r) printf("%d %d %d %d ", b.lb(), b.ub(), b.stride, b.size());
        printf("\n");
    }
}

void bounds_walks(int id) { in() ? bounds_walk<lazy::dir_bounds<2>, true>(id) : bounds_walk<bounds, false>(id); }

template <int A>
using D = lazy::dir_bounds<A>;
template <typename V, size_t... S>
int call_index(const V& v, const int* c, std::index_sequence<S...>) { return v.index(c[S]...); }
using Mk = std::function<AnyVec(int, const int*, const int*)>;
static std::map<std::string, Mk>& mk()
{
    static std::map<std::string, Mk> m;
    return m;
}
template <int... O>
struct VecCase {
    static AnyVec go(int g, const int* lo, const int* hi)
    {
        constexpr int N = sizeof...(O);
        auto v = std::make_shared<md_device_vector<int, O...>>(
            g < 0 ? make_md_vec<int>(D<O>{lo[O], hi[O]}...) : make_md_vec<int>(g, D<O>{lo[O], hi[O]}...));
        AnyVec a;
        a.data = v->data();
        a.size = v->size();
        for (int m = 0; m < N; m++) a.dims.push_back(v->dim(m));
        a.index = [v](const int* c) { return call_index(*v, c, std::make_index_sequence<N>{}); };
        a.late_host_size = [v]() { return (int)v->host().size(); };
        return a;
    }
    static void reg() { mk()[(std::string{} + ... + std::to_string(O))] = go; }
};
AnyVec make_any(const std::string& order, int g, const int* lo, const int* hi)
{
    static bool once = [] {
        ORDERS(VecCase)
        return true;
    }();
    return mk().at(order)(g, lo, hi);
}

// ------------------------------------------------------------ host/device
struct HdBase {
    virtual void run(int nops) = 0;
    virtual ~HdBase() {}
};
template <typename V, typename T>
struct Hd {
    std::vector<V> a;
    std::function<V(int)> make;
    bool table; // int offset table: set_offset available
    int cols;
    static double num(double x) { return x; }
    template <typename R>
    void show(const R* p, int n)
    {
        printf("O %d", n);
        for (int i = 0; i < n; i++) {
            double x = static_cast<double>(p[i]);
            // integers as they are; random reals as a 20-bit fixed-point image
            if (x == std::floor(x))
                printf(" %d", static_cast<int>(x));
            else
                printf(" %d", static_cast<int>(std::floor(x * 1048576.0)) + (1 << 28));
        }
        printf("\n");
    }
    void run(int nops)
    {
        for (int q = 0; q < nops; q++) {
            int c = in(), x = in(), y = in(), k = in(), val = in();
            V& v = a[x];
            switch (c) {
            case 0: v.data()[k] = static_cast<T>(val); printf("O -1\n"); break;
            case 1: {
                const V& cv = v;
                const T* p = cv.data();
                show(p, v.size());
                break;
            }
            case 2: { const auto& h = v.host(); show(thrust::raw_pointer_cast(h.data()), h.size()); break; }
            case 3: { std::vector<T> u = v; show(u.data(), u.size()); break; }
            case 4:
                if (y == 1) v.fill_random(); // between 0 and 1
                else if (y == 2) v.fill_random(static_cast<T>(k)); // between k and 1
                else v.fill_random(static_cast<T>(k), static_cast<T>(val));
                printf("O -1\n"); break;
            case 5:
                if constexpr (std::is_same_v<T, int>) {
                    if (cols == 1) v.set_offset(k, val);
                    if (cols == 2) v.set_offset(k, val, val + 1);
                    if (cols == 3) v.set_offset(k, val, val + 1, val + 2);
                }
                printf("O -1\n");
                break;
            case 6: a[y] = a[x]; printf("O -1\n"); break;
            case 7: { V t(a[x]); a[y] = std::move(t); printf("O -1\n"); break; }
            case 8: a[x] = make(x); printf("O -1\n"); break;
            case 9: printf("O 1 %d\n", v.size()); break;
            case 10: { T* p = v.data(); for (int i = 0; i < v.size(); i++) p[i] = static_cast<T>(val + i); printf("O -1\n"); break; }
            case 11: std::swap(a[x], a[y]); printf("O -1\n"); break;
            default: std::cerr << "protocol: op\n"; exit(3);
            }
        }
    }
};

template <typename V, typename T, typename F>
void hd_run(F make, bool table, int cols, int nops)
{
    Hd<V, T> h;
    h.table = table;
    h.cols = cols;
    h.make = [&](int x) { return make(x); };
    for (int x = 0; x < 3; x++) h.a.push_back(make(x));
    h.run(nops);
}

void host_device(int kind, int e1, int e2, int nops)
{
    if (kind == 0)
        hd_run<md_device_vector<double, 1, 2>, double>(
            [=](int x) { return make_md_vec<double>(1, Jb{-1, e1 - 4}, Ib{3, e2}); }, false, 0, nops);
    else if (kind == 1)
        hd_run<md_device_vector<int, 3, 2>, int>([=](int x) { return make_offset_vec(e1, e2); }, true, e2, nops);
    else
        hd_run<md_device_vector<float, 2, 3>, float>(
            [=](int x) { return make_md_vec<float>(Ib{-2, e1 - 3}, Wb{0, e2 - 1}); }, false, 0, nops);
}

// Views: the element at a coordinate and the traversal of the whole box.
#include "misc.hpp"
#include "md_device_span.hpp"

template <int A>
using D = lazy::dir_bounds<A>;
using IdxFn = std::function<void(int)>;
std::map<std::string, IdxFn> idx;
template <typename V, size_t... S>
int call_at(V& v, const int* c, std::index_sequence<S...>) { return v.at(c[S]...); }

template <int N, typename V, typename S>
void probes(int id, V& v, S& s)
{
    auto whole = std::apply([&](auto... b) { return s(b...); }, s.dir_bounds());
    printf("I %d %d", id, v.size);
    for (int m = 0; m < N; m++) printf(" %d", v.dims[m]);
    printf(" %d %d\n", v.late_host_size(), (int)whole.size());
    int np = in();
    for (int m = 0; m < np; m++) {
        int c[N];
        for (int& x : c) x = in();
        int ix = v.index(c), at = call_at(s, c, std::make_index_sequence<N>{});
        // where the traversal of the whole box visits that element
        int tr = -1;
        auto it = whole;
        for (int w = 0; w < whole.size(); w++, ++it)
            if (*it == at) tr = tr < 0 ? w : -2;
        printf("%d %d %d\n", ix, at, tr);
    }
}

// an offset table as a span: rows by columns
template <typename T>
void table_case(int id)
{
    int g = in(), lo[4], hi[4];
    lo[3] = in(); hi[3] = in(); lo[2] = in(); hi[2] = in();
    AnyVec v = make_any("32", g, lo, hi);
    for (int m = 0; m < v.size; m++) v.data[m] = m;
    T* p = v.data;
    auto s = make_offset_span(p, hi[3] - lo[3] + 1, hi[2] - lo[2] + 1);
    probes<2>(id, v, s);
}

template <int... O>
struct IndexCase {
    static void go(int id)
    {
        constexpr int N = sizeof...(O);
        int g = in();
        int lo[4], hi[4];
        for (int a : {O...}) {
            lo[a] = in();
            hi[a] = in();
        }
        AnyVec v = make_any((std::string{} + ... + std::to_string(O)), g, lo, hi);
        int* p = v.data;
        for (int m = 0; m < v.size; m++) p[m] = m;
        auto s = g < 0 ? make_md_span(p, D<O>{lo[O], hi[O]}...)
                       : make_md_span(p, g, D<O>{lo[O], hi[O]}...);
        probes<N>(id, v, s);
    }
    static void reg() { idx[(std::string{} + ... + std::to_string(O))] = go; }
};

int main()
{
    ORDERS(IndexCase)
    idx["t0"] = table_case<const int>; // counted from 0
    idx["t1"] = table_case<int>;       // counted from 1
    std::string k;
    while (std::cin >> k) {
        int id = in();
        if (k == "B") {
            bounds_walks(id);
        } else if (k == "I") {
            std::string nm;
            std::cin >> nm;
            auto f = idx.find(nm);
            if (f == idx.end()) exit(3);
            f->second(id);
        } else if (k == "H") {
            int kind = in(), e1 = in(), e2 = in(), nops = in();
            printf("H %d\n", id);
            host_device(kind, e1, e2, nops);
        } else
            return 3;
        fflush(stdout);
    }
    printf("DONE\n");
}

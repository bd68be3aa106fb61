// The schedule in force: how points are dealt to workers and who moves next.
#pragma once
#include <algorithm>
#include <istream>
#include <vector>
namespace verif
{
struct Sched {
    int workers = 1;
    int deal = 0;  // 0 contiguous chunks, 1 round robin, 2 chunks run backwards, 3 blocks of three dealt round robin, 4 scattered
    int walk = 0;  // 1: a worker moves its own cursor; 0: every point is reached by a jump from the start
    int split = 0; // 1: a point's reads and its write are separate steps
    std::vector<int> picks;
    long launches = 0, reads = 0, writes = 0;
    void read(std::istream& is)
    {
        int n;
        is >> workers >> deal >> walk >> split >> n;
        picks.resize(n);
        for (int& x : picks) is >> x;
    }
};
inline Sched& sched()
{
    static Sched s;
    return s;
}
inline std::vector<std::vector<long>> partition(const Sched& S, long n)
{
    const long T = S.workers;
    std::vector<std::vector<long>> r(T);
    if (S.deal == 1) {
        for (long i = 0; i < n; i++) r[i % T].push_back(i);
    } else if (S.deal == 3) {
        for (long i = 0; i < n; i++) r[(i / 3) % T].push_back(i);
    } else if (S.deal == 4) {
        // a multiplicative shuffle of the points
        long g = 7;
        auto gcd = [](long a, long b) {
            while (b) {
                long t = a % b;
                a = b;
                b = t;
            }
            return a;
        };
        while (gcd(g, n) != 1) g += 2;
        for (long i = 0; i < n; i++) r[i % T].push_back((i * g) % n);
    } else {
        const long c = (n + T - 1) / T;
        for (long i = 0; i < n; i++) r[i / c].push_back(i);
        if (S.deal == 2)
            for (auto& v : r) std::reverse(v.begin(), v.end());
    }
    return r;
}
// the worker that moves next: the picked one, or the next after it with work left
inline size_t choose(const Sched& S, size_t k, const std::vector<size_t>& at, const std::vector<std::vector<long>>& l)
{
    size_t w = S.picks.empty() ? 0 : S.picks[k % S.picks.size()] % l.size();
    while (at[w] >= l[w].size()) w = (w + 1) % l.size();
    return w;
}
} // namespace verif

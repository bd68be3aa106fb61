// Stands in for thrust's OpenMP for_each: the same interface, but the points of the
// range are run by simulated workers in exactly the order a given schedule says
// (spec/SchedGen.tla).  Found before the installed header through the include path.
#pragma once
#include <memory>
#include <thrust/detail/config.h>
#include <thrust/detail/function.h>
#include <thrust/distance.h>
#include <thrust/iterator/iterator_traits.h>
#include <thrust/detail/static_assert.h>
#include <thrust/system/omp/detail/for_each.h>
#include <thrust/system/omp/detail/pragma_omp.h>
#include "sched/sched.hpp"

THRUST_NAMESPACE_BEGIN
namespace system
{
namespace omp
{
namespace detail
{
template <typename It>
struct verif_latched {
    It it;
    decltype(*std::declval<It&>()) ref; // what the point reads when it is dereferenced
    explicit verif_latched(const It& x) : it(x), ref(*it) {}
};

template <typename DerivedPolicy, typename It, typename Size, typename F>
It for_each_n(execution_policy<DerivedPolicy>&, It first, Size n, F f)
{
    if (n <= 0) return first;
    thrust::detail::wrapped_function<F, void> wrapped_f(f);
    using Diff = typename thrust::iterator_difference<It>::type;
    auto& S = verif::sched();
    auto lists = verif::partition(S, (long)n);
    const size_t T = lists.size();
    std::vector<size_t> at(T, 0);
    std::vector<std::unique_ptr<verif_latched<It>>> open(T);
    std::vector<std::unique_ptr<It>> cur(T); // a worker's own moving cursor
    std::vector<long> cpos(T, 0);
    size_t left = (size_t)n, pick = 0;
    while (left) {
        size_t w = verif::choose(S, pick++, at, lists);
        const long p = lists[w][at[w]];
        if (!open[w]) {
            if (S.walk && cur[w]) {
                const long d = p - cpos[w];
                if (d == 1)
                    ++*cur[w];
                else if (d == -1)
                    --*cur[w];
                else
                    *cur[w] += Diff(d);
            } else
                cur[w].reset(new It(first + Diff(p)));
            cpos[w] = p;
            open[w].reset(new verif_latched<It>(*cur[w]));
            S.reads++;
            if (S.split) continue; // others may run between this point's read and its write
        }
        wrapped_f(static_cast<decltype(open[w]->ref)&&>(open[w]->ref));
        open[w].reset();
        S.writes++;
        at[w]++;
        left--;
    }
    S.launches++;
    return first + n;
}

template <typename DerivedPolicy, typename It, typename F>
It for_each(execution_policy<DerivedPolicy>& s, It first, It last, F f)
{
    return omp::detail::for_each_n(s, first, thrust::distance(first, last), f);
}
} // namespace detail
} // namespace omp
} // namespace system
THRUST_NAMESPACE_END

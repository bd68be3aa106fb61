// Shared by misc_vec.cpp (owning arrays) and misc_span.cpp (views): the two headers of the
// library cannot be included in one translation unit.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <string>
#include <vector>

inline int in()
{
    int x;
    if (!(std::cin >> x)) {
        std::cerr << "protocol: input\n";
        exit(3);
    }
    return x;
}


// an owning array with its type erased
struct AnyVec {
    int* data;
    int size, host_size;
    std::vector<int> dims;
    std::function<int(const int*)> index;
    std::function<int()> late_host_size;
};
AnyVec make_any(const std::string& order, int g, const int* lo, const int* hi);
void host_device(int kind, int e1, int e2, int nops);
void bounds_walks(int id);
#define ORDERS(C)                                                                        \
    C<0>::reg(); C<2>::reg(); C<3>::reg();                                               \
    C<1, 2>::reg(); C<2, 1>::reg(); C<0, 2>::reg(); C<3, 2>::reg(); C<2, 3>::reg();      \
    C<0, 1, 2>::reg(); C<0, 2, 1>::reg(); C<1, 0, 2>::reg(); C<1, 2, 0>::reg();          \
    C<2, 0, 1>::reg(); C<2, 1, 0>::reg(); C<1, 2, 3>::reg(); C<0, 1, 2, 3>::reg();       \
    C<3, 1, 0, 2>::reg();

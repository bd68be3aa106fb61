// Drives walks of the Cursor machine (spec/WalkGen.tla) through a real view
// and prints what the view answered.  Only the public iterator interface is used.
#pragma once
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include <thrust/device_ptr.h>
#include <thrust/iterator/counting_iterator.h>

#include "md_device_span.hpp"
#include "submatrix_iterator.hpp"
#include "transpose_iterator.hpp"

using ints = std::vector<int>;
struct Walk {
    std::vector<std::pair<int, int>> ops;
};
struct Reader {
    const ints& a;
    size_t p = 0;
    int operator()() { return a.at(p++); }
    template <size_t N>
    void arr(int (&x)[N])
    {
        for (size_t i = 0; i < N; i++) x[i] = (*this)();
    }
};

extern std::vector<std::vector<Walk>> walk_lists;
extern int current_list;

// element printers
struct Elem1 {
    template <typename It>
    void operator()(const It& it, ints& o) const { o.push_back(static_cast<int>(*it)); }
    template <typename It>
    void at(const It& it, int k, ints& o) const { o.push_back(static_cast<int>(it[k])); }
};
struct Elem2 {
    template <typename It>
    void operator()(const It& it, ints& o) const
    {
        auto v = *it;
        o.push_back(static_cast<int>(v.a));
        o.push_back(static_cast<int>(v.b));
    }
    template <typename It>
    void at(const It& it, int k, ints& o) const { (*this)(it + k, o); }
};
struct ElemW {
    int w;
    template <typename It>
    void operator()(const It& it, ints& o) const
    {
        auto p = *it;
        for (int i = 0; i < w; i++) o.push_back(static_cast<int>(p[i]));
    }
    template <typename It>
    void at(const It& it, int k, ints& o) const { (*this)(it + k, o); }
};

// Window views are only ever moved and dereferenced by the library (their comparison
// operators cannot be instantiated), so Rel = false observes just the element.
template <bool Rel, typename It, typename Elem>
void observe(const It& x, int p, int n, const It& b, const It& e, const It& r,
             const Elem& elem, ints& o)
{
    if constexpr (Rel) {
        o.push_back(static_cast<int>(x - b));
        o.push_back(static_cast<int>(e - x));
        o.push_back(static_cast<int>(x - r));
        int bits = (x == b ? 1 : 0) | (x == e ? 2 : 0) | (x == r ? 4 : 0);
        if ((x == b) == (x != b) || (x == e) == (x != e)) bits |= 64;
        if (x < e) bits |= 8;
        if (x < r) bits |= 16;
        if ((x < e) != (e > x) || (x < e) == (x >= e) || (e < x) == (x <= e)) bits |= 128;
        o.push_back(bits);
    }
    if (p < n) elem(x, o);
}

template <bool Rel = true, typename It, typename Elem>
void drive(const char* id, It begin, int n, int reported, const Elem& elem)
{
    const It end = begin + n;
    std::printf("T %s %d\n", id, reported);
    for (auto&& w : walk_lists.at(current_list)) {
        It it = begin, reg = begin;
        int pos = 0, rpos = 0;
        std::string line = "W";
        for (auto&& [op, k] : w.ops) {
            ints o;
            switch (op) {
            case 0: {
                if (pos % 2) ++it; else it++;
                ++pos;
                break;
            }
            case 1: {
                if (pos % 2) --it; else it--;
                --pos;
                break;
            }
            case 2:
                if (k < 0 && pos % 2) it -= -k; else it += k;
                pos += k;
                break;
            case 3: reg = it; rpos = pos; break;
            case 4: it = reg; pos = rpos; break;
            default: break;
            }
            if (op == 5)
                elem.at(it, k, o);
            else if (op == 6) {
                It y = (k < 0 && pos % 2) ? it - (-k) : it + k;
                observe<Rel>(y, pos + k, n, begin, end, reg, elem, o);
            } else
                observe<Rel>(it, pos, n, begin, end, reg, elem, o);
            for (size_t i = 0; i < o.size(); i++) {
                line += i ? ',' : ' ';
                line += std::to_string(o[i]);
            }
            if (o.empty()) line += " -";
        }
        line += '\n';
        std::fputs(line.c_str(), stdout);
    }
}

// memory in which every element holds its own offset from the base pointer, with wide margins
struct OffsetMemory {
    static constexpr int margin = 1 << 15;
    std::vector<int> m;
    explicit OffsetMemory(int n) : m(n + 2 * margin)
    {
        for (int i = 0; i < (int)m.size(); i++) m[i] = i - margin;
    }
    int* base() { return m.data() + margin; }
};

using ViewFn = std::function<void(const char*, int n, Reader)>;
std::map<std::string, ViewFn>& registry();
struct Register {
    Register(const std::string& name, ViewFn f) { registry()[name] = f; }
};

// Runtime for programs of the lazy expression language: arrays with guard zones,
// domains, scalars and tables read from the case file.  The programs themselves are
// generated (lib/checks/dsl.py) from spec/ProgGen.tla.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <string>
#include <vector>

#include <thrust/device_ptr.h>
#include <thrust/device_vector.h>

#include "md_device_span.hpp"

constexpr int K = lazy::dim::K, J = lazy::dim::J, I = lazy::dim::I, W = lazy::dim::W;
template <int A>
using D = lazy::dir_bounds<A>;

template <typename T>
struct Arr {
    static constexpr int G = 512; // guard elements on each side
    int gcw = -1;
    int lo[4], hi[4], st[4]; // by axis, as declared, before ghost growth
    std::vector<T> buf;
    std::vector<int> as_int; // the same contents as other element types
    std::vector<float> as_float;
    int n = 0;
    T guard(int q) const { return T(7919 + (q * 37) % 1013) + T(0.25); }
    void alloc(int m)
    {
        n = m;
        buf.resize(n + 2 * G);
        for (size_t q = 0; q < buf.size(); q++) buf[q] = guard(q);
    }
    T* data() { return buf.data() + G; }
    bool intact() const
    {
        for (int q = 0; q < G; q++)
            if (buf[q] != guard(q) || buf[n + G + q] != guard(n + G + q)) return false;
        return true;
    }
};

template <typename T>
struct Case {
    std::vector<T> s;
    std::vector<std::vector<int>> tabs;
    std::map<std::string, Arr<T>> arr;
    int lo[4], hi[4], st[4]; // domain of the current event, by axis
    int ratio = 1, at[4];
    template <int A>
    D<A> b() const { return {lo[A], hi[A], st[A]}; }
    template <int A>
    D<A> c() const { return {at[A], at[A]}; }
    template <int... O>
    md_device_span<T, O...> mut(const char* nm)
    {
        auto& a = arr.at(nm);
        if (a.gcw < 0) return make_md_span(a.data(), D<O>{a.lo[O], a.hi[O], a.st[O]}...);
        return make_md_span(a.data(), a.gcw, D<O>{a.lo[O], a.hi[O], a.st[O]}...);
    }
    template <int... O>
    md_device_span<const T, O...> ro(const char* nm)
    {
        auto& a = arr.at(nm);
        const T* p = a.data();
        if (a.gcw < 0) return make_md_span(p, D<O>{a.lo[O], a.hi[O], a.st[O]}...);
        return make_md_span(p, a.gcw, D<O>{a.lo[O], a.hi[O], a.st[O]}...);
    }
    // a read-only array held as integers or in single precision
    template <typename U, int... O>
    md_device_span<const U, O...> ro_as(const char* nm)
    {
        auto& a = arr.at(nm);
        auto& v = [&a]() -> auto& {
            if constexpr (std::is_same_v<U, int>) return a.as_int; else return a.as_float;
        }();
        v.assign(a.buf.begin(), a.buf.end());
        const U* p = v.data() + Arr<T>::G;
        if (a.gcw < 0) return make_md_span(p, D<O>{a.lo[O], a.hi[O], a.st[O]}...);
        return make_md_span(p, a.gcw, D<O>{a.lo[O], a.hi[O], a.st[O]}...);
    }
    thrust::device_ptr<int> tab(int i) { return thrust::device_ptr<int>(tabs.at(i - 1).data()); }
};

#ifdef DSL_FLOAT
using real = float;
#else
using real = double;
#endif
using Fn = void (*)(Case<real>&);
std::map<std::string, Fn>& registry();
struct Reg {
    Reg(const char* n, Fn f) { registry()[n] = f; }
};

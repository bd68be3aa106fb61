// Runs solver kernels on named arrays with guard zones.  Arguments are parsed from
// the case file by the parameter types of the kernel itself.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>

template <typename T>
struct KArr {
    static constexpr int G = 256;
    std::vector<T> buf, prev;
    int n = 0;
    T guard(int q) const { return T(7919 + (q * 37) % 1013) + T(0.25); }
    void alloc(int m)
    {
        n = m;
        buf.resize(n + 2 * G);
        for (size_t q = 0; q < buf.size(); q++) buf[q] = guard(q);
    }
    T* data() { return buf.data() + G; }
    bool intact() const
    {
        for (int q = 0; q < G; q++)
            if (buf[q] != guard(q) || buf[n + G + q] != guard(n + G + q)) return false;
        return true;
    }
};

template <typename T>
struct World {
    std::map<std::string, KArr<T>> arr;
};

// one parsed argument
template <typename T, typename A>
struct Hold;
template <typename T>
struct Hold<T, const int&> {
    int v;
    Hold(World<T>&, std::istream& is) { is >> v; }
    const int& get() { return v; }
};
template <typename T>
struct Hold<T, const T&> {
    T v;
    Hold(World<T>&, std::istream& is)
    {
        double d;
        is >> d;
        v = static_cast<T>(d);
    }
    const T& get() { return v; }
};
template <typename T>
struct Hold<T, const int*> {
    std::vector<int> v;
    Hold(World<T>&, std::istream& is)
    {
        int n;
        is >> n;
        v.resize(n);
        for (int& x : v) is >> x;
    }
    const int* get() { return v.data(); }
};
template <typename T>
struct HoldPtr {
    std::vector<T> v;
    T* p = nullptr;
    HoldPtr(World<T>& w, std::istream& is)
    {
        std::string s;
        is >> s;
        if (s[0] == '@') {
            p = w.arr.at(s.substr(1)).data();
            return;
        }
        int n = std::stoi(s);
        for (int q = 0; q < n; q++) {
            double d;
            is >> d;
            v.push_back(static_cast<T>(d));
        }
        p = v.data();
    }
    T* get() { return p; }
};
template <typename T>
struct Hold<T, const T*> : HoldPtr<T> {
    using HoldPtr<T>::HoldPtr;
};
template <typename T>
struct Hold<T, T*> : HoldPtr<T> {
    using HoldPtr<T>::HoldPtr;
};

template <typename T>
using Call = std::function<void(World<T>&, std::istream&)>;

template <typename T, typename... A>
Call<T> wrap(void (*f)(A...))
{
    return [f](World<T>& w, std::istream& is) {
        std::tuple<Hold<T, A>...> h{Hold<T, A>(w, is)...};
        std::apply([f](auto&... x) { f(x.get()...); }, h);
    };
}

#ifdef KERN_FLOAT
using real = float;
#else
using real = double;
#endif
std::map<std::string, Call<real>>& kernels();
struct KReg {
    KReg(const char* n, Call<real> c) { kernels()[n] = std::move(c); }
};
#define KCAT_(a, b) a##b
#define KCAT(a, b) KCAT_(a, b)
#define KERNEL(name, ...) static KReg KCAT(kreg_, __LINE__){name, wrap<real>(__VA_ARGS__)};

// Reference routines called by name with typed arguments:
//   <number of arguments> then, per argument, @array | i <int> | d <double> |
//   I <n> <ints> | D <n> <doubles>
// Fortran passes everything by reference, so one untyped call serves all of them.
#include "kern.hpp"
#include <cmath>
#include <list>
#include <utility>

extern "C" {
// stand-ins for the LAPACK/BLAS routines the block smoothers call
void dgetrf_(const int* m, const int* n, double* a, const int* lda, int* ipiv, int* info)
{
    *info = 0;
    const int N = *n, L = *lda;
    (void)m;
    for (int c = 0; c < N; c++) {
        int p = c;
        for (int r = c + 1; r < N; r++)
            if (std::fabs(a[r + c * L]) > std::fabs(a[p + c * L])) p = r;
        ipiv[c] = p + 1;
        if (a[p + c * L] == 0) {
            *info = c + 1;
            return;
        }
        for (int k = 0; k < N; k++) std::swap(a[p + k * L], a[c + k * L]);
        for (int r = c + 1; r < N; r++) {
            a[r + c * L] /= a[c + c * L];
            for (int k = c + 1; k < N; k++) a[r + k * L] -= a[r + c * L] * a[c + k * L];
        }
    }
}
void dgetrs_(const char*, const int* n, const int* nrhs, const double* a, const int* lda, const int* ipiv, double* b,
             const int* ldb, int* info, size_t)
{
    *info = 0;
    const int N = *n, L = *lda;
    for (int k = 0; k < *nrhs; k++) {
        double* x = b + k * *ldb;
        for (int c = 0; c < N; c++) std::swap(x[c], x[ipiv[c] - 1]);
        for (int r = 0; r < N; r++)
            for (int c = 0; c < r; c++) x[r] -= a[r + c * L] * x[c];
        for (int r = N - 1; r >= 0; r--) {
            for (int c = r + 1; c < N; c++) x[r] -= a[r + c * L] * x[c];
            x[r] /= a[r + r * L];
        }
    }
}
void dgesv_(const int* n, const int* nrhs, double* a, const int* lda, int* ipiv, double* b, const int* ldb, int* info)
{
    dgetrf_(n, n, a, lda, ipiv, info);
    if (!*info) dgetrs_("N", n, nrhs, a, lda, ipiv, b, ldb, info, 1);
}
void dcopy_(const int* n, const double* x, const int* ix, double* y, const int* iy)
{
    for (int q = 0; q < *n; q++) y[q * *iy] = x[q * *ix];
}
#define R(name) void name##_();
#include "kern_raw.inc"
#undef R
}

template <size_t... I>
static void call_n(void (*f)(), void** p, std::index_sequence<I...>)
{
    reinterpret_cast<void (*)(decltype((void)I, (void*)nullptr)...)>(f)(p[I]...);
}
template <size_t... N>
static void dispatch(size_t n, void (*f)(), void** p, std::index_sequence<N...>)
{
    bool done = false;
    ((n == N ? (call_n(f, p, std::make_index_sequence<N>{}), done = true) : false), ...);
    if (!done) exit(3);
}

static Call<real> raw(void (*f)())
{
    return [f](World<real>& w, std::istream& is) {
        size_t n;
        if (!(is >> n) || n > 47) exit(3);
        // vectors are followed by entries like their own: reading past their end shows, and is reproducible
        std::list<std::vector<int>> iv;
        std::list<std::vector<double>> dv;
        std::vector<void*> p;
        for (size_t q = 0; q < n; q++) {
            std::string t;
            int m = 1;
            if (!(is >> t)) exit(3);
            if (t[0] == '@') {
                p.push_back(w.arr.at(t.substr(1)).data());
                continue;
            }
            if (t == "I" || t == "D") is >> m;
            if (!is || m < 0 || m > 1 << 20) exit(3);
            if (t == "i" || t == "I") {
                iv.emplace_back(m + 64, 0);
                for (int k = m; k < m + 64; k++) iv.back()[k] = (k * k + k / 5) % 3 - 1;
                for (int k = 0; k < m; k++) is >> iv.back()[k];
                p.push_back(iv.back().data());
            } else {
                dv.emplace_back(m + 64, 3.25);
                for (int k = 0; k < m; k++) is >> dv.back()[k];
                p.push_back(dv.back().data());
            }
        }
        dispatch(n, f, p.data(), std::make_index_sequence<48>{});
    };
}
#define R(name) static KReg reg_##name{"raw:" #name, raw(name##_)};
#include "kern_raw.inc"

// cblas scaling: x[i * inc] *= alpha for i < n (nothing when inc <= 0)
#pragma once
namespace vendor {
template<typename I, typename T> void scal(I n, T a, T* x, I inc) { if (inc <= 0) return; for (I i = 0; i < n; ++i) x[i * inc] *= a; }
template<typename I, typename T> void cscal(I n, T ar, T ai, T* x, I inc)
{
    if (inc <= 0) return;
    for (I i = 0; i < n; ++i) { auto const re = x[2 * i * inc], im = x[2 * i * inc + 1]; x[2 * i * inc] = ar * re - ai * im; x[2 * i * inc + 1] = ar * im + ai * re; }
}
}
#define VENDOR_BLAS(I) \
inline void cblas_sscal(I n, float a, float* x, I inc) { vendor::scal<I>(n, a, x, inc); } \
inline void cblas_dscal(I n, double a, double* x, I inc) { vendor::scal<I>(n, a, x, inc); } \
inline void cblas_cscal(I n, void const* a, void* x, I inc) { auto const* p = static_cast<float const*>(a); vendor::cscal<I>(n, p[0], p[1], static_cast<float*>(x), inc); } \
inline void cblas_zscal(I n, void const* a, void* x, I inc) { auto const* p = static_cast<double const*>(a); vendor::cscal<I>(n, p[0], p[1], static_cast<double*>(x), inc); } \
inline void cblas_csscal(I n, float a, void* x, I inc) { if (inc > 0) for (I i = 0; i < n; ++i) { auto* p = static_cast<float*>(x) + 2 * i * inc; p[0] *= a; p[1] *= a; } } \
inline void cblas_zdscal(I n, double a, void* x, I inc) { if (inc > 0) for (I i = 0; i < n; ++i) { auto* p = static_cast<double*>(x) + 2 * i * inc; p[0] *= a; p[1] *= a; } }

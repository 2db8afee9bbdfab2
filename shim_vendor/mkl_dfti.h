// Intel MKL DFTI: descriptor life cycle create / set / commit / compute / free
#pragma once
#include "vendor_dft.h"
#include <complex>
#include <cstdarg>
#include <string>
typedef long MKL_LONG;
enum DFTI_CONFIG_VALUE { DFTI_COMMITTED = 30, DFTI_COMPLEX = 32, DFTI_REAL = 33, DFTI_SINGLE = 35, DFTI_DOUBLE = 36, DFTI_INPLACE = 43, DFTI_NOT_INPLACE = 44 };
enum DFTI_CONFIG_PARAM { DFTI_FORWARD_SCALE = 4, DFTI_BACKWARD_SCALE = 5, DFTI_PLACEMENT = 11 };
struct DFTI_DESCRIPTOR { int precision, domain, placement, committed; MKL_LONG n; double fwd, bwd; };
typedef DFTI_DESCRIPTOR* DFTI_DESCRIPTOR_HANDLE;
template<typename L> MKL_LONG DftiCreateDescriptor(DFTI_DESCRIPTOR_HANDLE* h, DFTI_CONFIG_VALUE precision, DFTI_CONFIG_VALUE domain, MKL_LONG dims, L n)
{
    static_assert(sizeof(L) == sizeof(MKL_LONG));                                 // a variadic argument of another size is undefined
    if (!h || dims != 1 || MKL_LONG(n) < 1) { vendor_misuse(1); return 3; }
    ++vendor::live;
    *h = static_cast<DFTI_DESCRIPTOR*>(std::malloc(sizeof(DFTI_DESCRIPTOR)));
    **h = DFTI_DESCRIPTOR{precision, domain, DFTI_INPLACE, 0, MKL_LONG(n), 1.0, 1.0};
    return 0;
}
template<typename V> MKL_LONG DftiSetValue(DFTI_DESCRIPTOR_HANDLE h, DFTI_CONFIG_PARAM p, V v)
{
    if (!h) { vendor_misuse(2); return 3; }
    if (p == DFTI_PLACEMENT) h->placement = int(v);
    else if (p == DFTI_FORWARD_SCALE) h->fwd = double(v);
    else if (p == DFTI_BACKWARD_SCALE) h->bwd = double(v);
    else { vendor_misuse(3); return 3; }
    h->committed = 0;
    return 0;
}
inline MKL_LONG DftiCommitDescriptor(DFTI_DESCRIPTOR_HANDLE h) { if (!h) { vendor_misuse(4); return 3; } h->committed = 1; return 0; }
inline MKL_LONG DftiFreeDescriptor(DFTI_DESCRIPTOR_HANDLE* h) { if (!h || !*h) { vendor_misuse(5); return 3; } --vendor::live; std::free(*h); *h = nullptr; return 0; }
namespace vendor {
inline MKL_LONG dfti(DFTI_DESCRIPTOR_HANDLE h, void* x, void* y, int sign)
{
    if (!h || !x || !y || !h->committed || h->domain != DFTI_COMPLEX || (h->placement == DFTI_INPLACE) != (x == y)) { vendor_misuse(6); return 3; }
    auto const s = sign < 0 ? h->fwd : h->bwd;
    if (h->precision == DFTI_SINGLE) dft(static_cast<float*>(x), static_cast<float*>(x) + 1, 2, static_cast<float*>(y), static_cast<float*>(y) + 1, 2, std::size_t(h->n), sign, float(s));
    else dft(static_cast<double*>(x), static_cast<double*>(x) + 1, 2, static_cast<double*>(y), static_cast<double*>(y) + 1, 2, std::size_t(h->n), sign, s);
    return 0;
}
}
inline MKL_LONG DftiComputeForward(DFTI_DESCRIPTOR_HANDLE h, void* x) { return vendor::dfti(h, x, x, -1); }
inline MKL_LONG DftiComputeBackward(DFTI_DESCRIPTOR_HANDLE h, void* x) { return vendor::dfti(h, x, x, +1); }
inline MKL_LONG DftiComputeForward(DFTI_DESCRIPTOR_HANDLE h, void* x, void* y) { return vendor::dfti(h, x, y, -1); }
inline MKL_LONG DftiComputeBackward(DFTI_DESCRIPTOR_HANDLE h, void* x, void* y) { return vendor::dfti(h, x, y, +1); }

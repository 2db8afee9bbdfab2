// Intel IPP, signal processing domain: power-of-two FFT, DFT and DCT
#pragma once
#include "vendor_dft.h"
#include <array>
#include <algorithm>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
typedef unsigned char Ipp8u;
typedef float Ipp32f;
typedef double Ipp64f;
typedef struct { Ipp32f re, im; } Ipp32fc;
typedef struct { Ipp64f re, im; } Ipp64fc;
typedef int IppStatus;
#define ippStsNoErr (0)
#define ippStsSizeErr (-6)
#define ippStsNullPtrErr (-8)
#define ippStsContextMatchErr (-13)
#define ippStsFftOrderErr (-15)
#define ippStsFftFlagErr (-16)
typedef enum { ippAlgHintNone, ippAlgHintFast, ippAlgHintAccurate } IppHintAlgorithm;
enum { IPP_FFT_DIV_FWD_BY_N = 1, IPP_FFT_DIV_INV_BY_N = 2, IPP_FFT_DIV_BY_SQRTN = 4, IPP_FFT_NODIV_BY_ANY = 8 };
inline Ipp8u* ippsMalloc_8u(int n) { if (n <= 0) return nullptr; ++vendor::live; return static_cast<Ipp8u*>(std::malloc(std::size_t(n))); }
inline void ippsFree(void* p) { if (p) { --vendor::live; std::free(p); } }
struct ipp_spec { int id, n, flag, work; };
#define IPP_SPEC(N) struct N : ipp_spec {};
IPP_SPEC(IppsFFTSpec_C_32fc) IPP_SPEC(IppsFFTSpec_C_64fc) IPP_SPEC(IppsFFTSpec_C_32f) IPP_SPEC(IppsFFTSpec_C_64f) IPP_SPEC(IppsFFTSpec_R_32f) IPP_SPEC(IppsFFTSpec_R_64f)
IPP_SPEC(IppsDFTSpec_C_32fc) IPP_SPEC(IppsDFTSpec_C_64fc)
IPP_SPEC(IppsDCTFwdSpec_32f) IPP_SPEC(IppsDCTFwdSpec_64f) IPP_SPEC(IppsDCTInvSpec_32f) IPP_SPEC(IppsDCTInvSpec_64f)
namespace vendor {
enum { FFT = 0x46465431, DFT = 0x44465431, DCT2 = 0x44435432, DCT3 = 0x44435433, SINGLE = 0, DOUBLE = 8, REAL = 16, SPLIT = 32 };
inline int spec_bytes(int n) { return 64 + 8 * n; }
inline int init_bytes(int n) { return 32 + 4 * n; }
inline int work_bytes(int n) { return 16 + 16 * n; }
inline IppStatus get_size(int n, int* spec, int* init, int* work) { if (!spec || !init || !work) return ippStsNullPtrErr; *spec = spec_bytes(n); *init = init_bytes(n); *work = work_bytes(n); return ippStsNoErr; }
inline IppStatus flag_ok(int flag) { return flag == 1 || flag == 2 || flag == 4 || flag == 8 ? ippStsNoErr : ippStsFftFlagErr; }
inline void fill(ipp_spec* s, Ipp8u* init, int id, int n, int flag)
{
    init[0] = 1; init[init_bytes(n) - 1] = 1;                                     // the whole initialisation buffer is used
    reinterpret_cast<Ipp8u*>(s)[spec_bytes(n) - 1] = 1;                           // and the whole specification
    s->id = id; s->n = n; s->flag = flag; s->work = work_bytes(n);
}
// a specification of the wrong kind is refused, and nothing is computed
inline bool use(ipp_spec const* s, int id, Ipp8u* work) { if (!s || s->id != id) { vendor_misuse(id); return false; } if (work) { work[0] = 1; work[s->work - 1] = 1; } return true; }
inline double fwd_scale(ipp_spec const* s) { return s->flag == 1 ? 1.0 / s->n : s->flag == 4 ? 1.0 / std::sqrt(double(s->n)) : 1.0; }
inline double inv_scale(ipp_spec const* s) { return s->flag == 2 ? 1.0 / s->n : s->flag == 4 ? 1.0 / std::sqrt(double(s->n)) : 1.0; }
}
#define IPP_FFT_SETUP(SFX, SPEC, ID) \
inline IppStatus ippsFFTGetSize_##SFX(int order, int flag, IppHintAlgorithm, int* a, int* b, int* c) { if (order < 0 || order > 28) return ippStsFftOrderErr; if (auto e = vendor::flag_ok(flag)) return e; return vendor::get_size(1 << order, a, b, c); } \
inline IppStatus ippsFFTInit_##SFX(SPEC** h, int order, int flag, IppHintAlgorithm, Ipp8u* spec, Ipp8u* init) { if (!h || !spec || !init) return ippStsNullPtrErr; if (order < 0 || order > 28) return ippStsFftOrderErr; if (auto e = vendor::flag_ok(flag)) return e; \
  *h = reinterpret_cast<SPEC*>(spec); vendor::fill(*h, init, vendor::FFT + (ID), 1 << order, flag); return ippStsNoErr; }
IPP_FFT_SETUP(C_32fc, IppsFFTSpec_C_32fc, vendor::SINGLE)
IPP_FFT_SETUP(C_64fc, IppsFFTSpec_C_64fc, vendor::DOUBLE)
IPP_FFT_SETUP(C_32f, IppsFFTSpec_C_32f, vendor::SINGLE + vendor::SPLIT)
IPP_FFT_SETUP(C_64f, IppsFFTSpec_C_64f, vendor::DOUBLE + vendor::SPLIT)
IPP_FFT_SETUP(R_32f, IppsFFTSpec_R_32f, vendor::SINGLE + vendor::REAL)
IPP_FFT_SETUP(R_64f, IppsFFTSpec_R_64f, vendor::DOUBLE + vendor::REAL)
#define IPP_CC(NM, SFX, C, SPEC, KIND, ID) \
inline IppStatus ipps##NM##Fwd_CToC_##SFX(C const* x, C* y, SPEC const* s, Ipp8u* w) { if (!x || !y) return ippStsNullPtrErr; if (!vendor::use(s, KIND + (ID), w)) return ippStsContextMatchErr; vendor::dft(&x->re, &x->im, 2, &y->re, &y->im, 2, std::size_t(s->n), -1, decltype(x->re)(vendor::fwd_scale(s))); return ippStsNoErr; } \
inline IppStatus ipps##NM##Inv_CToC_##SFX(C const* x, C* y, SPEC const* s, Ipp8u* w) { if (!x || !y) return ippStsNullPtrErr; if (!vendor::use(s, KIND + (ID), w)) return ippStsContextMatchErr; vendor::dft(&x->re, &x->im, 2, &y->re, &y->im, 2, std::size_t(s->n), +1, decltype(x->re)(vendor::inv_scale(s))); return ippStsNoErr; }
#define IPP_CCI(SFX, C, SPEC) \
inline IppStatus ippsFFTFwd_CToC_##SFX##_I(C* x, SPEC const* s, Ipp8u* w) { return ippsFFTFwd_CToC_##SFX(x, x, s, w); } \
inline IppStatus ippsFFTInv_CToC_##SFX##_I(C* x, SPEC const* s, Ipp8u* w) { return ippsFFTInv_CToC_##SFX(x, x, s, w); }
IPP_CC(FFT, 32fc, Ipp32fc, IppsFFTSpec_C_32fc, vendor::FFT, vendor::SINGLE)
IPP_CC(FFT, 64fc, Ipp64fc, IppsFFTSpec_C_64fc, vendor::FFT, vendor::DOUBLE)
IPP_CCI(32fc, Ipp32fc, IppsFFTSpec_C_32fc)
IPP_CCI(64fc, Ipp64fc, IppsFFTSpec_C_64fc)
IPP_CC(DFT, 32fc, Ipp32fc, IppsDFTSpec_C_32fc, vendor::DFT, vendor::SINGLE)
IPP_CC(DFT, 64fc, Ipp64fc, IppsDFTSpec_C_64fc, vendor::DFT, vendor::DOUBLE)
#define IPP_DFT_SETUP(SFX, SPEC, ID) \
inline IppStatus ippsDFTGetSize_##SFX(int n, int flag, IppHintAlgorithm, int* a, int* b, int* c) { if (n < 1) return ippStsSizeErr; if (auto e = vendor::flag_ok(flag)) return e; return vendor::get_size(n, a, b, c); } \
inline IppStatus ippsDFTInit_##SFX(int n, int flag, IppHintAlgorithm, SPEC* s, Ipp8u* init) { if (!s || !init) return ippStsNullPtrErr; if (n < 1) return ippStsSizeErr; if (auto e = vendor::flag_ok(flag)) return e; vendor::fill(s, init, vendor::DFT + (ID), n, flag); return ippStsNoErr; }
IPP_DFT_SETUP(C_32fc, IppsDFTSpec_C_32fc, vendor::SINGLE)
IPP_DFT_SETUP(C_64fc, IppsDFTSpec_C_64fc, vendor::DOUBLE)
#define IPP_SPLIT(SFX, T, SPEC, ID) \
inline IppStatus ippsFFTFwd_CToC_##SFX(T const* a, T const* b, T* c, T* d, SPEC const* s, Ipp8u* w) { if (!a || !b || !c || !d) return ippStsNullPtrErr; if (!vendor::use(s, vendor::FFT + (ID), w)) return ippStsContextMatchErr; vendor::dft(a, b, 1, c, d, 1, std::size_t(s->n), -1, T(vendor::fwd_scale(s))); return ippStsNoErr; } \
inline IppStatus ippsFFTInv_CToC_##SFX(T const* a, T const* b, T* c, T* d, SPEC const* s, Ipp8u* w) { if (!a || !b || !c || !d) return ippStsNullPtrErr; if (!vendor::use(s, vendor::FFT + (ID), w)) return ippStsContextMatchErr; vendor::dft(a, b, 1, c, d, 1, std::size_t(s->n), +1, T(vendor::inv_scale(s))); return ippStsNoErr; } \
inline IppStatus ippsFFTFwd_CToC_##SFX##_I(T* a, T* b, SPEC const* s, Ipp8u* w) { return ippsFFTFwd_CToC_##SFX(a, b, a, b, s, w); } \
inline IppStatus ippsFFTInv_CToC_##SFX##_I(T* a, T* b, SPEC const* s, Ipp8u* w) { return ippsFFTInv_CToC_##SFX(a, b, a, b, s, w); }
IPP_SPLIT(32f, Ipp32f, IppsFFTSpec_C_32f, vendor::SINGLE + vendor::SPLIT)
IPP_SPLIT(64f, Ipp64f, IppsFFTSpec_C_64f, vendor::DOUBLE + vendor::SPLIT)
namespace vendor {
// real input -> CCS format (n + 2 numbers: bins 0..n/2 as re, im) and back
template<typename T> void r2ccs(T const* x, T* y, std::size_t n, T scale)
{
    auto* const a = static_cast<T*>(std::malloc(4 * n * sizeof(T)));
    for (std::size_t i = 0; i < n; ++i) { a[i] = x[i]; a[n + i] = T(0); }
    dft(a, a + n, 1, a + 2 * n, a + 3 * n, 1, n, -1, scale);
    for (std::size_t k = 0; k <= n / 2; ++k) { y[2 * k] = a[2 * n + k]; y[2 * k + 1] = a[3 * n + k]; }
    if (n == 1) { y[0] = a[2 * n]; y[1] = T(0); }
    std::free(a);
}
template<typename T> void ccs2r(T const* x, T* y, std::size_t n, T scale)
{
    auto* const a = static_cast<T*>(std::malloc(4 * n * sizeof(T)));
    a[0] = x[0]; a[n] = T(0);
    for (std::size_t k = 1; k < n; ++k) {
        if (2 * k == n) { a[k] = x[2 * k]; a[n + k] = T(0); }
        else if (2 * k < n) { a[k] = x[2 * k]; a[n + k] = x[2 * k + 1]; }
        else { a[k] = x[2 * (n - k)]; a[n + k] = -x[2 * (n - k) + 1]; }
    }
    dft(a, a + n, 1, a + 2 * n, a + 3 * n, 1, n, +1, scale);
    for (std::size_t i = 0; i < n; ++i) y[i] = a[2 * n + i];
    std::free(a);
}
template<typename T> void dct(T const* x, T* y, std::size_t n, bool inverse)
{
    auto* const a = static_cast<T*>(std::malloc(n * sizeof(T)));
    for (std::size_t k = 0; k < n; ++k) {
        T s = 0;
        for (std::size_t j = 0; j < n; ++j) {
            auto const t = inverse ? k : j, f = inverse ? j : k;
            auto const c = std::sqrt((f == 0 ? 1.0 : 2.0) / double(n)) * std::cos(3.14159265358979323846 * double(f) * double(2 * t + 1) / double(2 * n));
            s += x[j] * T(c);
        }
        a[k] = s;
    }
    for (std::size_t k = 0; k < n; ++k) y[k] = a[k];
    std::free(a);
}
}
#define IPP_REAL(SFX, T, SPEC, ID) \
inline IppStatus ippsFFTFwd_RToCCS_##SFX(T const* x, T* y, SPEC const* s, Ipp8u* w) { if (!x || !y) return ippStsNullPtrErr; if (!vendor::use(s, vendor::FFT + (ID), w)) return ippStsContextMatchErr; vendor::r2ccs(x, y, std::size_t(s->n), T(vendor::fwd_scale(s))); return ippStsNoErr; } \
inline IppStatus ippsFFTInv_CCSToR_##SFX(T const* x, T* y, SPEC const* s, Ipp8u* w) { if (!x || !y) return ippStsNullPtrErr; if (!vendor::use(s, vendor::FFT + (ID), w)) return ippStsContextMatchErr; vendor::ccs2r(x, y, std::size_t(s->n), T(vendor::inv_scale(s))); return ippStsNoErr; } \
inline IppStatus ippsFFTFwd_RToCCS_##SFX##_I(T* x, SPEC const* s, Ipp8u* w) { return ippsFFTFwd_RToCCS_##SFX(x, x, s, w); } \
inline IppStatus ippsFFTInv_CCSToR_##SFX##_I(T* x, SPEC const* s, Ipp8u* w) { return ippsFFTInv_CCSToR_##SFX(x, x, s, w); }
IPP_REAL(32f, Ipp32f, IppsFFTSpec_R_32f, vendor::SINGLE + vendor::REAL)
IPP_REAL(64f, Ipp64f, IppsFFTSpec_R_64f, vendor::DOUBLE + vendor::REAL)
#define IPP_DCT(DIR, SFX, T, KIND, ID, INV) \
inline IppStatus ippsDCT##DIR##GetSize_##SFX(int n, IppHintAlgorithm, int* a, int* b, int* c) { if (n < 1) return ippStsSizeErr; return vendor::get_size(n, a, b, c); } \
inline IppStatus ippsDCT##DIR##Init_##SFX(IppsDCT##DIR##Spec_##SFX** h, int n, IppHintAlgorithm, Ipp8u* spec, Ipp8u* init) { if (!h || !spec || !init) return ippStsNullPtrErr; if (n < 1) return ippStsSizeErr; *h = reinterpret_cast<IppsDCT##DIR##Spec_##SFX*>(spec); vendor::fill(*h, init, KIND + (ID), n, 8); return ippStsNoErr; } \
inline IppStatus ippsDCT##DIR##_##SFX(T const* x, T* y, IppsDCT##DIR##Spec_##SFX const* s, Ipp8u* w) { if (!x || !y) return ippStsNullPtrErr; if (!vendor::use(s, KIND + (ID), w)) return ippStsContextMatchErr; vendor::dct(x, y, std::size_t(s->n), INV); return ippStsNoErr; } \
inline IppStatus ippsDCT##DIR##_##SFX##_I(T* x, IppsDCT##DIR##Spec_##SFX const* s, Ipp8u* w) { return ippsDCT##DIR##_##SFX(x, x, s, w); }
IPP_DCT(Fwd, 32f, Ipp32f, vendor::DCT2, vendor::SINGLE, false)
IPP_DCT(Fwd, 64f, Ipp64f, vendor::DCT2, vendor::DOUBLE, false)
IPP_DCT(Inv, 32f, Ipp32f, vendor::DCT3, vendor::SINGLE, true)
IPP_DCT(Inv, 64f, Ipp64f, vendor::DCT3, vendor::DOUBLE, true)

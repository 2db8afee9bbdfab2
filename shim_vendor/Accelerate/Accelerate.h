// Apple vDSP: split complex FFT, z-vector multiply add; cblas
#pragma once
#include "../vendor_dft.h"
#include "../vendor_blas.h"
#include <complex>
#include <stdexcept>
#include <string>
VENDOR_BLAS(long)
typedef unsigned long vDSP_Length;
typedef long vDSP_Stride;
typedef int FFTDirection;
typedef int FFTRadix;
enum { kFFTDirection_Forward = +1, kFFTDirection_Inverse = -1 };
enum { kFFTRadix2 = 0, kFFTRadix3 = 1, kFFTRadix5 = 2 };
struct DSPSplitComplex { float* realp; float* imagp; };
struct DSPDoubleSplitComplex { double* realp; double* imagp; };
struct OpaqueFFTSetup { vDSP_Length log2n; };
struct OpaqueFFTSetupD { vDSP_Length log2n; };
typedef OpaqueFFTSetup* FFTSetup;
typedef OpaqueFFTSetupD* FFTSetupD;
#define VDSP(D, T, S, H) \
inline H vDSP_create_fftsetup##D(vDSP_Length log2n, FFTRadix) { ++vendor::live; auto* h = static_cast<H>(std::malloc(sizeof(*H{}))); h->log2n = log2n; return h; } \
inline void vDSP_destroy_fftsetup##D(H h) { if (!h) return; --vendor::live; std::free(h); } \
inline void vDSP_fft_zop##D(H h, S const* a, vDSP_Stride ia, S const* c, vDSP_Stride ic, vDSP_Length log2n, FFTDirection d) \
{ if (!h || log2n > h->log2n || (d != 1 && d != -1)) return vendor_misuse(10); vendor::dft<T>(a->realp, a->imagp, std::size_t(ia), c->realp, c->imagp, std::size_t(ic), std::size_t(1) << log2n, -d, T(1)); } \
inline void vDSP_fft_zip##D(H h, S const* c, vDSP_Stride ic, vDSP_Length log2n, FFTDirection d) { vDSP_fft_zop##D(h, c, ic, c, ic, log2n, d); } \
inline void vDSP_zvma##D(S const* a, vDSP_Stride ia, S const* b, vDSP_Stride ib, S const* c, vDSP_Stride ic, S const* o, vDSP_Stride io, vDSP_Length n) \
{ for (vDSP_Length i = 0; i < n; ++i) { auto const k = long(i); auto const ar = a->realp[k * ia], ai = a->imagp[k * ia], br = b->realp[k * ib], bi = b->imagp[k * ib], cr = c->realp[k * ic], ci = c->imagp[k * ic]; \
  o->realp[k * io] = ar * br - ai * bi + cr; o->imagp[k * io] = ar * bi + ai * br + ci; } }
VDSP(, float, DSPSplitComplex, FFTSetup)
VDSP(D, double, DSPDoubleSplitComplex, FFTSetupD)

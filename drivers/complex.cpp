// scalar_complex: field operations on complex numbers
#include <neo/complex/scalar_complex.hpp>
#include <neo/math/abs.hpp>
#include <neo/math/conj.hpp>
#include <neo/math/real.hpp>
#include <neo/math/imag.hpp>
#include <neo/math/float_equality.hpp>
#include <neo/simd/native.hpp>
#include "common.hpp"
#define T float
#define S _f32
#define E f
#define OT double
#include "complex.inc"
#undef T
#undef S
#undef E
#define T double
#define S _f64
#define E d
#define OT float
#include "complex.inc"
#undef T
#undef S
#undef E

// complex batches: lane-wise
#define BATCH(B, T, N, S_, e) \
using ZB##S_ = neo::scalar_complex<neo::B>; \
static ZB##S_ ld##S_(T const* p) { return {neo::B::load_unaligned(p), neo::B::load_unaligned(p + N)}; } \
static void st##S_(ZB##S_ z, T* p) { z.real().store_unaligned(p); z.imag().store_unaligned(p + N); } \
extern "C" void d_cb_add##S_(T const* x_##e, T const* y_##e, T* o_##e) { st##S_(ld##S_(x_##e) + ld##S_(y_##e), o_##e); } \
extern "C" void r_cb_add##S_(T const* x_##e, T const* y_##e, T* o_##e) { for (int i = 0; i < 2 * N; ++i) o_##e[i] = x_##e[i] + y_##e[i]; } \
extern "C" void d_cb_sub##S_(T const* x_##e, T const* y_##e, T* o_##e) { st##S_(ld##S_(x_##e) - ld##S_(y_##e), o_##e); } \
extern "C" void r_cb_sub##S_(T const* x_##e, T const* y_##e, T* o_##e) { for (int i = 0; i < 2 * N; ++i) o_##e[i] = x_##e[i] - y_##e[i]; } \
extern "C" void d_cb_mul##S_(T const* x_##e, T const* y_##e, T* o_##e) { st##S_(ld##S_(x_##e) * ld##S_(y_##e), o_##e); } \
extern "C" void r_cb_mul##S_(T const* x_##e, T const* y_##e, T* o_##e) { for (int i = 0; i < N; ++i) { o_##e[i] = x_##e[i] * y_##e[i] - x_##e[i + N] * y_##e[i + N]; o_##e[i + N] = x_##e[i] * y_##e[i + N] + x_##e[i + N] * y_##e[i]; } }
#if defined(NEO_HAS_ISA_SSE2)
BATCH(float32x4, float, 4, _f32x4, f)
BATCH(float64x2, double, 2, _f64x2, d)
#endif
#if defined(NEO_HAS_ISA_AVX)
BATCH(float32x8, float, 8, _f32x8, f)
BATCH(float64x4, double, 4, _f64x4, d)
#endif

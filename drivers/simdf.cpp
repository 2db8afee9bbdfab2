// floating-point SIMD batches: lane-wise the scalar operator
#include <neo/simd/native.hpp>
#include "common.hpp"
#include <type_traits>
#if defined(NEO_HAS_ISA_SSE2)
#define V neo::float32x4
#define T float
#define W float
#define N 4
#define S _f32x4
#define E f
#include "simdf.inc"
#define V neo::float64x2
#define T double
#define W double
#define N 2
#define S _f64x2
#define E d
#include "simdf.inc"
#endif
#if defined(NEO_HAS_ISA_AVX)
#define V neo::float32x8
#define T float
#define W float
#define N 8
#define S _f32x8
#define E f
#include "simdf.inc"
#define V neo::float64x4
#define T double
#define W double
#define N 4
#define S _f64x4
#define E d
#include "simdf.inc"
#endif
#if defined(NEO_HAS_BUILTIN_FLOAT16) and defined(NEO_HAS_ISA_F16C)
#define V neo::float16x8
#define T _Float16
#define W float
#define N 8
#define S _f16x8
#define E e
#include "simdf.inc"
#define V neo::float16x16
#define T _Float16
#define W float
#define N 16
#define S _f16x16
#define E e
#include "simdf.inc"
#endif
#if defined(NEO_HAS_ISA_AVX512F)
#define V neo::float32x16
#define T float
#define W float
#define N 16
#define S _f32x16
#define E f
#include "simdf.inc"
#define V neo::float64x8
#define T double
#define W double
#define N 8
#define S _f64x8
#define E d
#include "simdf.inc"
#endif
// the batch chosen for the target is the widest one
namespace {
#if defined(__AVX512F__)
using w32 = neo::float32x16; using w64 = neo::float64x8;
#elif defined(__AVX__)
using w32 = neo::float32x8; using w64 = neo::float64x4;
#else
using w32 = neo::float32x4; using w64 = neo::float64x2;
#endif
}
#define S
DR(int, sv_native)() { return std::is_same_v<neo::float32x, w32> + 2 * std::is_same_v<neo::float64x, w64>; }
RR(int, sv_native)() { return 3; }

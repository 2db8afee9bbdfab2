// arrays of fixed_point and the fixed_point SIMD registers: element-wise the scalar operator
#include <neo/fixed_point/algorithm.hpp>
#include "common.hpp"
#define SATDEF(s, i) static inline i CAT(sat, s)(std::int32_t x) \
{ std::int32_t const lo = -(std::int32_t{1} << (8 * sizeof(i) - 1)), hi = -lo - 1; return static_cast<i>(x < lo ? lo : (x > hi ? hi : x)); }
SATDEF(_q7, std::int8_t)
SATDEF(_q15, std::int16_t)
SATDEF(_q8_4, std::int8_t)
SATDEF(_q16_8, std::int16_t)
using q8_4 = neo::fixed_point<std::int8_t, 4>;
using q16_8 = neo::fixed_point<std::int16_t, 8>;
#define Q neo::q7
#define I std::int8_t
#define S _q7
#define E b
#define F 7
#include "fixedarr.inc"
#define Q neo::q15
#define I std::int16_t
#define S _q15
#define E h
#define F 15
#include "fixedarr.inc"
#define Q q8_4
#define I std::int8_t
#define S _q8_4
#define E b
#define F 4
#include "fixedarr.inc"
#define Q q16_8
#define I std::int16_t
#define S _q16_8
#define E h
#define F 8
#include "fixedarr.inc"
#if defined(NEO_HAS_ISA_SSE41)
    #define M41 1
#else
    #define M41 0
#endif
#if defined(NEO_HAS_ISA_NEON)
#define NEO_MUL_B 0
#define NEO_MUL_H 1
#else
#define NEO_MUL_B M41
#define NEO_MUL_H M41
#endif
#if defined(NEO_HAS_ISA_SSE2) or defined(NEO_HAS_ISA_NEON)
#define V neo::q7x16
#define I std::int8_t
#define N 16
#define S _q7x16
#define E b
#define F 7
#define HASMUL NEO_MUL_B
#include "fixedreg.inc"
#define V neo::q15x8
#define I std::int16_t
#define N 8
#define S _q15x8
#define E h
#define F 15
#define HASMUL NEO_MUL_H
#include "fixedreg.inc"
#endif
#if defined(NEO_HAS_ISA_AVX2)
#define V neo::q7x32
#define I std::int8_t
#define N 32
#define S _q7x32
#define E b
#define F 7
#define HASMUL 0
#include "fixedreg.inc"
#define V neo::q15x16
#define I std::int16_t
#define N 16
#define S _q15x16
#define E h
#define F 15
#define HASMUL 1
#include "fixedreg.inc"
#endif
#if defined(NEO_HAS_ISA_AVX512BW)
#define V neo::q7x64
#define I std::int8_t
#define N 64
#define S _q7x64
#define E b
#define F 7
#define HASMUL 0
#include "fixedreg.inc"
#define V neo::q15x32
#define I std::int16_t
#define N 32
#define S _q15x32
#define E h
#define F 15
#define HASMUL 1
#include "fixedreg.inc"
#endif

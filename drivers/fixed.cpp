// fixed_point: saturating arithmetic, ordering and conversions
#include <neo/fixed_point/fixed_point.hpp>
#include "common.hpp"
#define SET(q, i, s, e, f)
#define Q neo::q7
#define I std::int8_t
#define S _q7
#define E b
#define F 7
#include "fixed.inc"
#define Q neo::q15
#define I std::int16_t
#define S _q15
#define E h
#define F 15
#include "fixed.inc"
template<class X, int B> using fp = neo::fixed_point<X, B>;
using q8_4 = fp<std::int8_t, 4>;
using q8_0 = fp<std::int8_t, 0>;
using q16_8 = fp<std::int16_t, 8>;
using q16_14 = fp<std::int16_t, 14>;
using q16_1 = fp<std::int16_t, 1>;
#define Q q8_4
#define I std::int8_t
#define S _q8_4
#define E b
#define F 4
#include "fixed.inc"
#define Q q8_0
#define I std::int8_t
#define S _q8_0
#define E b
#define F 0
#include "fixed.inc"
#define Q q16_8
#define I std::int16_t
#define S _q16_8
#define E h
#define F 8
#include "fixed.inc"
#define Q q16_14
#define I std::int16_t
#define S _q16_14
#define E h
#define F 14
#include "fixed.inc"
#define Q q16_1
#define I std::int16_t
#define S _q16_1
#define E h
#define F 1
#include "fixed.inc"

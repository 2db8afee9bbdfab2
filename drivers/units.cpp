// units: decibel, A-weighting, fast logarithms
#include <neo/unit/decibel.hpp>
#include <neo/math/a_weighting.hpp>
#include <neo/math/fast_math.hpp>
#include "common.hpp"
#define T float
#define S _f32
#define E f
#include "units.inc"
#define T double
#define S _f64
#define E d
#include "units.inc"
#define S
DR(float, flog2)(float x) { return neo::fast_log2(x); }
RR(float, flog2)(float x) { return static_cast<float>(std::log2(static_cast<double>(x))); }
DR(float, flog10)(float x) { return neo::fast_log10(x); }
RR(float, flog10)(float x) { return static_cast<float>(std::log10(static_cast<double>(x))); }

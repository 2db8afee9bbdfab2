// multiply-add on contiguous, strided, integer-indexed, interleaved and split views
#include "vecs.hpp"
#include <neo/complex.hpp>
#include <neo/algorithm/multiply_add.hpp>
#include "common.hpp"
#define T float
#define S _f32
#define E f
#define U double
#define EU d
#include "madd.inc"
#define T double
#define S _f64
#define E d
#define U float
#define EU f
#include "madd.inc"

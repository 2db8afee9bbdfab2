// normalisation and whole-object comparison
#include "vecs.hpp"
#include <neo/complex.hpp>
#include <neo/algorithm/normalize_energy.hpp>
#include <neo/algorithm/normalize_peak.hpp>
#include <neo/algorithm/allclose.hpp>
#include <neo/algorithm/allmatch.hpp>
#include <neo/convolution/normalize_impulse.hpp>
#include <algorithm>
#include "common.hpp"
#define T float
#define S _f32
#define E f
#define TOLD T(1e-5)
#include "norm.inc"
#define T double
#define S _f64
#define E d
#define TOLD T(1e-9)
#include "norm.inc"

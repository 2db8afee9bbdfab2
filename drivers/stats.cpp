// statistics and error measures
#include "vecs.hpp"
#include <neo/complex.hpp>
#include <neo/algorithm/mean.hpp>
#include <neo/algorithm/variance.hpp>
#include <neo/algorithm/standard_deviation.hpp>
#include <neo/algorithm/mean_squared_error.hpp>
#include <neo/algorithm/root_mean_squared_error.hpp>
#include "common.hpp"
#define T float
#define S _f32
#define E f
#include "stats.inc"
#undef VM
#undef VML
#undef VMS
#undef VVS
#define T double
#define S _f64
#define E d
#include "stats.inc"

// element-wise algebra on vectors and matrices in every layout
#include "vecs.hpp"
#include <neo/complex.hpp>
#include <neo/algorithm/add.hpp>
#include <neo/algorithm/copy.hpp>
#include <neo/algorithm/fill.hpp>
#include <neo/algorithm/multiply.hpp>
#include <neo/algorithm/scale.hpp>
#include "common.hpp"
#define T float
#define S _f32
#define E f
#include "dense.inc"
#define T double
#define S _f64
#define E d
#include "dense.inc"

// mel scale, windows, bin frequencies
#include <neo/config.hpp>
#include <neo/container/mdspan.hpp>
#include <neo/unit/mel.hpp>
#include <neo/math/windowing.hpp>
#include <neo/fft/rfftfreq.hpp>
#include "common.hpp"
#include <numbers>
#define T float
#define S _f32
#define E f
#include "units2.inc"
#define T double
#define S _f64
#define E d
#include "units2.inc"

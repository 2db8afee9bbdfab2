// helpers shared by the driver translation units
#pragma once
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <complex>
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define CAT3(a, b, c) CAT(CAT(a, b), c)
// D(name): the function under analysis, R(name): its specification; S is the suffix of the current instantiation
#define D(n) extern "C" void CAT3(d_, n, S)
#define R(n) extern "C" void CAT3(r_, n, S)
#define DR(ty, n) extern "C" ty CAT3(d_, n, S)
#define RR(ty, n) extern "C" ty CAT3(r_, n, S)
// P(x): pointer parameter whose name carries the element type
#define P(x) CAT3(x, _, E)

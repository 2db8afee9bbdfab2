// integer helpers that size transforms and buffers
#include <neo/bit/bit_ceil.hpp>
#include <neo/bit/bit_log2.hpp>
#include <neo/bit/bit_cast.hpp>
#include <neo/math/ipow.hpp>
#include <neo/math/idiv.hpp>
#include <neo/math/is_even.hpp>
#include <neo/math/is_odd.hpp>
#include <neo/fft/order.hpp>
#include <neo/fft/direction.hpp>
#include <neo/convolution/mode.hpp>
#include "common.hpp"
#define U std::uint8_t
#define I std::int8_t
#define W 8
#define S _8
#include "bits.inc"
#define U std::uint16_t
#define I std::int16_t
#define W 16
#define S _16
#include "bits.inc"
#define U std::uint32_t
#define I std::int32_t
#define W 32
#define S _32
#include "bits.inc"
#define U std::uint64_t
#define I std::int64_t
#define W 64
#define S _64
#include "bits.inc"
#define S
DR(std::uint32_t, bcast)(float x) { return neo::bit_cast<std::uint32_t>(x); }
RR(std::uint32_t, bcast)(float x) { return __builtin_bit_cast(std::uint32_t, x); }
DR(double, bcastd)(std::uint64_t x) { return neo::bit_cast<double>(x); }
RR(double, bcastd)(std::uint64_t x) { return __builtin_bit_cast(double, x); }
DR(int, dirsum)() { return 10 * static_cast<int>(neo::fft::direction::forward) + static_cast<int>(neo::fft::direction::backward); }
RR(int, dirsum)() { return -9; }

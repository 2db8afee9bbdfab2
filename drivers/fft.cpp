// transforms: constructed from an order, applied to interleaved data in place
#include <neo/algorithm.hpp>
#include <neo/fft.hpp>
#include <neo/fft/reference/c2c_dif3_plan.hpp>
#include <neo/fft/reference/c2c_dif5_plan.hpp>
#include <neo/fft/reference/c2c_dit2_plan.hpp>
#include <neo/fft/reference/c2c_dit4_plan.hpp>
#include <neo/fft/reference/c2c_stockham_dif2_plan.hpp>
#include <neo/fft/reference/c2c_stockham_dif3_plan.hpp>
#include <neo/fft/reference/c2c_stockham_dif4_plan.hpp>
#include <neo/fft/reference/c2c_stockham_dif5_plan.hpp>
#include <neo/fft/reference/c2c_stockham_dif8_plan.hpp>
#include <neo/fft/reference/c2c_stockham_dit4_plan.hpp>
#include "vecs.hpp"
using namespace neo;
using uz = std::size_t;
using ZD = std::complex<double>;
using ZF = std::complex<float>;
using ND = neo::scalar_complex<double>;
using NF = neo::scalar_complex<float>;
static fft::direction dirof(int d) { return d > 0 ? fft::direction::forward : fft::direction::backward; }
#define T1(nm, C, F, ...) \
extern "C" void d_##nm(F* x, uz order, int dir) { using Plan = __VA_ARGS__; Plan plan(fft::from_order, order); plan(V<C>(cx<C>(x), plan.size()), dirof(dir)); } \
extern "C" void d_##nm##_two(F* x, F* y, uz order, int dir) { using Plan = __VA_ARGS__; Plan plan(fft::from_order, order); plan(V<C>(cx<C>(x), plan.size()), dirof(dir)); plan(V<C>(cx<C>(y), plan.size()), dirof(-dir)); plan(V<C>(cx<C>(x), plan.size()), dirof(-dir)); } \
extern "C" void d_##nm##_str(F* x, uz order, int dir) { using Plan = __VA_ARGS__; Plan plan(fft::from_order, order); plan(vs(cx<C>(x), plan.size(), 3), dirof(dir)); }
#define T(nm, ...) T1(nm##_zd, ZD, double, __VA_ARGS__<ZD>) T1(nm##_nf, NF, float, __VA_ARGS__<NF>)
#define TK(nm, k) T1(nm##_zf, ZF, float, fft::c2c_dit2_plan<ZF, k>) T1(nm##_nd, ND, double, fft::c2c_dit2_plan<ND, k>)
T(fft, fft::fft_plan)
TK(dit2v1, fft::kernel::c2c_dit2_v1)
TK(dit2v2, fft::kernel::c2c_dit2_v2)
TK(dit2v3, fft::kernel::c2c_dit2_v3)
TK(dit2v4, fft::kernel::c2c_dit2_v4)
T(dit4, fft::c2c_dit4_plan)
T(dif4, fft::c2c_dif4_plan)
T(dif3, fft::c2c_dif3_plan)
T(dif5, fft::c2c_dif5_plan)
T(stock2r, fft::c2c_stockham_dif2r_plan)
T(stock2i, fft::c2c_stockham_dif2i_plan)
T(stock3, fft::c2c_stockham_dif3_plan)
T(stock4, fft::c2c_stockham_dif4_plan)
T(stock5, fft::c2c_stockham_dif5_plan)
T(stock8, fft::c2c_stockham_dif8_plan)
T(stockt4, fft::c2c_stockham_dit4_plan)

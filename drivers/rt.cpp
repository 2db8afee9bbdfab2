// the operations a caller performs per block, on objects set up beforehand
#include <neo/algorithm.hpp>
#include <neo/complex.hpp>
#include <neo/convolution.hpp>
#include <neo/fft.hpp>
#include <neo/fft/experimental/rfft.hpp>
#include <neo/fft/fallback/fallback_split_fft_plan.hpp>
#include <neo/fft/dct.hpp>
#include <neo/fft/dft.hpp>
#include <neo/fft/reference/c2c_dif3_plan.hpp>
#include <neo/fft/reference/c2c_dif5_plan.hpp>
#include <neo/fft/reference/c2c_dit2_plan.hpp>
#include <neo/fft/reference/c2c_dit4_plan.hpp>
#include <neo/fft/reference/c2c_stockham_dif2_plan.hpp>
#include <neo/fft/reference/c2c_stockham_dif3_plan.hpp>
#include <neo/fft/reference/c2c_stockham_dif4_plan.hpp>
#include <neo/fft/reference/c2c_stockham_dif5_plan.hpp>
#include <neo/fft/reference/c2c_stockham_dif8_plan.hpp>
#include <neo/fft/reference/c2c_stockham_dit4_plan.hpp>
#include "vecs.hpp"
using namespace neo;
namespace cv = neo::convolution;
using uz = std::size_t;
template<typename F> using Z_ = std::complex<F>;
static fft::direction dirof(int d) { return d > 0 ? fft::direction::forward : fft::direction::backward; }
// convolvers
#define CONV(nm, ...) \
extern "C" void d_rt_##nm##_f(cv::__VA_ARGS__<Z_<float>>* c, float* x, uz n) { (*c)(V<float>(x, n)); } \
extern "C" void d_rt_##nm##_d(cv::__VA_ARGS__<Z_<double>>* c, double* x, uz n) { (*c)(V<double>(x, n)); }
CONV(upols, upols_convolver)
CONV(upola, upola_convolver)
CONV(upola_v2, upola_convolver_v2)
CONV(split_upols, split_upols_convolver)
CONV(split_upola, split_upola_convolver)
CONV(sparse_upols, sparse_upols_convolver)
CONV(sparse_upola, sparse_upola_convolver)
#define STAGE(nm, T) \
extern "C" void d_rt_##nm##_f(T<Z_<float>>* o, float* x, uz n) { (*o)(V<float>(x, n), [](auto) {}); } \
extern "C" void d_rt_##nm##_d(T<Z_<double>>* o, double* x, uz n) { (*o)(V<double>(x, n), [](auto) {}); }
STAGE(overlap_add, cv::overlap_add)
STAGE(overlap_save, cv::overlap_save)
#define FC(S, F) \
extern "C" void d_rt_fft_convolver_##S(cv::fft_convolver<F>* c, F const* x, F const* h, F* y, uz n, uz m) { (*c)(V<F const>(x, n), V<F const>(h, m), V<F>(y, n + m - 1)); } \
extern "C" void d_rt_direct_convolve_##S(F const* x, F const* h, F* y, uz n, uz m) { cv::direct_convolve(V<F const>(x, n), V<F const>(h, m), V<F>(y, n + m - 1)); } \
extern "C" void d_rt_dense_fdl_##S(cv::dense_fdl<Z_<F>>* l, F const* x, uz n, uz i) { l->insert(V<Z_<F> const>(cx<Z_<F>>(x), n), i); } \
extern "C" void d_rt_split_fdl_##S(cv::dense_split_fdl<F>* l, F const* x, uz n, uz i) { l->insert(V<Z_<F> const>(cx<Z_<F>>(x), n), i); } \
extern "C" void d_rt_compressed_fdl_##S(cv::compressed_fdl<scalar_complex<F>, scalar_complex<std::int16_t>>* l, F const* x, F* y, uz n, uz i) { using C = scalar_complex<F>; l->insert(V<C const>(cx<C>(x), n), i); C const v = (*l)[i][0]; *y = v.real(); } \
extern "C" void d_rt_dense_filter_##S(cv::dense_filter<Z_<F>>* l, F const* x, F* y, uz n, uz i) { (*l)(V<Z_<F> const>(cx<Z_<F>>(x), n), i, V<Z_<F>>(cx<Z_<F>>(y), n)); } \
extern "C" void d_rt_sparse_filter_##S(cv::sparse_filter<Z_<F>>* l, F const* x, F* y, uz n, uz i) { (*l)(V<Z_<F> const>(cx<Z_<F>>(x), n), i, V<Z_<F>>(cx<Z_<F>>(y), n)); }
FC(f, float)
FC(d, double)
// transforms with a plan
#define PLAN1(nm, C, F, ...) extern "C" void d_rt_##nm(__VA_ARGS__* p, F* x, uz n, int d) { (*p)(V<C>(cx<C>(x), n), dirof(d)); }
#define PLAN(nm, ...) PLAN1(nm##_zf, Z_<float>, float, __VA_ARGS__<Z_<float>>) PLAN1(nm##_zd, Z_<double>, double, __VA_ARGS__<Z_<double>>) \
  PLAN1(nm##_nf, scalar_complex<float>, float, __VA_ARGS__<scalar_complex<float>>) PLAN1(nm##_nd, scalar_complex<double>, double, __VA_ARGS__<scalar_complex<double>>)
PLAN(fft_plan, fft::fft_plan)
#define DIT2(nm, K) PLAN1(nm##_zf, Z_<float>, float, fft::c2c_dit2_plan<Z_<float>, K>) PLAN1(nm##_zd, Z_<double>, double, fft::c2c_dit2_plan<Z_<double>, K>)
DIT2(dit2v1, fft::kernel::c2c_dit2_v1)
DIT2(dit2v2, fft::kernel::c2c_dit2_v2)
DIT2(dit2v3, fft::kernel::c2c_dit2_v3)
DIT2(dit2v4, fft::kernel::c2c_dit2_v4)
PLAN(dit4, fft::c2c_dit4_plan)
PLAN(dif4, fft::c2c_dif4_plan)
PLAN(dif3, fft::c2c_dif3_plan)
PLAN(dif5, fft::c2c_dif5_plan)
PLAN(stockham_dif2r, fft::c2c_stockham_dif2r_plan)
PLAN(stockham_dif2i, fft::c2c_stockham_dif2i_plan)
PLAN(stockham_dif3, fft::c2c_stockham_dif3_plan)
PLAN(stockham_dif4, fft::c2c_stockham_dif4_plan)
PLAN(stockham_dif5, fft::c2c_stockham_dif5_plan)
PLAN(stockham_dif8, fft::c2c_stockham_dif8_plan)
PLAN(stockham_dit4, fft::c2c_stockham_dit4_plan)
PLAN1(dft_plan_zf, Z_<float>, float, fft::dft_plan<Z_<float>>)
PLAN1(dft_plan_zd, Z_<double>, double, fft::dft_plan<Z_<double>>)
#define RP(S, F) \
extern "C" void d_rt_rfft_##S(fft::rfft_plan<F, Z_<F>>* p, F const* x, F* y, uz n) { using C = Z_<F>; fft::rfft(*p, V<F const>(x, n), V<C>(cx<C>(y), n / 2 + 1)); } \
extern "C" void d_rt_irfft_##S(fft::rfft_plan<F, Z_<F>>* p, F const* x, F* y, uz n) { using C = Z_<F>; fft::irfft(*p, V<C const>(cx<C>(x), n / 2 + 1), V<F>(y, n)); } \
extern "C" void d_rt_fft_##S(fft::fft_plan<Z_<F>>* p, F const* x, F* y, uz n) { using C = Z_<F>; fft::fft(*p, V<C const>(cx<C>(x), n), V<C>(cx<C>(y), n)); fft::ifft(*p, V<C>(cx<C>(y), n)); } \
extern "C" void d_rt_split_##S(fft::split_fft_plan<F>* p, F* x, F* y, uz n, int d) { (*p)(split_complex{V<F>(x, n), V<F>(y, n)}, dirof(d)); } \
extern "C" void d_rt_dct2_##S(fft::fallback_dct2_plan<F>* p, F* x, uz n) { (*p)(V<F>(x, n)); }
RP(f, float)
RP(d, double)
// element-wise kernels
#define ALG(S, F) \
extern "C" void d_rt_add_##S(F const* a, F const* b, F* c, uz n) { add(V<F const>(a, n), V<F const>(b, n), V<F>(c, n)); } \
extern "C" void d_rt_multiply_##S(F const* a, F const* b, F* c, uz n) { multiply(V<F const>(a, n), V<F const>(b, n), V<F>(c, n)); } \
extern "C" void d_rt_multiply_add_##S(F const* a, F const* b, F const* e, F* c, uz n) { multiply_add(V<F const>(a, n), V<F const>(b, n), V<F const>(e, n), V<F>(c, n)); } \
extern "C" void d_rt_multiply_addc_##S(F const* a, F const* b, F* c, uz n) { using C = Z_<F>; multiply_add(V<C const>(cx<C>(a), n), V<C const>(cx<C>(b), n), V<C>(cx<C>(c), n), V<C>(cx<C>(c), n)); } \
extern "C" void d_rt_scale_##S(F k, F* c, uz n) { scale(k, V<F>(c, n)); } \
extern "C" void d_rt_copy_##S(F const* a, F* c, uz n) { copy(V<F const>(a, n), V<F>(c, n)); } \
extern "C" void d_rt_fill_##S(F k, F* c, uz n) { fill(V<F>(c, n), k); } \
extern "C" void d_rt_stats_##S(F const* a, F const* b, F* c, uz n) { c[0] = mean(V<F const>(a, n)).value_or(F(0)); c[1] = variance(V<F const>(a, n)).value_or(F(0)); c[2] = standard_deviation(V<F const>(a, n)).value_or(F(0)); c[3] = F(root_mean_squared_error(V<F const>(a, n), V<F const>(b, n))); } \
extern "C" void d_rt_normalize_##S(F* a, uz n) { normalize_peak(V<F>(a, n)); normalize_energy(V<F>(a, n)); }
ALG(f, float)
ALG(d, double)

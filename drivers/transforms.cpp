// real, split, cosine, arbitrary-size and short-time transforms, permutations and tables
#include <neo/algorithm.hpp>
#include <neo/complex.hpp>
#include <neo/fft.hpp>
#include <neo/fft/experimental/rfft.hpp>
#include <neo/fft/fallback/fallback_split_fft_plan.hpp>
#include <neo/fft/stft.hpp>
#include <neo/fft/dct.hpp>
#include <neo/fft/dft.hpp>
#include <neo/convolution/uniform_partition.hpp>
#include "vecs.hpp"
using namespace neo;
using uz = std::size_t;
using f_t = float;
using d_t = double;
template<typename F> using Zc = std::complex<F>;
template<typename F> using Nc = neo::scalar_complex<F>;
extern "C" void mark(int);
static fft::direction dirof(int d) { return d > 0 ? fft::direction::forward : fft::direction::backward; }
#define FT(S, F, C) \
extern "C" void d_fft2_##S(F const* x, F* y, F* z, uz order) { fft::fft_plan<C> p(fft::from_order, order); fft::fft(p, V<C const>(cx<C>(x), p.size()), V<C>(cx<C>(y), p.size())); fft::ifft(p, V<C const>(cx<C>(y), p.size()), V<C>(cx<C>(z), p.size())); } \
extern "C" void d_fft3_##S(F* x, F* y, uz order) { fft::fft_plan<C> p(fft::from_order, order); fft::fft(p, V<C>(cx<C>(x), p.size()), V<C>(cx<C>(x), p.size())); fft::ifft(p, V<C>(cx<C>(y), p.size()), V<C>(cx<C>(y), p.size())); } \
extern "C" void d_fft1_##S(F* x, F* y, uz order) { fft::fft_plan<C> p(fft::from_order, order); fft::fft(p, V<C>(cx<C>(x), p.size())); fft::ifft(p, V<C>(cx<C>(y), p.size())); } \
extern "C" void d_rfft_##S(F const* x, F* y, F* z, uz order, uz outn) { fft::rfft_plan<F, C> p(fft::from_order, order); fft::rfft(p, V<F const>(x, p.size()), V<C>(cx<C>(y), outn)); fft::irfft(p, V<C const>(cx<C>(y), p.size() / 2 + 1), V<F>(z, p.size())); } \
extern "C" void d_irfft_##S(F const* x, F* y, F* z, uz order, uz inn) { fft::rfft_plan<F, C> p(fft::from_order, order); fft::irfft(p, V<C const>(cx<C>(x), inn), V<F>(y, p.size())); fft::irfft(p, V<C const>(cx<C>(x), inn), vs(z, p.size(), 2)); } \
extern "C" void d_deint_##S(F const* x, F* y, F* z, uz n) { fft::rfft_deinterleave(V<C const>(cx<C>(x), n), V<C>(cx<C>(y), n / 2 + 1), V<C>(cx<C>(z), n / 2 + 1)); } \
extern "C" void d_bitrev_##S(F* x, F* y, uz order) { fft::bitrevorder_plan p(order); p(V<C>(cx<C>(x), uz(1) << order)); p(V<F>(y, uz(2) << order)); } \
extern "C" void d_bitrevf_##S(F* x, F* y, uz order) { fft::bitrevorder(V<C>(cx<C>(x), uz(1) << order)); fft::bitrevorder(V<F>(y, uz(2) << order)); } \
extern "C" void d_bitrevs_##S(F* x, uz order) { fft::bitrevorder_plan p(order); auto const n = uz(1) << order; p(split_complex{V<F>(x, n), V<F>(x + n, n)}); } \
extern "C" void d_digit3_##S(F* x, uz n) { fft::digitrevorder_plan<3> p(n); p(V<C>(cx<C>(x), n)); } \
extern "C" void d_digit4_##S(F* x, uz n) { fft::digitrevorder_plan<4> p(n); p(V<C>(cx<C>(x), n)); } \
extern "C" void d_digit5_##S(F* x, uz n) { fft::digitrevorder_plan<5> p(n); p(V<C>(cx<C>(x), n)); } \
extern "C" void d_digit2_##S(F* x, uz n) { fft::digitrevorder_plan<2> p(n); p(V<C>(cx<C>(x), n)); } \
extern "C" void d_tw_##S(F* x, uz n, int d) { auto const t = fft::make_twiddle_lut_radix2<C>(n, dirof(d)); for (uz i = 0; i < t.extent(0); ++i) { x[2 * i] = t(i).real(); x[2 * i + 1] = t(i).imag(); } x[2 * t.extent(0)] = F(t.extent(0)); }
#define DT(S, F, C) \
extern "C" void d_dft_##S(F const* x, F* y, F* z, uz n) { fft::dft(V<C const>(cx<C>(x), n), V<C>(cx<C>(y), n)); fft::dft(V<C const>(cx<C>(x), n), V<C>(cx<C>(z), n), fft::direction::backward); } \
extern "C" void d_dfts_##S(F const* x, F* y, uz n, int d) { fft::dft(vs(cx<C>(x), n, 2), vs(cx<C>(y), n, 3), dirof(d)); } \
extern "C" void d_blue_##S(F* x, F* y, uz n, int d) { fft::dft_plan<C> p(n); p(V<C>(cx<C>(x), p.size()), dirof(d)); p(V<C>(cx<C>(y), p.size()), dirof(-d)); p(V<C>(cx<C>(x), p.size()), dirof(-d)); p(V<C>(cx<C>(x), p.size()), dirof(d)); } \
extern "C" void d_bluef_##S(F const* x, F* y, F* z, F* w, F* v, uz n) { fft::dft_plan<C> p(n); fft::dft(p, V<C const>(cx<C>(x), n), V<C>(cx<C>(y), n)); fft::idft(p, V<C const>(cx<C>(x), n), V<C>(cx<C>(z), n)); fft::dft(p, V<C>(cx<C>(w), n)); fft::idft(p, vs(cx<C>(v), n, 2)); }
DT(zf, float, Zc<float>)
DT(zd, double, Zc<double>)
FT(zf, float, Zc<float>)
FT(nd, double, Nc<double>)
FT(zd, double, Zc<double>)
#define RT(S, F) \
extern "C" void d_split_##S(F* x, F* y, F* u, F* v, uz order, int d) { fft::split_fft_plan<F> p(fft::from_order, order); auto const n = p.size(); split_complex const a{V<F>(x, n), V<F>(y, n)}; \
  p(a, dirof(d)); split_complex const b{V<F>(u, n), V<F>(v, n)}; p(b, dirof(-d)); } \
extern "C" void d_split2_##S(F const* x, F const* y, F* u, F* v, F* a, F* b, uz order) { fft::split_fft_plan<F> p(fft::from_order, order); auto const n = p.size(); split_complex const i{V<F const>(x, n), V<F const>(y, n)}; split_complex const o{V<F>(u, n), V<F>(v, n)}; split_complex const q{V<F>(a, n), V<F>(b, n)}; \
  fft::fft(p, i, o); fft::ifft(p, i, q); } \
extern "C" void d_split3_##S(F* x, F* y, F* w, F* u, F* v, F* z, uz order) { fft::split_fft_plan<F> p(fft::from_order, order); auto const n = p.size(); \
  fft::fft(p, split_complex{V<F>(x, n), V<F>(y, n)}, split_complex{V<F>(x, n), V<F>(w, n)}); fft::ifft(p, split_complex{V<F>(u, n), V<F>(v, n)}, split_complex{V<F>(z, n), V<F>(v, n)}); } \
extern "C" void d_split4_##S(F* x, F* y, F* w, F* u, F* v, F* z, uz order) { fft::split_fft_plan<F> p(fft::from_order, order); auto const n = p.size(); \
  fft::fft(p, split_complex{V<F>(x, n), V<F>(y, n)}, split_complex{V<F>(w, n), V<F>(y, n)}); fft::ifft(p, split_complex{V<F>(u, n), V<F>(v, n)}, split_complex{V<F>(u, n), V<F>(z, n)}); } \
extern "C" void d_split5_##S(F* x, F* y, F* u, F* v, uz order) { fft::split_fft_plan<F> p(fft::from_order, order); auto const n = p.size(); \
  split_complex const a{V<F>(x, n), V<F>(y, n)}; fft::fft(p, a, a); split_complex const b{V<F>(u, n), V<F>(v, n)}; fft::ifft(p, b, b); } \
extern "C" void d_split1_##S(F* x, F* y, F* u, F* v, uz order) { fft::split_fft_plan<F> p(fft::from_order, order); auto const n = p.size(); split_complex const a{V<F>(x, n), V<F>(y, n)}; fft::fft(p, a); split_complex const b{vs(u, n, 2), vs(v, n, 2)}; fft::ifft(p, b); } \
extern "C" void d_dct_##S(F* x, F* y, uz order) { fft::fallback_dct2_plan<F> p(fft::from_order, order); p(V<F>(x, p.size())); p(V<F>(y, p.size())); } \
extern "C" void d_dcts_##S(F* x, uz order) { fft::fallback_dct2_plan<F> p(fft::from_order, order); p(vs(x, p.size(), 3)); } \
extern "C" void d_expc_##S(F* x, F* y, uz order, int d) { fft::experimental::c2c_dit2_plan<F> p(fft::from_order, order); p(V<F>(x, 2 * p.size()), dirof(d)); p(V<F>(y, 2 * p.size()), dirof(-d)); } \
extern "C" void d_expr_##S(F* x, F* y, uz order) { fft::experimental::rfft_plan<F> p(fft::from_order, order); p(V<F>(x, p.size()), fft::direction::forward); p(V<F>(y, p.size()), fft::direction::forward); p(V<F>(y, p.size()), fft::direction::backward); } \
template<typename R> static void dump3(R const& r, F* o, uz* e) { e[0] = r.extent(0); e[1] = r.extent(1); e[2] = r.extent(2); uz k = 0; for (uz i = 0; i < r.extent(0); ++i) for (uz j = 0; j < r.extent(1); ++j) for (uz l = 0; l < r.extent(2); ++l) { auto const z = r(i, j, l); o[k++] = z.real(); o[k++] = z.imag(); } } \
extern "C" void d_stft_##S(F const* x, F* o, uz* e, uz ch, uz len, uz frame, uz tr, uz ov, int win) { fft::stft_options<F> op{.frame_size = frame, .transform_size = tr, .overlap_size = ov}; \
  if (win == 0) op.window = rectangular_window<F>{}; if (win == 2) op.window = hamming_window<F>{}; dump3(fft::stft(M<F const>(x, ch, len), op), o, e); } \
extern "C" void d_stftd_##S(F const* x, F* o, uz* e, uz ch, uz len, uz win) { dump3(fft::stft(ML<F const>(x, ch, len), win), o, e); } \
extern "C" void d_stftr_##S(F const* x, F const* y, F* o, F* u, uz* e, uz* g, uz len, uz len2, uz win) { fft::stft_plan<F> p(win); dump3(p(M<F const>(x, 1, len)), o, e); dump3(p(M<F const>(y, 2, len2)), u, g); } \
extern "C" void d_part_##S(F const* x, F* o, uz* e, uz ch, uz len, uz block) { dump3(convolution::uniform_partition(M<F const>(x, ch, len), block), o, e); }
RT(f, float)
RT(d, double)
// geometry
#define GEO(nm, ...) extern "C" void d_geo_##nm(uz* o, uz order) { using Plan = __VA_ARGS__; Plan p(fft::from_order, order); o[0] = p.order(); o[1] = p.size(); } \
extern "C" void d_max_##nm(uz* o) { using Plan = __VA_ARGS__; o[0] = Plan::max_order(); o[1] = Plan::max_size(); }
#define GEO1(nm, ...) extern "C" void d_geo_##nm(uz* o, uz order) { using Plan = __VA_ARGS__; Plan p(fft::from_order, order); o[0] = p.order(); o[1] = p.size(); }
GEO(fft, fft::fft_plan<Zc<float>>)
GEO(dit4, fft::c2c_dit4_plan<Zc<float>>)
GEO(dif4, fft::c2c_dif4_plan<Zc<float>>)
GEO(dif3, fft::c2c_dif3_plan<Zc<float>>)
GEO(dif5, fft::c2c_dif5_plan<Zc<float>>)
GEO(stock2r, fft::c2c_stockham_dif2r_plan<Zc<float>>)
GEO(stock2i, fft::c2c_stockham_dif2i_plan<Zc<float>>)
GEO(stock3, fft::c2c_stockham_dif3_plan<Zc<float>>)
GEO(stock4, fft::c2c_stockham_dif4_plan<Zc<float>>)
GEO(stock5, fft::c2c_stockham_dif5_plan<Zc<float>>)
GEO(stock8, fft::c2c_stockham_dif8_plan<Zc<float>>)
GEO(stockt4, fft::c2c_stockham_dit4_plan<Zc<float>>)
GEO1(rfft, fft::rfft_plan<float>)
GEO1(split, fft::split_fft_plan<float>)
GEO1(dct, fft::fallback_dct2_plan<float>)
extern "C" void d_geo_dftplan(uz* o, uz n) { fft::dft_plan<Zc<float>> p(n); o[0] = p.size(); }

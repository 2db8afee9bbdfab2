// the library with a vendor back end selected (NEO_HAS_INTEL_IPP, NEO_HAS_INTEL_MKL, NEO_HAS_APPLE_ACCELERATE), compiled against shim_vendor
#include <neo/algorithm.hpp>
#include <neo/complex.hpp>
#include <neo/convolution.hpp>
#include <neo/fft.hpp>
#include "vecs.hpp"
using namespace neo;
using uz = std::size_t;
template<typename F> using Zc = std::complex<F>;
template<typename F> using Nc = neo::scalar_complex<F>;
static fft::direction dirof(int d) { return d > 0 ? fft::direction::forward : fft::direction::backward; }
extern "C" int d_live() { return vendor::live; }
#define FT(S, F, C) \
extern "C" void d_fft_##S(F* x, F* y, uz order, int d) { fft::fft_plan<C> p(fft::from_order, order); auto const n = p.size(); p(V<C>(cx<C>(x), n), dirof(d)); p(V<C>(cx<C>(y), n), dirof(-d)); } \
extern "C" void d_fftstr_##S(F* x, F* y, uz order, int d) { fft::fft_plan<C> p(fft::from_order, order); auto const n = p.size(); p(vs(cx<C>(x), n, 3), dirof(d)); p(vs(cx<C>(y), n, 2), dirof(-d)); } \
extern "C" void d_fftout_##S(F const* x, F* y, F* z, uz order) { fft::fft_plan<C> p(fft::from_order, order); auto const n = p.size(); fft::fft(p, V<C const>(cx<C>(x), n), V<C>(cx<C>(y), n)); fft::ifft(p, V<C const>(cx<C>(x), n), V<C>(cx<C>(z), n)); } \
extern "C" void d_fftouts_##S(F const* x, F* y, F* z, uz order) { fft::fft_plan<C> p(fft::from_order, order); auto const n = p.size(); fft::fft(p, vs(cx<C>(x), n, 2), V<C>(cx<C>(y), n)); fft::ifft(p, vs(cx<C>(x), n, 2), vs(cx<C>(z), n, 3)); } \
extern "C" void d_fftmove_##S(F* x, F* y, uz* o, uz order, uz other) { fft::fft_plan<C> a(fft::from_order, order), b(fft::from_order, other); b = std::move(a); o[0] = b.order(); o[1] = b.size(); fft::fft_plan<C> q(std::move(b)); o[2] = q.order(); o[3] = q.size(); \
  q(V<C>(cx<C>(x), q.size()), dirof(1)); q(vs(cx<C>(y), q.size(), 2), dirof(-1)); } \
extern "C" void d_fftgeo_##S(uz* o, uz order) { fft::fft_plan<C> p(fft::from_order, order); o[0] = p.order(); o[1] = p.size(); } \
extern "C" void d_fftmax_##S(uz* o) { o[0] = fft::fft_plan<C>::max_order(); o[1] = fft::fft_plan<C>::max_size(); }
FT(zf, float, Zc<float>) FT(zd, double, Zc<double>) FT(nf, float, Nc<float>) FT(nd, double, Nc<double>)
#define RT(S, F, C) \
extern "C" void d_rfft_##S(F const* x, F* y, F* z, uz order) { fft::rfft_plan<F, C> p(fft::from_order, order); auto const n = p.size(), m = n / 2 + 1; fft::rfft(p, V<F const>(x, n), V<C>(cx<C>(y), m)); fft::irfft(p, V<C>(cx<C>(y), m), V<F>(z, n)); } \
extern "C" void d_rffts_##S(F const* x, F* y, F* z, uz order) { fft::rfft_plan<F, C> p(fft::from_order, order); auto const n = p.size(), m = n / 2 + 1; fft::rfft(p, vs(x, n, 2), vs(cx<C>(y), m, 3)); fft::irfft(p, vs(cx<C>(y), m, 3), vs(z, n, 2)); } \
extern "C" void d_irfft_##S(F const* x, F* y, F* z, uz order) { fft::rfft_plan<F, C> p(fft::from_order, order); auto const n = p.size(), m = n / 2 + 1; fft::irfft(p, V<C const>(cx<C>(x), m), V<F>(y, n)); fft::irfft(p, V<C const>(cx<C>(x), m), vs(z, n, 2)); } \
extern "C" void d_rmove_##S(F const* x, F* y, uz* o, uz order, uz other) { fft::rfft_plan<F, C> a(fft::from_order, order), b(fft::from_order, other); b = std::move(a); fft::rfft_plan<F, C> q(std::move(b)); o[0] = q.order(); o[1] = q.size(); fft::rfft(q, V<F const>(x, q.size()), V<C>(cx<C>(y), q.size() / 2 + 1)); }
RT(zf, float, Zc<float>) RT(zd, double, Zc<double>) RT(nd, double, Nc<double>)
#define ST(S, F) \
extern "C" void d_split_##S(F* x, F* y, F* u, F* v, uz order, int d) { fft::split_fft_plan<F> p(fft::from_order, order); auto const n = p.size(); p(split_complex{V<F>(x, n), V<F>(y, n)}, dirof(d)); p(split_complex{V<F>(u, n), V<F>(v, n)}, dirof(-d)); } \
extern "C" void d_splitout_##S(F const* x, F const* y, F* u, F* v, F* a, F* b, uz order) { fft::split_fft_plan<F> p(fft::from_order, order); auto const n = p.size(); split_complex const i{V<F const>(x, n), V<F const>(y, n)}; fft::fft(p, i, split_complex{V<F>(u, n), V<F>(v, n)}); fft::ifft(p, i, split_complex{V<F>(a, n), V<F>(b, n)}); } \
extern "C" void d_splitstr_##S(F* x, F* y, uz order, int d) { fft::split_fft_plan<F> p(fft::from_order, order); auto const n = p.size(); p(split_complex{vs(x, n, 2), vs(y, n, 2)}, dirof(d)); } \
extern "C" void d_splitouts_##S(F const* x, F const* y, F* u, F* v, F* a, F* b, uz order) { fft::split_fft_plan<F> p(fft::from_order, order); auto const n = p.size(); \
  fft::fft(p, split_complex{vs(x, n, 2), vs(y, n, 2)}, split_complex{V<F>(u, n), V<F>(v, n)}); fft::ifft(p, split_complex{vs(x, n, 2), vs(y, n, 2)}, split_complex{vs(a, n, 3), vs(b, n, 3)}); } \
extern "C" void d_splitmove_##S(F* x, F* y, uz* o, uz order, uz other) { fft::split_fft_plan<F> a(fft::from_order, order), b(fft::from_order, other); b = std::move(a); fft::split_fft_plan<F> q(std::move(b)); o[0] = q.order(); o[1] = q.size(); auto const n = q.size(); q(split_complex{V<F>(x, n), V<F>(y, n)}, dirof(1)); }
ST(f, float) ST(d, double)
#define DT(S, F, C) \
extern "C" void d_dft_##S(F* x, F* y, uz n, int d) { fft::dft_plan<C> p(n); p(V<C>(cx<C>(x), p.size()), dirof(d)); p(V<C>(cx<C>(y), p.size()), dirof(-d)); } \
extern "C" void d_dftout_##S(F const* x, F* y, F* z, uz n) { fft::dft_plan<C> p(n); fft::dft(p, V<C const>(cx<C>(x), n), V<C>(cx<C>(y), n)); fft::idft(p, V<C const>(cx<C>(x), n), V<C>(cx<C>(z), n)); } \
extern "C" void d_dftouts_##S(F const* x, F* y, F* z, uz n) { fft::dft_plan<C> p(n); fft::dft(p, vs(cx<C>(x), n, 2), V<C>(cx<C>(y), n)); fft::idft(p, vs(cx<C>(x), n, 2), vs(cx<C>(z), n, 3)); } \
extern "C" void d_dftmove_##S(F* x, F* y, uz* o, uz n, uz other) { fft::dft_plan<C> a(n), b(other); b = std::move(a); fft::dft_plan<C> q(std::move(b)); o[0] = q.size(); q(V<C>(cx<C>(x), n), dirof(1)); q(vs(cx<C>(y), n, 2), dirof(-1)); }
DT(zf, float, Zc<float>) DT(zd, double, Zc<double>)
#if defined(NEO_HAS_INTEL_IPP)
#define CT(S, F) \
extern "C" void d_dct2_##S(F* x, F* y, uz order) { fft::intel_ipp_dct2_plan<F> p(fft::from_order, order); p(V<F>(x, p.size())); p(vs(y, p.size(), 2)); } \
extern "C" void d_dct3_##S(F* x, F* y, uz order) { fft::intel_ipp_dct3_plan<F> p(fft::from_order, order); p(V<F>(x, p.size())); p(vs(y, p.size(), 2)); }
CT(f, float) CT(d, double)
#endif
#define AT(S, F) \
extern "C" void d_scale_##S(F* x, F a, uz n) { neo::scale(a, V<F>(x, n)); } \
extern "C" void d_scales_##S(F* x, F a, uz n) { neo::scale(a, vs(x, n, 2)); } \
extern "C" void d_scalem_##S(F* x, F a, uz r, uz c) { neo::scale(a, M<F>(x, r, c)); } \
extern "C" void d_scalez_##S(F* x, F a, F b, uz n) { neo::scale(Zc<F>{a, b}, V<Zc<F>>(cx<Zc<F>>(x), n)); } \
extern "C" void d_scalezr_##S(F* x, F a, uz n) { neo::scale(a, V<Zc<F>>(cx<Zc<F>>(x), n)); } \
extern "C" void d_scalen_##S(F* x, F a, uz n) { neo::scale(a, V<Nc<F>>(cx<Nc<F>>(x), n)); } \
extern "C" void d_madd_##S(F const* a, F const* b, F const* c, F const* d, F const* e, F const* f, F* o, F* q, uz n) { neo::multiply_add(split_complex{V<F const>(a, n), V<F const>(b, n)}, split_complex{V<F const>(c, n), V<F const>(d, n)}, split_complex{V<F const>(e, n), V<F const>(f, n)}, split_complex{V<F>(o, n), V<F>(q, n)}); } \
extern "C" void d_maddin_##S(F const* a, F const* b, F const* c, F const* d, F* o, F* q, uz n) { split_complex const acc{V<F>(o, n), V<F>(q, n)}; neo::multiply_add(split_complex{V<F const>(a, n), V<F const>(b, n)}, split_complex{V<F const>(c, n), V<F const>(d, n)}, acc, acc); } 
AT(f, float) AT(d, double)

namespace cv = neo::convolution;
#define CV(S, F) \
extern "C" void d_fconv_##S(F const* x, F const* h, F* y, uz n, uz m) { cv::fft_convolver<F> c(n, m); c(V<F const>(x, n), V<F const>(h, m), V<F>(y, n + m - 1)); } \
template<typename Conv> static void stream_##S(F* x, F const* h, uz block, uz rows, uz blocks) { auto const part = cv::uniform_partition(M<F const>(h, 1, rows * block), block); Conv c; c.filter(stdex::submdspan(part.to_mdspan(), 0, stdex::full_extent, stdex::full_extent)); for (uz b = 0; b < blocks; ++b) c(V<F>(x + b * block, block)); } \
extern "C" void d_upols_##S(F* x, F const* h, uz block, uz rows, uz blocks) { stream_##S<cv::upols_convolver<Zc<F>>>(x, h, block, rows, blocks); } \
extern "C" void d_supola_##S(F* x, F const* h, uz block, uz rows, uz blocks) { stream_##S<cv::split_upola_convolver<Zc<F>>>(x, h, block, rows, blocks); }
CV(f, float) CV(d, double)

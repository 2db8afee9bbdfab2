// convolution: direct, via FFT, and block-wise streaming with partitioned filters
#include <neo/algorithm.hpp>
#include <neo/complex.hpp>
#include <neo/fft.hpp>
#include <neo/fixed_point.hpp>
#include <neo/convolution.hpp>
#include "vecs.hpp"
using namespace neo;
namespace cv = neo::convolution;
using uz = std::size_t;
extern "C" void mark(int);
#define CT(S, F) \
extern "C" void d_direct_##S(F const* x, F const* h, F* y, uz n, uz m) { cv::direct_convolve(V<F const>(x, n), V<F const>(h, m), V<F>(y, n + m - 1)); } \
extern "C" void d_directs_##S(F const* x, F const* h, F* y, uz n, uz m) { cv::direct_convolve(vs(x, n, 2), vs(h, m, 3), vs(y, n + m - 1, 2)); } \
extern "C" void d_directr_##S(F const* x, F const* h, F* y, uz n, uz m, uz* e) { auto const r = cv::direct_convolve(V<F const>(x, n), V<F const>(h, m)); *e = r.extent(0); for (uz i = 0; i < r.extent(0); ++i) y[i] = r(i); } \
extern "C" void d_fftc_##S(F const* x, F const* h, F* y, uz n, uz m, uz* e) { auto const r = cv::fft_convolve(V<F const>(x, n), V<F const>(h, m)); *e = r.extent(0); for (uz i = 0; i < r.extent(0); ++i) y[i] = r(i); } \
extern "C" void d_fftp_##S(F const* x, F const* h, F* y, F const* u, F const* v, F* z, uz n, uz m, uz* e) { cv::fft_convolver<F> c(n, m); e[0] = c.signal_size(); e[1] = c.patch_size(); e[2] = c.output_size(); c(V<F const>(x, n), V<F const>(h, m), V<F>(y, n + m - 1)); \
  c(V<F const>(u, n), V<F const>(v, m), V<F>(z, n + m - 1)); }
CT(f, float)
CT(d, double)
static constexpr auto all_ = [](auto, auto, auto) { return true; };
template<typename Conv, typename F, typename... A>
static void stream(F* x, F const* h, uz block, uz rows, uz blocks, A... a)
{
    auto const part = cv::uniform_partition(M<F const>(h, 1, rows * block), block);
    Conv c;
    c.filter(stdex::submdspan(part.to_mdspan(), 0, stdex::full_extent, stdex::full_extent), a...);
    for (uz b = 0; b < blocks; ++b) { mark(1); c(V<F>(x + b * block, block)); mark(2); }
}
// a second filter replaces the first in the middle of the stream
template<typename Conv, typename F, typename... A>
static void replace(F* x, F const* h, F const* g, uz block, uz rows, uz rows2, uz blocks, uz more, uz block2, A... a)
{
    auto const part = cv::uniform_partition(M<F const>(h, 1, rows * block), block);
    auto const next = cv::uniform_partition(M<F const>(g, 1, rows2 * block2), block2);
    Conv c;
    c.filter(stdex::submdspan(part.to_mdspan(), 0, stdex::full_extent, stdex::full_extent), a...);
    for (uz b = 0; b < blocks; ++b) c(V<F>(x + b * block, block));
    c.filter(stdex::submdspan(next.to_mdspan(), 0, stdex::full_extent, stdex::full_extent), a...);
    x += blocks * block;
    for (uz b = 0; b < more; ++b) c(V<F>(x + b * block2, block2));
}
// two convolvers run interleaved; a copy taken in the middle continues independently
template<typename Conv, typename F, typename... A>
static void copies(F* x, F* y, F* z, F const* h, F const* g, uz block, uz rows, uz blocks, uz more, A... a)
{
    auto const part = cv::uniform_partition(M<F const>(h, 1, rows * block), block);
    auto const next = cv::uniform_partition(M<F const>(g, 1, rows * block), block);
    auto* const owner = new Conv; auto& c = *owner;
    Conv d;
    c.filter(stdex::submdspan(part.to_mdspan(), 0, stdex::full_extent, stdex::full_extent), a...);
    d.filter(stdex::submdspan(next.to_mdspan(), 0, stdex::full_extent, stdex::full_extent), a...);
    for (uz b = 0; b < blocks; ++b) { c(V<F>(x + b * block, block)); d(V<F>(y + b * block, block)); }
    auto e = c;
    for (uz b = 0; b < more; ++b) { d(V<F>(y + (blocks + b) * block, block)); c(V<F>(x + (blocks + b) * block, block)); e(V<F>(z + b * block, block)); }
    delete owner;
    auto f = std::move(e);
    d = f; // over a used one
    for (uz b = more; b < 2 * more; ++b) d(V<F>(z + b * block, block));
}
template<typename Conv, typename F>
static void spectral(F* x, F const* w, uz block, uz rows, uz blocks)
{
    // filter given directly as spectra (rows x (block + 1) complex numbers)
    using C = typename Conv::value_type;
    Conv c;
    c.filter(M<C const>(cx<C>(w), rows, block + 1));
    for (uz b = 0; b < blocks; ++b) c(vs(x + 2 * b * block, block, 2));
}
#define ST(nm, S, F, C, ARGS, ...) \
extern "C" void d_st_##nm##_##S(F* x, F const* h, uz block, uz rows, uz blocks) { stream<__VA_ARGS__<C>>(x, h, block, rows, blocks ARGS); } \
extern "C" void d_rp_##nm##_##S(F* x, F const* h, F const* g, uz block, uz rows, uz rows2, uz blocks, uz more, uz block2) { replace<__VA_ARGS__<C>>(x, h, g, block, rows, rows2, blocks, more, block2 ARGS); } \
extern "C" void d_cp_##nm##_##S(F* x, F* y, F* z, F const* h, F const* g, uz block, uz rows, uz blocks, uz more) { copies<__VA_ARGS__<C>>(x, y, z, h, g, block, rows, blocks, more ARGS); }
#define NOARG
#define SPARSE , all_
#define STS(S, F, C) \
ST(upols, S, F, C, NOARG, cv::upols_convolver) \
ST(upola, S, F, C, NOARG, cv::upola_convolver) \
ST(upola2, S, F, C, NOARG, cv::upola_convolver_v2) \
ST(split_upola, S, F, C, NOARG, cv::split_upola_convolver) \
ST(split_upols, S, F, C, NOARG, cv::split_upols_convolver) \
ST(sparse_upols, S, F, C, SPARSE, cv::sparse_upols_convolver) \
ST(sparse_upola, S, F, C, SPARSE, cv::sparse_upola_convolver)
STS(f, float, std::complex<float>)
STS(d, double, std::complex<double>)
extern "C" void d_sp_upols(float* x, float const* w, uz block, uz rows, uz blocks) { spectral<cv::upols_convolver<std::complex<float>>>(x, w, block, rows, blocks); }
extern "C" void d_sp_upola(float* x, float const* w, uz block, uz rows, uz blocks) { spectral<cv::upola_convolver<std::complex<float>>>(x, w, block, rows, blocks); }
extern "C" void d_sp_split(float* x, float const* w, uz block, uz rows, uz blocks) { spectral<cv::split_upols_convolver<std::complex<float>>>(x, w, block, rows, blocks); }
// the second overlap-add convolver takes any call length that is at least one block
extern "C" void d_any_f(float* x, float const* h, uz block, uz rows, uz const* lens, uz calls)
{
    auto const part = cv::uniform_partition(M<float const>(h, 1, rows * block), block);
    cv::upola_convolver_v2<std::complex<float>> c;
    c.filter(stdex::submdspan(part.to_mdspan(), 0, stdex::full_extent, stdex::full_extent));
    for (uz i = 0; i < calls; ++i) { mark(1); c(V<float>(x, lens[i])); mark(2); x += lens[i]; }
}
// a new filter, of another block size, in the middle of a block
extern "C" void d_anyrp_f(float* x, float const* h, float const* g, uz block, uz rows, uz block2, uz rows2, uz const* lens, uz calls, uz const* lens2, uz calls2)
{
    auto const part = cv::uniform_partition(M<float const>(h, 1, rows * block), block);
    auto const next = cv::uniform_partition(M<float const>(g, 1, rows2 * block2), block2);
    cv::upola_convolver_v2<std::complex<float>> c;
    c.filter(stdex::submdspan(part.to_mdspan(), 0, stdex::full_extent, stdex::full_extent));
    for (uz i = 0; i < calls; ++i) { c(V<float>(x, lens[i])); x += lens[i]; }
    c.filter(stdex::submdspan(next.to_mdspan(), 0, stdex::full_extent, stdex::full_extent));
    for (uz i = 0; i < calls2; ++i) { c(V<float>(x, lens2[i])); x += lens2[i]; }
}
// sparse filters: dropped coefficients behave as zeros
extern "C" void d_mask_f(float* x, float const* w, unsigned char const* keep, uz block, uz rows, uz blocks)
{
    using C = std::complex<float>;
    cv::sparse_upols_convolver<C> c;
    c.filter(M<C const>(cx<C>(w), rows, block + 1), [=](auto r, auto k, auto) { return keep[uz(r) * (block + 1) + uz(k)] != 0; });
    for (uz b = 0; b < blocks; ++b) c(V<float>(x + b * block, block));
}
extern "C" void d_zmask_f(float* x, float const* w, unsigned char const* keep, uz block, uz rows, uz blocks)
{
    using C = std::complex<float>;
    cv::sparse_upola_convolver<C> c;
    c.filter(M<C const>(cx<C>(w), rows, block + 1), [=](auto r, auto k, auto) { return keep[uz(r) * (block + 1) + uz(k)] != 0; });
    for (uz b = 0; b < blocks; ++b) c(V<float>(x + b * block, block));
}
// filter objects on their own: acc += fdl * row, before and after the filter is replaced (second one may have another shape)
template<typename Fl, typename C, typename... A>
static void filters(typename C::value_type const* w, uz rows, uz bins, uz r, typename C::value_type const* w2, uz rows2, uz bins2, uz r2, typename C::value_type const* x, typename C::value_type* acc, typename C::value_type* acc2, A... a)
{
    using F = typename C::value_type;
    Fl f;
    auto const go = [&](uz row, uz n, F* to) {
        if constexpr (requires { f(split_complex{V<F const>(x, n), V<F const>(x, n)}, row, M<F>(to, 2, n)); }) {
            f(split_complex{V<F const>(x, n), V<F const>(x + n, n)}, row, M<F>(to, 2, n));
        } else {
            f(V<C const>(cx<C>(x), n), row, V<C>(cx<C>(to), n));
        }
    };
    f.filter(M<C const>(cx<C>(w), rows, bins), a...);
    go(r, bins, acc);
    f.filter(M<C const>(cx<C>(w2), rows2, bins2), a...);
    go(r2, bins2, acc2);
}
#define FLT(nm, F, ...) extern "C" void d_filt_##nm(F const* w, uz rows, uz bins, uz r, F const* w2, uz rows2, uz bins2, uz r2, F const* x, F* a, F* b)
FLT(dense_f, float) { filters<cv::dense_filter<std::complex<float>>, std::complex<float>>(w, rows, bins, r, w2, rows2, bins2, r2, x, a, b); }
FLT(dense_d, double) { filters<cv::dense_filter<std::complex<double>>, std::complex<double>>(w, rows, bins, r, w2, rows2, bins2, r2, x, a, b); }
FLT(split_f, float) { filters<cv::dense_split_filter<float>, std::complex<float>>(w, rows, bins, r, w2, rows2, bins2, r2, x, a, b); }
FLT(split_d, double) { filters<cv::dense_split_filter<double>, std::complex<double>>(w, rows, bins, r, w2, rows2, bins2, r2, x, a, b); }
FLT(sparse_f, float) { filters<cv::sparse_filter<std::complex<float>>, std::complex<float>>(w, rows, bins, r, w2, rows2, bins2, r2, x, a, b, all_); }
FLT(sparse_d, double) { filters<cv::sparse_filter<std::complex<double>>, std::complex<double>>(w, rows, bins, r, w2, rows2, bins2, r2, x, a, b, all_); }
// overlap stages with a caller-supplied spectral operation: spectrum * w
template<typename Ov, typename F>
static void overlap(F* x, F const* w, F* spec, uz block, uz filter, uz blocks, uz* e)
{
    using C = typename Ov::value_type;
    Ov o(block, filter);
    e[0] = o.block_size(); e[1] = o.filter_size(); e[2] = o.transform_size();
    for (uz b = 0; b < blocks; ++b) {
        o(V<F>(x + b * block, block), [&](auto s) {
            e[3] = s.extent(0);
            for (uz k = 0; k < s.extent(0); ++k) { C const v = s[k]; spec[2 * (b * s.extent(0) + k)] = v.real(); spec[2 * (b * s.extent(0) + k) + 1] = v.imag(); C const g{w[2 * k], w[2 * k + 1]}; s[k] = v * g; }
        });
    }
}
extern "C" void d_ov_add_f(float* x, float const* w, float* s, uz block, uz filter, uz blocks, uz* e) { overlap<cv::overlap_add<std::complex<float>>>(x, w, s, block, filter, blocks, e); }
extern "C" void d_ov_add_d(double* x, double const* w, double* s, uz block, uz filter, uz blocks, uz* e) { overlap<cv::overlap_add<std::complex<double>>>(x, w, s, block, filter, blocks, e); }
extern "C" void d_ov_save_f(float* x, float const* w, float* s, uz block, uz filter, uz blocks, uz* e) { overlap<cv::overlap_save<std::complex<float>>>(x, w, s, block, filter, blocks, e); }
extern "C" void d_ov_save_d(double* x, double const* w, double* s, uz block, uz filter, uz blocks, uz* e) { overlap<cv::overlap_save<std::complex<double>>>(x, w, s, block, filter, blocks, e); }
// ring index of the frequency-domain delay line
extern "C" void d_ring(uz segments, uz steps, uz reset_at, uz* o)
{
    cv::fdl_index<uz> r(segments);
    for (uz i = 0; i < steps; ++i) {
        if (i == reset_at) r.reset();
        r([&](uz p) { *o++ = 1000 + p; }, [&](uz a, uz b) { *o++ = a; *o++ = b; });
    }
}
extern "C" void d_ring32(unsigned segments, unsigned steps, unsigned* o)
{
    cv::fdl_index<unsigned> r(segments);
    for (unsigned i = 0; i < steps; ++i) r([&](unsigned p) { *o++ = 1000 + p; }, [&](unsigned a, unsigned b) { *o++ = a; *o++ = b; });
}
template<typename I> static void ringn(I segments, unsigned steps, unsigned* o)
{
    cv::fdl_index<I> r(segments);
    for (unsigned i = 0; i < steps; ++i) r([&](I p) { *o++ = 1000 + unsigned(p); }, [&](I a, I b) { *o++ = unsigned(a); *o++ = unsigned(b); });
}
extern "C" void d_ring_u8(unsigned segments, unsigned steps, unsigned* o) { ringn<std::uint8_t>(std::uint8_t(segments), steps, o); }
extern "C" void d_ring_u16(unsigned segments, unsigned steps, unsigned* o) { ringn<std::uint16_t>(std::uint16_t(segments), steps, o); }
extern "C" void d_ring_i8(unsigned segments, unsigned steps, unsigned* o) { ringn<std::int8_t>(std::int8_t(segments), steps, o); }
extern "C" void d_ring_i32(unsigned segments, unsigned steps, unsigned* o) { ringn<int>(int(segments), steps, o); }
extern "C" void d_ring_i64(unsigned segments, unsigned steps, unsigned* o) { ringn<std::ptrdiff_t>(std::ptrdiff_t(segments), steps, o); }
// delay lines: insert rows in a given order, then read all rows back
#define FDL(nm, F, ...) \
extern "C" void d_fdl_##nm(F const* x, F* y, uz rows, uz bins, uz const* where, uz inserts) { using T_ = __VA_ARGS__; using C = std::complex<F>; T_ l(stdex::dextents<uz, 2>(rows, bins)); \
  for (uz i = 0; i < inserts; ++i) l.insert(V<C const>(cx<C>(x) + i * bins, bins), where[i]); \
  for (uz r = 0; r < rows; ++r) { auto const row = l[r]; for (uz k = 0; k < bins; ++k) { C const v = at_(row, k); y[2 * (r * bins + k)] = v.real(); y[2 * (r * bins + k) + 1] = v.imag(); } } }
template<typename R> static auto at_(R const& r, uz k) { if constexpr (requires { r.real; r.imag; }) { return std::complex{r.real[k], r.imag[k]}; } else { return r[k]; } }
FDL(dense_f, float, cv::dense_fdl<std::complex<float>>)
FDL(dense_d, double, cv::dense_fdl<std::complex<double>>)
FDL(split_f, float, cv::dense_split_fdl<float>)
FDL(split_d, double, cv::dense_split_fdl<double>)

// plans as values: used, copied, assigned over a plan of another order, moved, after the original is gone
#include <neo/algorithm.hpp>
#include <neo/complex.hpp>
#include <neo/convolution.hpp>
#include <neo/fft.hpp>
#include <neo/fft/experimental/rfft.hpp>
#include <neo/fft/fallback/fallback_split_fft_plan.hpp>
#include <neo/fft/stft.hpp>
#include <neo/fft/dct.hpp>
#include <neo/fft/dft.hpp>
#include <neo/fft/reference/c2c_dif3_plan.hpp>
#include <neo/fft/reference/c2c_dif5_plan.hpp>
#include <neo/fft/reference/c2c_dit2_plan.hpp>
#include <neo/fft/reference/c2c_dit4_plan.hpp>
#include <neo/fft/reference/c2c_stockham_dif2_plan.hpp>
#include <neo/fft/reference/c2c_stockham_dif3_plan.hpp>
#include <neo/fft/reference/c2c_stockham_dif4_plan.hpp>
#include <neo/fft/reference/c2c_stockham_dif5_plan.hpp>
#include <neo/fft/reference/c2c_stockham_dif8_plan.hpp>
#include <neo/fft/reference/c2c_stockham_dit4_plan.hpp>
#include "vecs.hpp"
using namespace neo;
using uz = std::size_t;
using Z = std::complex<float>;
// use(plan, in, out): u by the original, v by a copy moved into place, w by one assigned over a used plan of another size, s is scratch; o: what the plans report
template<typename Make, typename Use> static void life(Make make, Use use, float const* x, float const* y, float const* z, float* u, float* v, float* w, float* s, uz* o)
{
    auto* const a = new auto(make(0));
    use(*a, x, u);
    auto b = *a;
    auto c = make(1);
    use(c, s, s);
    c = *a;
    delete a;
    auto d = std::move(b);
    auto e = make(2);
    e      = std::move(c);
    use(d, y, v);
    use(e, z, w);
    if constexpr (requires { d.size(); }) { o[0] = d.size(); o[1] = e.size(); }
    if constexpr (requires { d.order(); }) { o[2] = d.order(); o[3] = e.order(); }
}
static void put(float const* a, float* b, uz n) { if (a != b) for (uz i = 0; i < n; ++i) b[i] = a[i]; }
#define L(nm, MK, N, ...) extern "C" void d_life_##nm(float const* x, float const* y, float const* z, float* u, float* v, float* w, float* s, uz* o, uz k) \
{ using Plan = __VA_ARGS__; life([k](uz q) { return Plan MK; }, [](Plan& p, float const* i, float* t) { auto const n = p.size(); put(i, t, N); USE; }, x, y, z, u, v, w, s, o); }
#define ORD (fft::from_order, k + q)
#define USE p(V<Z>(cx<Z>(t), n), fft::direction::forward)
L(fft, ORD, 2 * n, fft::fft_plan<Z>)
L(v1, ORD, 2 * n, fft::c2c_dit2_plan<Z, fft::kernel::c2c_dit2_v1>)
L(dit4, ORD, 2 * n, fft::c2c_dit4_plan<Z>)
L(dif4, ORD, 2 * n, fft::c2c_dif4_plan<Z>)
L(dif3, ORD, 2 * n, fft::c2c_dif3_plan<Z>)
L(dif5, ORD, 2 * n, fft::c2c_dif5_plan<Z>)
L(stock2r, ORD, 2 * n, fft::c2c_stockham_dif2r_plan<Z>)
L(stock2i, ORD, 2 * n, fft::c2c_stockham_dif2i_plan<Z>)
L(stock3, ORD, 2 * n, fft::c2c_stockham_dif3_plan<Z>)
L(stock4, ORD, 2 * n, fft::c2c_stockham_dif4_plan<Z>)
L(stock5, ORD, 2 * n, fft::c2c_stockham_dif5_plan<Z>)
L(stock8, ORD, 2 * n, fft::c2c_stockham_dif8_plan<Z>)
L(stockt4, ORD, 2 * n, fft::c2c_stockham_dit4_plan<Z>)
L(dft, (k + q), 2 * n, fft::dft_plan<Z>)
#undef USE
#define USE p(V<float>(t, 2 * n), fft::direction::forward)
L(expc, ORD, 2 * n, fft::experimental::c2c_dit2_plan<float>)
#undef USE
#define USE p(split_complex{V<float>(t, n), V<float>(t + n, n)}, fft::direction::forward)
L(split, ORD, 2 * n, fft::split_fft_plan<float>)
#undef USE
#define USE p(V<float>(t, n))
L(dct, ORD, n, fft::fallback_dct2_plan<float>)
#undef USE
#define USE fft::rfft(p, V<float const>(i, n), V<Z>(cx<Z>(t), n / 2 + 1))
L(rfft, ORD, 0, fft::rfft_plan<float>)
#undef USE
#define USE fft::irfft(p, V<Z const>(cx<Z>(i), n / 2 + 1), V<float>(t, n))
L(irfft, ORD, 0, fft::rfft_plan<float>)
// k samples with four taps
extern "C" void d_life_fftconv(float const* x, float const* y, float const* z, float* u, float* v, float* w, float* s, uz* o, uz k)
{
    using Plan = convolution::fft_convolver<float>;
    life([k](uz q) { return Plan(k + q, 4); }, [](Plan& p, float const* i, float* t) { p(V<float const>(i, p.signal_size()), V<float const>(i + p.signal_size(), 4), V<float>(t, p.output_size())); }, x, y, z, u, v, w, s, o);
}
// one channel of two windows of k samples, rectangular
extern "C" void d_life_stft(float const* x, float const* y, float const* z, float* u, float* v, float* w, float* s, uz* o, uz k)
{
    using Plan = fft::stft_plan<float>;
    life([k](uz q) { return std::pair<Plan, uz>(Plan(fft::stft_options<float>{.frame_size = k << q, .transform_size = k << q, .overlap_size = 0, .window = rectangular_window<float>{}}), k << q); },
         [](std::pair<Plan, uz>& p, float const* i, float* t) { auto const r = p.first(M<float const>(i, 1, p.second * 2)); uz c = 0; for (uz f = 0; f < r.extent(1); ++f) for (uz b = 0; b < r.extent(2); ++b) { t[c++] = r(0, f, b).real(); t[c++] = r(0, f, b).imag(); } }, x, y, z, u, v, w, s, o);
}

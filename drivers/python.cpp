// the Python extension module, with a stand-in for pybind11
#include <pybind11/pybind11.h>
#include <cstring>
#include <string_view>
#include <cstddef>
#include NEO_PYTHON_MAIN
using uz = std::size_t;
template<typename T> using arr = py::array_t<T>;
// one call of an exported function: the overload whose signature matches is invoked for every registration under that name
template<typename T> struct call1 { char const* name; arr<T> a; std::optional<uz> n; neo::fft::norm norm; arr<T> out; uz hits; };
template<typename T> struct call2 { char const* name; arr<T> a, b; neo::convolution::mode mode; arr<T> out; uz hits; };
struct callf { char const* name; double in; float inf; double out; float outf; uz hits, hitsf; };
struct callr { char const* name; uz n; double d; arr<double> out; uz hits; };
struct calle { char const* e; char const* v; int out; uz hits; };
static void* cur; static int kind;
static bool eq(char const* a, char const* b) { while (*a != 0 and *a == *b) { ++a; ++b; } return *a == *b; }
namespace pybind11 {
template<typename T> void on_def(module_&, char const* n, arr<T> (*f)(arr<T>, std::optional<uz>, neo::fft::norm))
{
    if (kind == (std::is_same_v<T, std::complex<float>> ? 10 : 11)) { auto& c = *static_cast<call1<T>*>(cur); if (eq(n, c.name)) { c.out = f(c.a, c.n, c.norm); ++c.hits; } }
}
template<typename T> void on_def(module_&, char const* n, arr<T> (*f)(arr<T>, arr<T>, neo::convolution::mode))
{
    if (kind == (std::is_same_v<T, float> ? 20 : 21)) { auto& c = *static_cast<call2<T>*>(cur); if (eq(n, c.name)) { c.out = f(c.a, c.b, c.mode); ++c.hits; } }
}
inline void on_def(module_&, char const* n, vectorized<double (*)(double)> f) { if (kind == 30) { auto& c = *static_cast<callf*>(cur); if (eq(n, c.name)) { c.out = f.f(c.in); ++c.hits; } } }
inline void on_def(module_&, char const* n, vectorized<float (*)(float)> f) { if (kind == 30) { auto& c = *static_cast<callf*>(cur); if (eq(n, c.name)) { c.outf = f.f(c.inf); ++c.hitsf; } } }
inline void on_def(module_&, char const* n, arr<double> (*f)(uz, double)) { if (kind == 40) { auto& c = *static_cast<callr*>(cur); if (eq(n, c.name)) { c.out = f(c.n, c.d); ++c.hits; } } }
template<typename E> requires std::is_enum_v<E> void on_enum(module_&, char const* n, char const* v, E e) { if (kind == 50) { auto& c = *static_cast<calle*>(cur); if (eq(n, c.e) and eq(v, c.v)) { c.out = int(e); ++c.hits; } } }
}
template<typename T> static void go(T& c, int k) { cur = &c; kind = k; py::module_ m; neo_python_module(m); kind = 0; }
static neo::fft::norm nrm(int i) { return i == 0 ? neo::fft::norm::backward : i == 1 ? neo::fft::norm::ortho : neo::fft::norm::forward; }
static neo::convolution::mode mod_(int i) { return i == 0 ? neo::convolution::mode::full : i == 1 ? neo::convolution::mode::valid : neo::convolution::mode::same; }
template<typename T> static auto view(T* p, std::ptrdiff_t n, std::ptrdiff_t step, std::ptrdiff_t nd, std::ptrdiff_t n1)
{
    auto const fl = nd == 1 ? (step == 1 or n <= 1 ? 3 : 0) : (n1 == step ? 1 : 0);
    return arr<T>(p, nd, n, n1, step * std::ptrdiff_t(sizeof(T)), sizeof(T), fl);
}
// inverse: 0 fft, 1 ifft; nn < 0: no n given
#define PF(S, T, K) \
extern "C" void d_py_fft_##S(T* x, T* y, std::ptrdiff_t len, std::ptrdiff_t step, std::ptrdiff_t nd, std::ptrdiff_t nn, int norm, int inverse, uz* e) { using C = std::complex<T>; \
  call1<C> c{inverse ? "ifft" : "fft", view(reinterpret_cast<C*>(x) + (step < 0 ? (1 - len) * step : 0), len, step, nd, step), nn < 0 ? std::nullopt : std::optional<uz>(uz(nn)), nrm(norm), arr<C>{}, 0}; go(c, K); e[0] = c.hits; e[1] = uz(c.out.n_[0]); e[2] = uz(c.out.s_[0]); e[3] = uz(c.out.nd_); \
  for (std::ptrdiff_t i = 0; i < c.out.n_[0]; ++i) { y[2 * i] = c.out.p_[i].real(); y[2 * i + 1] = c.out.p_[i].imag(); } }
PF(f, float, 10)
PF(d, double, 11)
#define PC(S, T, K) \
extern "C" void d_py_conv_##S(T* x, T* h, T* y, std::ptrdiff_t n, std::ptrdiff_t sx, std::ptrdiff_t dx, std::ptrdiff_t m, std::ptrdiff_t sh, std::ptrdiff_t dh, int mode, int viafft, uz* e) { \
  call2<T> c{viafft ? "fft_convolve" : "direct_convolve", view(x + (sx < 0 ? (1 - n) * sx : 0), n, sx, dx, sx), view(h + (sh < 0 ? (1 - m) * sh : 0), m, sh, dh, sh), mod_(mode), arr<T>{}, 0}; go(c, K); e[0] = c.hits; e[1] = uz(c.out.n_[0]); e[2] = uz(c.out.nd_); \
  for (std::ptrdiff_t i = 0; i < c.out.n_[0]; ++i) y[i] = c.out.p_[i]; }
PC(f, float, 20)
PC(d, double, 21)
static char const* fnname(int i) { return i == 0 ? "amplitude_to_db" : i == 1 ? "amplitude_to_db_estimate" : i == 2 ? "a_weighting" : i == 3 ? "fast_log2" : "fast_log10"; }
extern "C" void d_py_scalar(int i, double x, float xf, double* y, float* yf, uz* e) { callf c{fnname(i), x, xf, 0, 0, 0, 0}; go(c, 30); *y = c.out; *yf = c.outf; e[0] = c.hits; e[1] = c.hitsf; }
extern "C" void d_py_freq(uz n, double d, double* y, uz* e) { callr c{"rfftfreq", n, d, arr<double>{}, 0}; go(c, 40); e[0] = c.hits; e[1] = uz(c.out.n_[0]); for (std::ptrdiff_t i = 0; i < c.out.n_[0]; ++i) y[i] = c.out.p_[i]; }
extern "C" void d_py_enum(char const* en, char const* v, uz* e) { calle c{en, v, -1, 0}; go(c, 50); e[0] = c.hits; e[1] = uz(c.out); }
extern "C" void d_lib_enum(uz* e) { e[0] = uz(neo::fft::norm::backward); e[1] = uz(neo::fft::norm::ortho); e[2] = uz(neo::fft::norm::forward); e[3] = uz(neo::convolution::mode::full); e[4] = uz(neo::convolution::mode::valid); e[5] = uz(neo::convolution::mode::same);
  e[6] = uz(neo::convolution::method::automatic); e[7] = uz(neo::convolution::method::direct); e[8] = uz(neo::convolution::method::fft); e[9] = uz(neo::convolution::method::ola); e[10] = uz(neo::convolution::method::ols); e[11] = uz(neo::convolution::method::upola); e[12] = uz(neo::convolution::method::upols); }

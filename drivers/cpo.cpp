// customization points: the right function is chosen, for built-in, library and user types
#include <neo/math/abs.hpp>
#include <neo/math/conj.hpp>
#include <neo/math/real.hpp>
#include <neo/math/imag.hpp>
#include <neo/math/log2.hpp>
#include <neo/math/polar.hpp>
#include <neo/math/float_equality.hpp>
#include <neo/complex/complex.hpp>
#include <neo/complex/scalar_complex.hpp>
#include "common.hpp"
#include <type_traits>
namespace user {
// member functions
struct memb {
    float v;
    constexpr auto abs() const noexcept { return v + 1.0F; }
    constexpr auto conj() const noexcept { return memb{v + 2.0F}; }
    constexpr auto real() const noexcept { return v + 3.0F; }
    constexpr auto imag() const noexcept { return v + 4.0F; }
};
// functions found by argument-dependent lookup
struct adl { float v; };
constexpr auto abs(adl x) noexcept { return x.v + 5.0F; }
constexpr auto conj(adl x) noexcept { return adl{x.v + 6.0F}; }
constexpr auto real(adl x) noexcept { return x.v + 7.0F; }
constexpr auto imag(adl x) noexcept { return x.v + 8.0F; }
constexpr auto log2(adl x) noexcept { return x.v + 9.0F; }
constexpr auto polar(adl r, adl t) noexcept { return r.v * 10.0F + t.v; }
// both: the member wins
struct both {
    float v;
    constexpr auto abs() const noexcept { return v + 11.0F; }
    constexpr auto conj() const noexcept { return both{v + 12.0F}; }
    constexpr auto real() const noexcept { return v + 13.0F; }
    constexpr auto imag() const noexcept { return v + 14.0F; }
};
constexpr auto abs(both x) noexcept { return x.v - 1.0F; }
constexpr auto conj(both x) noexcept { return both{x.v - 1.0F}; }
constexpr auto real(both x) noexcept { return x.v - 1.0F; }
constexpr auto imag(both x) noexcept { return x.v - 1.0F; }
struct none {};
}
#define S
// a point that rejects the type is a value no correct call yields
template<class F, class X> static float callp(F f, X x) { if constexpr (requires { f(x); }) return f(x); else return -1e30F; }
template<class F, class X> static float callv(F f, X x) { if constexpr (requires { f(x).v; }) return f(x).v; else return -1e30F; }
#define UNARY(ty, sfx) \
DR(float, cp_abs_##sfx)(float v) { return callp(neo::math::abs, ty{v}); } \
DR(float, cp_real_##sfx)(float v) { return callp(neo::math::real, ty{v}); } \
DR(float, cp_imag_##sfx)(float v) { return callp(neo::math::imag, ty{v}); } \
DR(float, cp_conj_##sfx)(float v) { return callv(neo::math::conj, ty{v}); }
UNARY(user::memb, memb) UNARY(user::adl, adl) UNARY(user::both, both)
#define REFS(sfx, a, c, r, i) \
RR(float, cp_abs_##sfx)(float v) { return v + a; } RR(float, cp_conj_##sfx)(float v) { return v + c; } \
RR(float, cp_real_##sfx)(float v) { return v + r; } RR(float, cp_imag_##sfx)(float v) { return v + i; }
REFS(memb, 1.0F, 2.0F, 3.0F, 4.0F) REFS(adl, 5.0F, 6.0F, 7.0F, 8.0F) REFS(both, 11.0F, 12.0F, 13.0F, 14.0F)
DR(float, cp_log2_adl)(float v) { return callp(neo::math::log2, user::adl{v}); }
RR(float, cp_log2_adl)(float v) { return v + 9.0F; }
DR(float, cp_polar_adl)(float v, float w) { return neo::math::polar(user::adl{v}, user::adl{w}); }
RR(float, cp_polar_adl)(float v, float w) { return v * 10.0F + w; }
#define FLT(T, sfx, e) \
DR(T, cp_abs_##sfx)(T x) { return neo::math::abs(x); } RR(T, cp_abs_##sfx)(T x) { return std::fabs(x); } \
DR(T, cp_real_##sfx)(T x) { return neo::math::real(x); } RR(T, cp_real_##sfx)(T x) { return x; } \
DR(T, cp_log2_##sfx)(T x) { return neo::math::log2(x); } RR(T, cp_log2_##sfx)(T x) { return std::log2(x); } \
D(cp_polar_##sfx)(T r, T t, T* o_##e) { auto const z = neo::math::polar(r, t); o_##e[0] = z.real(); o_##e[1] = z.imag(); } \
R(cp_polar_##sfx)(T r, T t, T* o_##e) { o_##e[0] = r * std::cos(t); o_##e[1] = r * std::sin(t); } \
DR(T, cp_zabs_##sfx)(T x, T y) { return neo::math::abs(std::complex<T>(x, y)); } RR(T, cp_zabs_##sfx)(T x, T y) { return std::hypot(x, y); } \
DR(T, cp_zreal_##sfx)(T x, T y) { return neo::math::real(std::complex<T>(x, y)); } RR(T, cp_zreal_##sfx)(T x, T y) { return x; } \
DR(T, cp_zimag_##sfx)(T x, T y) { return neo::math::imag(std::complex<T>(x, y)); } RR(T, cp_zimag_##sfx)(T x, T y) { return y; } \
D(cp_zconj_##sfx)(T x, T y, T* o_##e) { auto const z = neo::math::conj(std::complex<T>(x, y)); o_##e[0] = z.real(); o_##e[1] = z.imag(); } \
R(cp_zconj_##sfx)(T x, T y, T* o_##e) { o_##e[0] = x; o_##e[1] = -y; } \
DR(T, cp_sreal_##sfx)(T x, T y) { return neo::math::real(neo::scalar_complex<T>(x, y)); } RR(T, cp_sreal_##sfx)(T x, T y) { return x; } \
DR(T, cp_simag_##sfx)(T x, T y) { return neo::math::imag(neo::scalar_complex<T>(x, y)); } RR(T, cp_simag_##sfx)(T x, T y) { return y; } \
DR(bool, cp_eq_##sfx)(T x, T y) { return neo::float_equality::exact(x, y); } RR(bool, cp_eq_##sfx)(T x, T y) { return x == y; } \
DR(bool, cp_zeq_##sfx)(T x, T y, T u, T v) { return neo::float_equality::exact(std::complex<T>(x, y), std::complex<T>(u, v)); } RR(bool, cp_zeq_##sfx)(T x, T y, T u, T v) { return x == u && y == v; } \
DR(bool, cp_seq_##sfx)(T x, T y, T u, T v) { return neo::float_equality::exact(neo::scalar_complex<T>(x, y), neo::scalar_complex<T>(u, v)); } RR(bool, cp_seq_##sfx)(T x, T y, T u, T v) { return x == u && y == v; }
FLT(float, f32, f) FLT(double, f64, d)
#define INT(T, sfx, R_) \
DR(int, cp_tabs_##sfx)() { return sizeof(neo::math::abs(T{})); } RR(int, cp_tabs_##sfx)() { return sizeof(R_); }
DR(int, cp_abs_i8)(std::int8_t x) { return neo::math::abs(x); }
RR(int, cp_abs_i8)(std::int8_t x) { return x < 0 ? -int{x} : int{x}; }
DR(int, cp_abs_i16)(std::int16_t x) { return neo::math::abs(x); }
RR(int, cp_abs_i16)(std::int16_t x) { return x < 0 ? -int{x} : int{x}; }
DR(int, cp_abs_i32)(std::int32_t x) { return neo::math::abs(x); }
RR(int, cp_abs_i32)(std::int32_t x) { return x < 0 ? -x : x; }
DR(std::int64_t, cp_abs_i64)(std::int64_t x) { return neo::math::abs(x); }
RR(std::int64_t, cp_abs_i64)(std::int64_t x) { return x < 0 ? -x : x; }
DR(std::uint32_t, cp_abs_u32)(std::uint32_t x) { return neo::math::abs(x); }
RR(std::uint32_t, cp_abs_u32)(std::uint32_t x) { return x; }
DR(std::uint8_t, cp_abs_u8)(std::uint8_t x) { return neo::math::abs(x); }
RR(std::uint8_t, cp_abs_u8)(std::uint8_t x) { return x; }
DR(std::uint64_t, cp_abs_u64)(std::uint64_t x) { return neo::math::abs(x); }
RR(std::uint64_t, cp_abs_u64)(std::uint64_t x) { return x; }
DR(bool, cp_eq_i32)(std::int32_t x, std::int32_t y) { return neo::float_equality::exact(x, y); }
RR(bool, cp_eq_i32)(std::int32_t x, std::int32_t y) { return x == y; }
DR(double, cp_log2_i32)(std::int32_t x) { return neo::math::log2(x); }
RR(double, cp_log2_i32)(std::int32_t x) { return std::log2(static_cast<double>(x)); }
DR(double, cp_log2_u64)(std::uint64_t x) { return neo::math::log2(x); }
RR(double, cp_log2_u64)(std::uint64_t x) { return std::log2(static_cast<double>(x)); }
// which types the points accept, and the classification of complex types
template<class F, class X> concept takes = requires(F f, X x) { f(x); };
template<class F, class X> concept takes2 = requires(F f, X x) { f(x, x); };
DR(int, cp_reject)()
{
    return takes<decltype(neo::math::abs), user::none> + 2 * takes<decltype(neo::math::conj), user::none> + 4 * takes<decltype(neo::math::real), user::none>
         + 8 * takes<decltype(neo::math::imag), user::none> + 16 * takes<decltype(neo::math::log2), user::none>
         + 64 * takes<decltype(neo::math::log2), user::memb>;
}
RR(int, cp_reject)() { return 0; }
DR(int, cp_class)()
{
    return neo::complex<std::complex<float>> + 2 * neo::complex<std::complex<double>> + 4 * neo::complex<neo::scalar_complex<float>>
         + 8 * neo::complex<neo::scalar_complex<double>> + 16 * neo::complex<float> + 32 * neo::complex<double> + 64 * neo::complex<int>
         + 128 * neo::complex<user::memb>;
}
RR(int, cp_class)() { return 15; }

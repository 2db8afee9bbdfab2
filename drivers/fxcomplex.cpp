// fixed-point complex numbers
#include <neo/fixed_point.hpp>
#include <neo/fixed_point/complex.hpp>
#include "common.hpp"
template<class I> static I sat_(std::int64_t x) { std::int64_t const lo = -(std::int64_t{1} << (8 * sizeof(I) - 1)), hi = -lo - 1; return static_cast<I>(x < lo ? lo : (x > hi ? hi : x)); }
#define FXC(s, Q, I) \
static auto mk_##s(I a, I b) { return neo::fixed_point_complex<Q>{Q{neo::underlying_value, a}, Q{neo::underlying_value, b}}; } \
extern "C" I d_fxc_re_##s(I a, I b) { return mk_##s(a, b).real().value(); } \
extern "C" I r_fxc_re_##s(I a, I b) { return a; } \
extern "C" I d_fxc_im_##s(I a, I b) { return mk_##s(a, b).imag().value(); } \
extern "C" I r_fxc_im_##s(I a, I b) { return b; } \
extern "C" I d_fxc_defre_##s() { return neo::fixed_point_complex<Q>{}.real().value(); } \
extern "C" I r_fxc_defre_##s() { return 0; } \
extern "C" I d_fxc_defim_##s() { return neo::fixed_point_complex<Q>{}.imag().value(); } \
extern "C" I r_fxc_defim_##s() { return 0; } \
extern "C" I d_fxc_onere_##s(I a) { return neo::fixed_point_complex<Q>{Q{neo::underlying_value, a}}.real().value(); } \
extern "C" I r_fxc_onere_##s(I a) { return a; } \
extern "C" I d_fxc_oneim_##s(I a) { return neo::fixed_point_complex<Q>{Q{neo::underlying_value, a}}.imag().value(); } \
extern "C" I r_fxc_oneim_##s(I a) { return 0; } \
extern "C" I d_fxc_setre_##s(I a, I b, I c) { auto z = mk_##s(a, b); z.real(Q{neo::underlying_value, c}); return z.real().value(); } \
extern "C" I r_fxc_setre_##s(I a, I b, I c) { return c; } \
extern "C" I d_fxc_setrekeep_##s(I a, I b, I c) { auto z = mk_##s(a, b); z.real(Q{neo::underlying_value, c}); return z.imag().value(); } \
extern "C" I r_fxc_setrekeep_##s(I a, I b, I c) { return b; } \
extern "C" I d_fxc_setim_##s(I a, I b, I c) { auto z = mk_##s(a, b); z.imag(Q{neo::underlying_value, c}); return z.imag().value(); } \
extern "C" I r_fxc_setim_##s(I a, I b, I c) { return c; } \
extern "C" I d_fxc_setimkeep_##s(I a, I b, I c) { auto z = mk_##s(a, b); z.imag(Q{neo::underlying_value, c}); return z.real().value(); } \
extern "C" I r_fxc_setimkeep_##s(I a, I b, I c) { return a; } \
extern "C" I d_fxc_addre_##s(I a, I b, I c, I e) { return (mk_##s(a, b) + mk_##s(c, e)).real().value(); } \
extern "C" I r_fxc_addre_##s(I a, I b, I c, I e) { return sat_<I>(std::int64_t{a} + c); } \
extern "C" I d_fxc_addim_##s(I a, I b, I c, I e) { return (mk_##s(a, b) + mk_##s(c, e)).imag().value(); } \
extern "C" I r_fxc_addim_##s(I a, I b, I c, I e) { return sat_<I>(std::int64_t{b} + e); } \
extern "C" I d_fxc_subre_##s(I a, I b, I c, I e) { return (mk_##s(a, b) - mk_##s(c, e)).real().value(); } \
extern "C" I r_fxc_subre_##s(I a, I b, I c, I e) { return sat_<I>(std::int64_t{a} - c); } \
extern "C" I d_fxc_subim_##s(I a, I b, I c, I e) { return (mk_##s(a, b) - mk_##s(c, e)).imag().value(); } \
extern "C" I r_fxc_subim_##s(I a, I b, I c, I e) { return sat_<I>(std::int64_t{b} - e); }
// 16 bit storage: the product is a quarter of (a + bi)(c + ei), each partial product rounded down
#define FXM(s, Q, I) \
extern "C" I d_fxc_mulre_##s(I a, I b, I c, I e) { return (mk_##s(a, b) * mk_##s(c, e)).real().value(); } \
extern "C" I r_fxc_mulre_##s(I a, I b, I c, I e) { return static_cast<I>(((std::int64_t{a} * c) >> 17) - ((std::int64_t{b} * e) >> 17)); } \
extern "C" I d_fxc_mulim_##s(I a, I b, I c, I e) { return (mk_##s(a, b) * mk_##s(c, e)).imag().value(); } \
extern "C" I r_fxc_mulim_##s(I a, I b, I c, I e) { return static_cast<I>(((std::int64_t{a} * e) >> 17) + ((std::int64_t{b} * c) >> 17)); } \
/* the listed finding: the imaginary part of the left operand is used in place of that of the right one */ \
extern "C" I d_asis_mulre_##s(I a, I b, I c, I e) { return (mk_##s(a, b) * mk_##s(c, e)).real().value(); } \
extern "C" I r_asis_mulre_##s(I a, I b, I c, I e) { return static_cast<I>(((std::int64_t{a} * c) >> 17) - ((std::int64_t{b} * b) >> 17)); } \
extern "C" I d_asis_mulim_##s(I a, I b, I c, I e) { return (mk_##s(a, b) * mk_##s(c, e)).imag().value(); } \
extern "C" I r_asis_mulim_##s(I a, I b, I c, I e) { return static_cast<I>(((std::int64_t{a} * b) >> 17) + ((std::int64_t{b} * c) >> 17)); }
using q16_8 = neo::fixed_point<std::int16_t, 8>;
FXC(q7, neo::q7, std::int8_t)
FXC(q15, neo::q15, std::int16_t)
FXC(q16_8, q16_8, std::int16_t)
FXM(q15, neo::q15, std::int16_t)
FXM(q16_8, q16_8, std::int16_t)

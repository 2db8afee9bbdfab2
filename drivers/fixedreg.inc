// V: register type; I: storage; N: lanes; F: fractional bits
#define LD(p) V::load_unaligned(reinterpret_cast<V::value_type const*>(P(p)))
#define ST .store_unaligned(reinterpret_cast<V::value_type*>(P(o)))
#define ARR (I const* P(x), I const* P(y), I* P(o))
static inline I CAT(sat, S)(std::int32_t x)
{
    std::int32_t const lo = -(std::int32_t{1} << (8 * sizeof(I) - 1)), hi = -lo - 1;
    return static_cast<I>(x < lo ? lo : (x > hi ? hi : x));
}
D(fr_copy)(I const* P(x), I* P(o)) { LD(x)ST; }
R(fr_copy)(I const* P(x), I* P(o)) { for (int i = 0; i < N; ++i) P(o)[i] = P(x)[i]; }
D(fr_bcast)(I a, I* P(o)) { V::broadcast(V::value_type{neo::underlying_value, a})ST; }
R(fr_bcast)(I a, I* P(o)) { for (int i = 0; i < N; ++i) P(o)[i] = a; }
D(fr_reg)(I const* P(x), I* P(o)) { V{static_cast<V::register_type>(LD(x))}ST; }
R(fr_reg)(I const* P(x), I* P(o)) { for (int i = 0; i < N; ++i) P(o)[i] = P(x)[i]; }
D(fr_add) ARR { (LD(x) + LD(y))ST; }
R(fr_add) ARR { for (int i = 0; i < N; ++i) P(o)[i] = CAT(sat, S)(std::int32_t{P(x)[i]} + P(y)[i]); }
D(fr_sub) ARR { (LD(x) - LD(y))ST; }
R(fr_sub) ARR { for (int i = 0; i < N; ++i) P(o)[i] = CAT(sat, S)(std::int32_t{P(x)[i]} - P(y)[i]); }
#if HASMUL
D(fr_mul) ARR { (LD(x) * LD(y))ST; }
R(fr_mul) ARR { for (int i = 0; i < N; ++i) P(o)[i] = CAT(sat, S)((std::int32_t{P(x)[i]} * P(y)[i]) >> F); }
#endif
DR(int, fr_size)() { return V::size; }
RR(int, fr_size)() { return N; }
#undef LD
#undef ST
#undef ARR
#undef V
#undef I
#undef N
#undef S
#undef E
#undef F
#undef HASMUL

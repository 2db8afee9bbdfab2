// Q: fixed_point type, I: storage, S: suffix, E: element suffix, F: fractional bits
#define MK(v) Q{neo::underlying_value, v}
static inline I CAT(sat, S)(std::int64_t x)
{
    std::int64_t const lo = -(std::int64_t{1} << (8 * sizeof(I) - 1)), hi = -lo - 1;
    return static_cast<I>(x < lo ? lo : (x > hi ? hi : x));
}
DR(I, fx_raw)(I a) { return MK(a).value(); }
RR(I, fx_raw)(I a) { return a; }
DR(I, fx_pos)(I a) { return (+MK(a)).value(); }
RR(I, fx_pos)(I a) { return a; }
DR(I, fx_neg)(I a) { return (-MK(a)).value(); }
RR(I, fx_neg)(I a) { return CAT(sat, S)(-std::int64_t{a}); }
DR(I, fx_add)(I a, I b) { return (MK(a) + MK(b)).value(); }
RR(I, fx_add)(I a, I b) { return CAT(sat, S)(std::int64_t{a} + b); }
DR(I, fx_sub)(I a, I b) { return (MK(a) - MK(b)).value(); }
RR(I, fx_sub)(I a, I b) { return CAT(sat, S)(std::int64_t{a} - b); }
DR(I, fx_mul)(I a, I b) { return (MK(a) * MK(b)).value(); }
RR(I, fx_mul)(I a, I b) { return CAT(sat, S)((std::int64_t{a} * b) >> F); }
DR(bool, fx_eq)(I a, I b) { return MK(a) == MK(b); }
RR(bool, fx_eq)(I a, I b) { return a == b; }
DR(bool, fx_ne)(I a, I b) { return MK(a) != MK(b); }
RR(bool, fx_ne)(I a, I b) { return a != b; }
DR(bool, fx_lt)(I a, I b) { return MK(a) < MK(b); }
RR(bool, fx_lt)(I a, I b) { return a < b; }
DR(bool, fx_le)(I a, I b) { return MK(a) <= MK(b); }
RR(bool, fx_le)(I a, I b) { return a <= b; }
DR(bool, fx_gt)(I a, I b) { return MK(a) > MK(b); }
RR(bool, fx_gt)(I a, I b) { return a > b; }
DR(bool, fx_ge)(I a, I b) { return MK(a) >= MK(b); }
RR(bool, fx_ge)(I a, I b) { return a >= b; }
DR(float, fx_tofloat)(I a) { return neo::to_float(MK(a)); }
RR(float, fx_tofloat)(I a) { return static_cast<float>(static_cast<double>(a) / static_cast<double>(1 << F)); }
DR(double, fx_todouble)(I a) { return neo::to_double(MK(a)); }
RR(double, fx_todouble)(I a) { return static_cast<double>(a) / static_cast<double>(1 << F); }
DR(float, fx_castfloat)(I a) { return static_cast<float>(MK(a)); }
RR(float, fx_castfloat)(I a) { return static_cast<float>(static_cast<double>(a) / static_cast<double>(1 << F)); }
// conversion from floating point: saturate, round toward zero
DR(I, fx_fromf)(float x) { return Q{x}.value(); }
RR(I, fx_fromf)(float x)
{
    double const lo = -static_cast<double>(std::int64_t{1} << (8 * sizeof(I) - 1)), hi = -lo - 1.0;
    double const y = static_cast<double>(x) * static_cast<double>(1 << F);
    return y <= lo ? static_cast<I>(lo) : (y >= hi ? static_cast<I>(hi) : static_cast<I>(y));
}
DR(I, fx_fromd)(double x) { return Q{x}.value(); }
RR(I, fx_fromd)(double x)
{
    double const lo = -static_cast<double>(std::int64_t{1} << (8 * sizeof(I) - 1)), hi = -lo - 1.0;
    double const y = x * static_cast<double>(1 << F);
    return y <= lo ? static_cast<I>(lo) : (y >= hi ? static_cast<I>(hi) : static_cast<I>(y));
}
// to floating point and back is the identity
DR(I, fx_roundtrip)(I a) { return Q{neo::to_float(MK(a))}.value(); }
RR(I, fx_roundtrip)(I a) { return a; }
DR(I, fx_roundtripd)(I a) { return Q{neo::to_double(MK(a))}.value(); }
RR(I, fx_roundtripd)(I a) { return a; }
DR(int, fx_ibits)() { return Q::integer_bits; }
RR(int, fx_ibits)() { return 8 * sizeof(I) - 1 - F; }
DR(int, fx_fbits)() { return Q::fractional_bits; }
RR(int, fx_fbits)() { return F; }
#undef MK
#undef Q
#undef I
#undef S
#undef E
#undef F

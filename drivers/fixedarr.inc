// Q: fixed_point type, I: storage, S: suffix, E: element suffix
#define ARR (I const* P(x), I const* P(y), I* P(o), std::size_t n)
#define QC(p) reinterpret_cast<Q const*>(p)
#define QM(p) reinterpret_cast<Q*>(p)
#define SPN std::span<Q const>(QC(P(x)), n), std::span<Q const>(QC(P(y)), n), std::span<Q>(QM(P(o)), n)
D(fa_add) ARR { neo::add(SPN); }
R(fa_add) ARR { for (std::size_t i = 0; i < n; ++i) P(o)[i] = CAT(sat, S)(std::int32_t{P(x)[i]} + P(y)[i]); }
D(fa_sub) ARR { neo::subtract(SPN); }
R(fa_sub) ARR { for (std::size_t i = 0; i < n; ++i) P(o)[i] = CAT(sat, S)(std::int32_t{P(x)[i]} - P(y)[i]); }
D(fa_mul) ARR { neo::multiply(SPN); }
R(fa_mul) ARR { for (std::size_t i = 0; i < n; ++i) P(o)[i] = CAT(sat, S)((std::int32_t{P(x)[i]} * P(y)[i]) >> F); }
// in place: the output is the left operand
#define INP (I* P(o), I const* P(y), std::size_t n)
#define SPI std::span<Q const>(QM(P(o)), n), std::span<Q const>(QC(P(y)), n), std::span<Q>(QM(P(o)), n)
D(fai_add) INP { neo::add(SPI); }
R(fai_add) INP { for (std::size_t i = 0; i < n; ++i) P(o)[i] = CAT(sat, S)(std::int32_t{P(o)[i]} + P(y)[i]); }
D(fai_sub) INP { neo::subtract(SPI); }
R(fai_sub) INP { for (std::size_t i = 0; i < n; ++i) P(o)[i] = CAT(sat, S)(std::int32_t{P(o)[i]} - P(y)[i]); }
D(fai_mul) INP { neo::multiply(SPI); }
R(fai_mul) INP { for (std::size_t i = 0; i < n; ++i) P(o)[i] = CAT(sat, S)((std::int32_t{P(o)[i]} * P(y)[i]) >> F); }
// in place: the output is the right operand
#define INR (I const* P(x), I* P(o), std::size_t n)
#define SPR std::span<Q const>(QC(P(x)), n), std::span<Q const>(QM(P(o)), n), std::span<Q>(QM(P(o)), n)
D(far_sub) INR { neo::subtract(SPR); }
R(far_sub) INR { for (std::size_t i = 0; i < n; ++i) P(o)[i] = CAT(sat, S)(std::int32_t{P(x)[i]} - P(o)[i]); }
D(far_mul) INR { neo::multiply(SPR); }
R(far_mul) INR { for (std::size_t i = 0; i < n; ++i) P(o)[i] = CAT(sat, S)((std::int32_t{P(x)[i]} * P(o)[i]) >> F); }
// spans of a static extent
#define SPX(N) std::span<Q const, N>(QC(P(x)), N), std::span<Q const, N>(QC(P(y)), N), std::span<Q, N>(QM(P(o)), N)
#define ARX (I const* P(x), I const* P(y), I* P(o))
D(fax_add) ARX { neo::add(SPX(37)); }
R(fax_add) ARX { for (std::size_t i = 0; i < 37; ++i) P(o)[i] = CAT(sat, S)(std::int32_t{P(x)[i]} + P(y)[i]); }
D(fax_mul) ARX { neo::multiply(SPX(37)); }
R(fax_mul) ARX { for (std::size_t i = 0; i < 37; ++i) P(o)[i] = CAT(sat, S)((std::int32_t{P(x)[i]} * P(y)[i]) >> F); }
#undef ARR
#undef QC
#undef QM
#undef SPN
#undef INP
#undef SPI
#undef INR
#undef SPR
#undef SPX
#undef ARX
#undef Q
#undef I
#undef S
#undef E
#undef F

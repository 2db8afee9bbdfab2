// U: unsigned type, I: signed type of the same width, W: width, S: suffix
DR(U, bceil)(U x) { return neo::bit_ceil(x); }
RR(U, bceil)(U x) { return x <= 1 ? U(1) : static_cast<U>(std::uint64_t{1} << (64 - __builtin_clzll(std::uint64_t{static_cast<U>(x - 1)}))); }
DR(U, bceilf)(U x) { return neo::detail::bit_ceil_fallback(x); }
RR(U, bceilf)(U x) { return x <= 1 ? U(1) : static_cast<U>(std::uint64_t{1} << (64 - __builtin_clzll(std::uint64_t{static_cast<U>(x - 1)}))); }
DR(U, blog2)(U x) { return neo::bit_log2(x); }
RR(U, blog2)(U x) { return x <= 1 ? U(0) : static_cast<U>(63 - __builtin_clzll(std::uint64_t{x})); }
DR(U, forderu)(U x) { return neo::fft::next_order(x); }
RR(U, forderu)(U x) { return x <= 1 ? U(0) : static_cast<U>(64 - __builtin_clzll(std::uint64_t{static_cast<U>(x - 1)})); }
DR(I, forderi)(I x) { return neo::fft::next_order(x); }
RR(I, forderi)(I x) { return x <= 1 ? I(0) : static_cast<I>(64 - __builtin_clzll(std::uint64_t(x - 1))); }
DR(U, fsizeu)(U e) { return neo::fft::size(e); }
RR(U, fsizeu)(U e) { return static_cast<U>(std::uint64_t{1} << e); }
DR(I, fsizei)(I e) { return neo::fft::size(e); }
RR(I, fsizei)(I e) { return static_cast<I>(std::uint64_t{1} << e); }
DR(bool, evenu)(U x) { return neo::is_even(x); }
RR(bool, evenu)(U x) { return x % 2 == 0; }
DR(bool, oddu)(U x) { return neo::is_odd(x); }
RR(bool, oddu)(U x) { return x % 2 == 1; }
DR(bool, eveni)(I x) { return neo::is_even(x); }
RR(bool, eveni)(I x) { return x % 2 == 0; }
DR(bool, oddi)(I x) { return neo::is_odd(x); }
RR(bool, oddi)(I x) { return x % 2 != 0; }
DR(U, idivu)(U x, U y) { return neo::idiv(x, y); }
RR(U, idivu)(U x, U y) { return static_cast<U>(x / y + (x % y != 0)); }
DR(I, idivi)(I x, I y) { return neo::idiv(x, y); }
RR(I, idivi)(I x, I y) { return static_cast<I>(x / y + (x % y != 0)); }
DR(I, osizei)(I x, I y) { return neo::convolution::output_size<neo::convolution::mode::full>(x, y); }
RR(I, osizei)(I x, I y) { return static_cast<I>(x + (y - 1)); }
DR(U, osizeu)(U x, U y) { return neo::convolution::output_size<neo::convolution::mode::full>(x, y); }
RR(U, osizeu)(U x, U y) { return static_cast<U>(x + (y - 1)); }
// powers: b^e by repeated multiplication
DR(U, powu)(U b, U e) { return neo::ipow(b, e); }
RR(U, powu)(U b, U e) { std::uint64_t r = 1; for (std::uint64_t i = 0; i < std::uint64_t{e}; ++i) r *= std::uint64_t{b}; return static_cast<U>(r); }
DR(I, powi)(I b, I e) { return neo::ipow(b, e); }
RR(I, powi)(I b, I e) { std::int64_t r = 1; for (std::int64_t i = 0; i < std::int64_t{e}; ++i) r *= std::int64_t{b}; return static_cast<I>(r); }
#define POW(B) \
DR(U, pows##B##u)(U e) { return neo::ipow<U(B)>(e); } \
RR(U, pows##B##u)(U e) { std::uint64_t r = 1; for (std::uint64_t i = 0; i < std::uint64_t{e}; ++i) r *= B; return static_cast<U>(r); } \
DR(I, pows##B##i)(I e) { return neo::ipow<I(B)>(e); } \
RR(I, pows##B##i)(I e) { std::int64_t r = 1; for (std::int64_t i = 0; i < std::int64_t{e}; ++i) r *= B; return static_cast<I>(r); }
POW(2) POW(3) POW(4) POW(5) POW(7) POW(8) POW(10) POW(16) POW(32) POW(64)
#undef POW
#undef U
#undef I
#undef W
#undef S

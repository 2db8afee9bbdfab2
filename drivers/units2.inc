using CAT(vec, S) = stdex::mdspan<T, stdex::dextents<std::size_t, 1>>;
using CAT(veci, S) = stdex::mdspan<T, stdex::dextents<int, 1>>;
#define VEC CAT(vec, S)
#define VECI CAT(veci, S)
DR(T, h2m)(T hz) { return neo::hertz_to_mel(hz); }
RR(T, h2m)(T hz) { return T(2595) * std::log10(T(1) + hz / T(700)); }
DR(T, m2h)(T mel) { return neo::mel_to_hertz(mel); }
RR(T, m2h)(T mel) { return T(700) * (std::pow(T(10), mel / T(2595)) - T(1)); }
D(melf)(T* P(o), std::size_t n, T lo, T hi) { neo::mel_frequencies(VEC(P(o), n), lo, hi); }
R(melf)(T* P(o), std::size_t n, T lo, T hi)
{
    if (n == 0) return;
    if (n == 1) { P(o)[0] = lo; return; }
    T const a = T(2595) * std::log10(T(1) + lo / T(700));
    T const b = T(2595) * std::log10(T(1) + hi / T(700));
    for (std::size_t i = 0; i < n; ++i)
        P(o)[i] = T(700) * (std::pow(T(10), (a + (b - a) / static_cast<T>(n - 1) * static_cast<T>(i)) / T(2595)) - T(1));
}
DR(T, wrect)(int i, int size) { return neo::rectangular_window<T>{}(i, size); }
RR(T, wrect)(int i, int size) { return T(1); }
DR(T, whann)(int i, int size) { return neo::hann_window<T>{}(i, size); }
RR(T, whann)(int i, int size) { return T(0.5) - T(0.5) * std::cos(T(2) * static_cast<T>(std::numbers::pi) * static_cast<T>(i) / static_cast<T>(size - 1)); }
DR(T, whamm)(int i, int size) { return neo::hamming_window<T>{}(i, size); }
RR(T, whamm)(int i, int size) { return T(0.54) - T(0.46) * std::cos(T(2) * static_cast<T>(std::numbers::pi) * static_cast<T>(i) / static_cast<T>(size - 1)); }
DR(T, whannu)(std::size_t i, std::size_t size) { return neo::hann_window<T>{}(i, size); }
RR(T, whannu)(std::size_t i, std::size_t size) { return T(0.5) - T(0.5) * std::cos(T(2) * static_cast<T>(std::numbers::pi) * static_cast<T>(i) / static_cast<T>(size - 1)); }
D(wgen)(T* P(o), std::size_t n) { auto const w = neo::generate_window<T>(n); for (std::size_t i = 0; i < n; ++i) P(o)[i] = w(i); }
R(wgen)(T* P(o), std::size_t n) { for (std::size_t i = 0; i < n; ++i) P(o)[i] = T(0.5) - T(0.5) * std::cos(T(2) * static_cast<T>(std::numbers::pi) * static_cast<T>(i) / static_cast<T>(n - 1)); }
D(wgenh)(T* P(o), std::size_t n) { auto const w = neo::generate_window<T, neo::hamming_window<T>>(n); for (std::size_t i = 0; i < n; ++i) P(o)[i] = w(i); }
R(wgenh)(T* P(o), std::size_t n) { for (std::size_t i = 0; i < n; ++i) P(o)[i] = T(0.54) - T(0.46) * std::cos(T(2) * static_cast<T>(std::numbers::pi) * static_cast<T>(i) / static_cast<T>(n - 1)); }
D(wgenr)(T* P(o), std::size_t n) { auto const w = neo::generate_window<T, neo::rectangular_window<T>>(n); for (std::size_t i = 0; i < n; ++i) P(o)[i] = w(i); }
R(wgenr)(T* P(o), std::size_t n) { for (std::size_t i = 0; i < n; ++i) P(o)[i] = T(1); }
DR(std::size_t, wgenn)(std::size_t n) { return neo::generate_window<T>(n).extent(0); }
RR(std::size_t, wgenn)(std::size_t n) { return n; }
D(wfill)(T* P(o), std::size_t n) { neo::fill_window(VEC(P(o), n), neo::hann_window<T>{}); }
R(wfill)(T* P(o), std::size_t n) { for (std::size_t i = 0; i < n; ++i) P(o)[i] = T(0.5) - T(0.5) * std::cos(T(2) * static_cast<T>(std::numbers::pi) * static_cast<T>(i) / static_cast<T>(n - 1)); }
D(wfillh)(T* P(o), std::size_t n) { neo::fill_window(VEC(P(o), n), neo::hamming_window<T>{}); }
R(wfillh)(T* P(o), std::size_t n) { for (std::size_t i = 0; i < n; ++i) P(o)[i] = T(0.54) - T(0.46) * std::cos(T(2) * static_cast<T>(std::numbers::pi) * static_cast<T>(i) / static_cast<T>(n - 1)); }
D(wfillr)(T* P(o), std::size_t n) { neo::fill_window(VEC(P(o), n), neo::rectangular_window<T>{}); }
R(wfillr)(T* P(o), std::size_t n) { for (std::size_t i = 0; i < n; ++i) P(o)[i] = T(1); }
DR(T, freq)(int size, int i, double inv) { return neo::rfftfreq<T>(size, i, inv); }
RR(T, freq)(int size, int i, double inv) { return static_cast<T>(i) / (static_cast<T>(size) * static_cast<T>(inv)); }
D(freqs)(T* P(o), int n, double inv) { neo::rfftfreq(VECI(P(o), n), inv); }
R(freqs)(T* P(o), int n, double inv) { for (int i = 0; i < n; ++i) P(o)[i] = static_cast<T>(i) / (static_cast<T>(n) * static_cast<T>(inv)); }
#undef VEC
#undef VECI
#undef T
#undef S
#undef E

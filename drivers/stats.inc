#define N_ neo::scalar_complex<T>
#define Z_ std::complex<T>
using uz = std::size_t;
#define OPT(x) { auto const r_ = (x); if (!r_.has_value()) return T(-12345); return *r_; }
#define AV (T const* P(x), uz n)
#define AS (T const* P(x), uz n, uz sx)
#define AM (T const* P(x), uz rows, uz cols)
#define AMS (T const* P(x), uz rows, uz cols, uz sx0)
#define SUM(N, AT, EXPR) T s_ = 0; for (uz i = 0; i < N; ++i) { T const v = AT; s_ += EXPR; }
#define SUM2(AT, EXPR) T s_ = 0; for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) { T const v = AT; s_ += EXPR; }
#define MEANV(AT) T avg; { SUM(n, AT, v) avg = s_ / T(n); }
#define MEANM(AT) T avg; { SUM2(AT, v) avg = s_ / T(rows * cols); }
#define VX P(x)[i]
#define VXS P(x)[sx * i]
#define MX P(x)[cols * i + j]
#define MXL P(x)[rows * j + i]
#define MXS P(x)[sx0 * i + 2 * j]
#define STAT(sfx, ARGS, VIEW, MEAN, SUMX, AT, CNT) \
DR(T, mean_##sfx) ARGS { OPT((neo::mean(VIEW))) } \
RR(T, mean_##sfx) ARGS { if (CNT < 1) return T(-12345); MEAN(AT) return avg; } \
DR(T, meanu_##sfx) ARGS { return neo::mean_unchecked(VIEW); } \
RR(T, meanu_##sfx) ARGS { MEAN(AT) return avg; } \
DR(T, var_##sfx) ARGS { OPT((neo::variance(VIEW))) } \
RR(T, var_##sfx) ARGS { if (CNT < 2) return T(-12345); MEAN(AT) SUMX(AT, (v - avg) * (v - avg)) return s_ / T(CNT); } \
DR(T, sd_##sfx) ARGS { OPT((neo::standard_deviation(VIEW))) } \
RR(T, sd_##sfx) ARGS { if (CNT < 2) return T(-12345); MEAN(AT) SUMX(AT, (v - avg) * (v - avg)) return std::sqrt(s_ / T(CNT)); }
#define SUMV(AT, EXPR) SUM(n, AT, EXPR)
#define VV V<T const>(P(x), n)
#define VVS vs(P(x), n, sx)
#define VM M<T const>(P(x), rows, cols)
#define VML ML<T const>(P(x), rows, cols)
#define VMS ms(P(x), rows, cols, sx0, uz(2))
STAT(v, AV, VV, MEANV, SUMV, VX, n)
STAT(vs, AS, VVS, MEANV, SUMV, VXS, n)
STAT(m, AM, VM, MEANM, SUM2, MX, (rows * cols))
STAT(ml, AM, VML, MEANM, SUM2, MXL, (rows * cols))
STAT(ms, AMS, VMS, MEANM, SUM2, MXS, (rows * cols))
#undef VV
DR(T, mean_vi)(T const* P(x), int n) { OPT((neo::mean(VI<T const>(P(x), n)))) }
RR(T, mean_vi)(T const* P(x), int n) { if (n < 1) return T(-12345); T s = 0; for (int i = 0; i < n; ++i) s += P(x)[i]; return s / T(n); }
// errors between two objects
#define BV (T const* P(x), T const* P(y), uz n)
#define BM (T const* P(x), T const* P(y), uz rows, uz cols)
#define V2 V<T const>(P(x), n), V<T const>(P(y), n)
DR(T, mse_v) BV { return neo::mean_squared_error(V2); }
RR(T, mse_v) BV { T s = 0; for (uz i = 0; i < n; ++i) s += (P(x)[i] - P(y)[i]) * (P(x)[i] - P(y)[i]); return s / T(n); }
DR(T, rmse_v) BV { return neo::root_mean_squared_error(V2); }
RR(T, rmse_v) BV { T s = 0; for (uz i = 0; i < n; ++i) s += (P(x)[i] - P(y)[i]) * (P(x)[i] - P(y)[i]); return std::sqrt(s / T(n)); }
DR(T, mse_vs)(T const* P(x), T const* P(y), uz n, uz sx, uz sy) { return neo::mean_squared_error(vs(P(x), n, sx), vs(P(y), n, sy)); }
RR(T, mse_vs)(T const* P(x), T const* P(y), uz n, uz sx, uz sy) { T s = 0; for (uz i = 0; i < n; ++i) s += (P(x)[sx * i] - P(y)[sy * i]) * (P(x)[sx * i] - P(y)[sy * i]); return s / T(n); }
DR(T, mse_m) BM { return neo::mean_squared_error(M<T const>(P(x), rows, cols), ML<T const>(P(y), rows, cols)); }
RR(T, mse_m) BM { T s = 0; for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) { T const d = P(x)[cols * i + j] - P(y)[rows * j + i]; s += d * d; } return s / T(rows * cols); }
DR(T, rmse_m) BM { return neo::root_mean_squared_error(M<T const>(P(x), rows, cols), ML<T const>(P(y), rows, cols)); }
RR(T, rmse_m) BM { T s = 0; for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) { T const d = P(x)[cols * i + j] - P(y)[rows * j + i]; s += d * d; } return std::sqrt(s / T(rows * cols)); }
#define MAG(p, i) std::sqrt(p[2 * (i)] * p[2 * (i)] + p[2 * (i) + 1] * p[2 * (i) + 1])
#define CMSE(nm, C) \
DR(T, nm##_v) BV { return neo::mean_squared_error(V<C const>(cx<C>(P(x)), n), V<C const>(cx<C>(P(y)), n)); } \
RR(T, nm##_v) BV { T s = 0; for (uz i = 0; i < n; ++i) { T const d = MAG(P(x), i) - MAG(P(y), i); s += d * d; } return s / T(n); } \
DR(T, nm##_m) BM { return neo::root_mean_squared_error(M<C const>(cx<C>(P(x)), rows, cols), M<C const>(cx<C>(P(y)), rows, cols)); } \
RR(T, nm##_m) BM { T s = 0; for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) { T const d = MAG(P(x), i * cols + j) - MAG(P(y), i * cols + j); s += d * d; } return std::sqrt(s / T(rows * cols)); }
CMSE(nmse, N_)
CMSE(smse, Z_)
#undef N_
#undef Z_
#undef T
#undef S
#undef E

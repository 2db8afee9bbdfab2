#define Z std::complex<T>
#define N_ neo::scalar_complex<T>
using uz = std::size_t;
// ---- real vectors and matrices, all layouts
#define BIN(nm, OP) \
D(nm##_v)(T const* P(x), T const* P(y), T* P(o), uz n) { neo::FN(V<T const>(P(x), n), V<T const>(P(y), n), V<T>(P(o), n)); } \
R(nm##_v)(T const* P(x), T const* P(y), T* P(o), uz n) { for (uz i = 0; i < n; ++i) P(o)[i] = P(x)[i] OP P(y)[i]; } \
D(nm##_vi)(T const* P(x), T const* P(y), T* P(o), int n) { neo::FN(VI<T const>(P(x), n), VI<T const>(P(y), n), VI<T>(P(o), n)); } \
R(nm##_vi)(T const* P(x), T const* P(y), T* P(o), int n) { for (int i = 0; i < n; ++i) P(o)[i] = P(x)[i] OP P(y)[i]; } \
D(nm##_va)(T* P(x), T const* P(y), uz n) { neo::FN(V<T>(P(x), n), V<T const>(P(y), n), V<T>(P(x), n)); } \
R(nm##_va)(T* P(x), T const* P(y), uz n) { for (uz i = 0; i < n; ++i) P(x)[i] = P(x)[i] OP P(y)[i]; } \
D(nm##_vs)(T const* P(x), T const* P(y), T* P(o), uz n, uz sx, uz sy, uz so) { neo::FN(vs(P(x), n, sx), vs(P(y), n, sy), vs(P(o), n, so)); } \
R(nm##_vs)(T const* P(x), T const* P(y), T* P(o), uz n, uz sx, uz sy, uz so) { for (uz i = 0; i < n; ++i) P(o)[so * i] = P(x)[sx * i] OP P(y)[sy * i]; } \
D(nm##_m)(T const* P(x), T const* P(y), T* P(o), uz rows, uz cols) { neo::FN(M<T const>(P(x), rows, cols), M<T const>(P(y), rows, cols), M<T>(P(o), rows, cols)); } \
R(nm##_m)(T const* P(x), T const* P(y), T* P(o), uz rows, uz cols) { for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) P(o)[cols * i + j] = P(x)[cols * i + j] OP P(y)[cols * i + j]; } \
D(nm##_ml)(T const* P(x), T const* P(y), T* P(o), uz rows, uz cols) { neo::FN(ML<T const>(P(x), rows, cols), M<T const>(P(y), rows, cols), ML<T>(P(o), rows, cols)); } \
R(nm##_ml)(T const* P(x), T const* P(y), T* P(o), uz rows, uz cols) { for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) P(o)[rows * j + i] = P(x)[rows * j + i] OP P(y)[cols * i + j]; } \
D(nm##_ms)(T const* P(x), T const* P(y), T* P(o), uz rows, uz cols, uz sx0, uz sy0, uz so0) { neo::FN(ms(P(x), rows, cols, sx0, uz(1)), ms(P(y), rows, cols, sy0, uz(2)), ms(P(o), rows, cols, so0, uz(2))); } \
R(nm##_ms)(T const* P(x), T const* P(y), T* P(o), uz rows, uz cols, uz sx0, uz sy0, uz so0) { for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) P(o)[so0 * i + 2 * j] = P(x)[sx0 * i + j] OP P(y)[sy0 * i + 2 * j]; }
#define FN add
BIN(add, +)
#undef FN
#define FN multiply
BIN(mul, *)
#undef FN
#undef BIN
// ---- complex vectors: library and standard complex type
#define CBIN(nm, C) \
D(nm##_add)(T const* P(x), T const* P(y), T* P(o), uz n) { neo::add(V<C const>(cx<C>(P(x)), n), V<C const>(cx<C>(P(y)), n), V<C>(cx<C>(P(o)), n)); } \
R(nm##_add)(T const* P(x), T const* P(y), T* P(o), uz n) { for (uz i = 0; i < n; ++i) { P(o)[2 * i] = P(x)[2 * i] + P(y)[2 * i]; P(o)[2 * i + 1] = P(x)[2 * i + 1] + P(y)[2 * i + 1]; } } \
D(nm##_mul)(T const* P(x), T const* P(y), T* P(o), uz n) { neo::multiply(V<C const>(cx<C>(P(x)), n), V<C const>(cx<C>(P(y)), n), V<C>(cx<C>(P(o)), n)); } \
R(nm##_mul)(T const* P(x), T const* P(y), T* P(o), uz n) { for (uz i = 0; i < n; ++i) { P(o)[2 * i] = P(x)[2 * i] * P(y)[2 * i] - P(x)[2 * i + 1] * P(y)[2 * i + 1]; P(o)[2 * i + 1] = P(x)[2 * i] * P(y)[2 * i + 1] + P(x)[2 * i + 1] * P(y)[2 * i]; } } \
D(nm##_mulm)(T const* P(x), T const* P(y), T* P(o), uz rows, uz cols) { neo::multiply(M<C const>(cx<C>(P(x)), rows, cols), M<C const>(cx<C>(P(y)), rows, cols), M<C>(cx<C>(P(o)), rows, cols)); } \
R(nm##_mulm)(T const* P(x), T const* P(y), T* P(o), uz rows, uz cols) { for (uz r = 0; r < rows; ++r) for (uz c = 0; c < cols; ++c) { auto const i = r * cols + c; P(o)[2 * i] = P(x)[2 * i] * P(y)[2 * i] - P(x)[2 * i + 1] * P(y)[2 * i + 1]; P(o)[2 * i + 1] = P(x)[2 * i] * P(y)[2 * i + 1] + P(x)[2 * i + 1] * P(y)[2 * i]; } } \
D(nm##_scl)(T* P(x), uz n, T al) { neo::scale(al, V<C>(cx<C>(P(x)), n)); } \
R(nm##_scl)(T* P(x), uz n, T al) { for (uz i = 0; i < n; ++i) { P(x)[2 * i] *= al; P(x)[2 * i + 1] *= al; } } \
D(nm##_sclc)(T* P(x), uz n, T al, T be) { neo::scale(C{al, be}, V<C>(cx<C>(P(x)), n)); } \
R(nm##_sclc)(T* P(x), uz n, T al, T be) { for (uz i = 0; i < n; ++i) { T const re = P(x)[2 * i], im = P(x)[2 * i + 1]; P(x)[2 * i] = re * al - im * be; P(x)[2 * i + 1] = re * be + im * al; } } \
D(nm##_sclm)(T* P(x), uz rows, uz cols, T al) { neo::scale(al, ML<C>(cx<C>(P(x)), rows, cols)); } \
R(nm##_sclm)(T* P(x), uz rows, uz cols, T al) { for (uz c = 0; c < cols; ++c) for (uz r = 0; r < rows; ++r) { P(x)[2 * (c * rows + r)] *= al; P(x)[2 * (c * rows + r) + 1] *= al; } } \
D(nm##_fill)(T* P(x), uz n, T al, T be) { neo::fill(V<C>(cx<C>(P(x)), n), C{al, be}); } \
R(nm##_fill)(T* P(x), uz n, T al, T be) { for (uz i = 0; i < n; ++i) { P(x)[2 * i] = al; P(x)[2 * i + 1] = be; } } \
D(nm##_cpy)(T const* P(x), T* P(o), uz n) { neo::copy(V<C const>(cx<C>(P(x)), n), V<C>(cx<C>(P(o)), n)); } \
R(nm##_cpy)(T const* P(x), T* P(o), uz n) { for (uz i = 0; i < 2 * n; ++i) P(o)[i] = P(x)[i]; } \
D(nm##_cpym)(T const* P(x), T* P(o), uz rows, uz cols) { neo::copy(M<C const>(cx<C>(P(x)), rows, cols), ML<C>(cx<C>(P(o)), rows, cols)); } \
R(nm##_cpym)(T const* P(x), T* P(o), uz rows, uz cols) { for (uz r = 0; r < rows; ++r) for (uz c = 0; c < cols; ++c) { P(o)[2 * (c * rows + r)] = P(x)[2 * (r * cols + c)]; P(o)[2 * (c * rows + r) + 1] = P(x)[2 * (r * cols + c) + 1]; } } \
D(nm##_cpyr)(T const* P(x), T* P(o), uz n) { neo::copy(V<T const>(P(x), n), V<C>(cx<C>(P(o)), n)); } \
R(nm##_cpyr)(T const* P(x), T* P(o), uz n) { for (uz i = 0; i < n; ++i) { P(o)[2 * i] = P(x)[i]; P(o)[2 * i + 1] = 0; } } \
D(nm##_cps)(T const* P(x), T* P(o), T* P(q), uz n) { neo::copy(V<C const>(cx<C>(P(x)), n), neo::split_complex{V<T>(P(o), n), V<T>(P(q), n)}); } \
R(nm##_cps)(T const* P(x), T* P(o), T* P(q), uz n) { for (uz i = 0; i < n; ++i) { P(o)[i] = P(x)[2 * i]; P(q)[i] = P(x)[2 * i + 1]; } } \
D(nm##_cpss)(T const* P(x), T* P(o), T* P(q), uz n, uz sx, uz so) { neo::copy(vs(cx<C>(P(x)), n, sx), neo::split_complex{vs(P(o), n, so), vs(P(q), n, so)}); } \
R(nm##_cpss)(T const* P(x), T* P(o), T* P(q), uz n, uz sx, uz so) { for (uz i = 0; i < n; ++i) { P(o)[so * i] = P(x)[2 * sx * i]; P(q)[so * i] = P(x)[2 * sx * i + 1]; } } \
D(nm##_cpi)(T const* P(x), T const* P(y), T* P(o), uz n) { neo::copy(neo::split_complex{V<T const>(P(x), n), V<T const>(P(y), n)}, V<C>(cx<C>(P(o)), n)); } \
R(nm##_cpi)(T const* P(x), T const* P(y), T* P(o), uz n) { for (uz i = 0; i < n; ++i) { P(o)[2 * i] = P(x)[i]; P(o)[2 * i + 1] = P(y)[i]; } }
CBIN(nc, N_)
CBIN(sc, Z)
#undef CBIN
// ---- copy, fill, scale on real data
D(cpy_v)(T const* P(x), T* P(o), uz n) { neo::copy(V<T const>(P(x), n), V<T>(P(o), n)); }
R(cpy_v)(T const* P(x), T* P(o), uz n) { for (uz i = 0; i < n; ++i) P(o)[i] = P(x)[i]; }
D(cpy_vi)(T const* P(x), T* P(o), int n) { neo::copy(VI<T const>(P(x), n), VI<T>(P(o), n)); }
R(cpy_vi)(T const* P(x), T* P(o), int n) { for (int i = 0; i < n; ++i) P(o)[i] = P(x)[i]; }
D(cpy_vs)(T const* P(x), T* P(o), uz n, uz sx, uz so) { neo::copy(vs(P(x), n, sx), vs(P(o), n, so)); }
R(cpy_vs)(T const* P(x), T* P(o), uz n, uz sx, uz so) { for (uz i = 0; i < n; ++i) P(o)[so * i] = P(x)[sx * i]; }
D(cpy_m)(T const* P(x), T* P(o), uz rows, uz cols) { neo::copy(M<T const>(P(x), rows, cols), M<T>(P(o), rows, cols)); }
R(cpy_m)(T const* P(x), T* P(o), uz rows, uz cols) { for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) P(o)[cols * i + j] = P(x)[cols * i + j]; }
D(cpy_mx)(T const* P(x), T* P(o), uz rows, uz cols) { neo::copy(ML<T const>(P(x), rows, cols), M<T>(P(o), rows, cols)); }
R(cpy_mx)(T const* P(x), T* P(o), uz rows, uz cols) { for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) P(o)[cols * i + j] = P(x)[rows * j + i]; }
D(cpy_ms)(T const* P(x), T* P(o), uz rows, uz cols, uz sx0, uz so0) { neo::copy(ms(P(x), rows, cols, sx0, uz(2)), ms(P(o), rows, cols, so0, uz(1))); }
R(cpy_ms)(T const* P(x), T* P(o), uz rows, uz cols, uz sx0, uz so0) { for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) P(o)[so0 * i + j] = P(x)[sx0 * i + 2 * j]; }
D(fill_v)(T* P(o), uz n, T al) { neo::fill(V<T>(P(o), n), al); }
R(fill_v)(T* P(o), uz n, T al) { for (uz i = 0; i < n; ++i) P(o)[i] = al; }
D(fill_vi)(T* P(o), int n, T al) { neo::fill(VI<T>(P(o), n), al); }
R(fill_vi)(T* P(o), int n, T al) { for (int i = 0; i < n; ++i) P(o)[i] = al; }
D(fill_vs)(T* P(o), uz n, uz so, T al) { neo::fill(vs(P(o), n, so), al); }
R(fill_vs)(T* P(o), uz n, uz so, T al) { for (uz i = 0; i < n; ++i) P(o)[i * so] = al; }
D(fill_m)(T* P(o), uz rows, uz cols, T al) { neo::fill(M<T>(P(o), rows, cols), al); }
R(fill_m)(T* P(o), uz rows, uz cols, T al) { for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) P(o)[cols * i + j] = al; }
D(fill_ml)(T* P(o), uz rows, uz cols, T al) { neo::fill(ML<T>(P(o), rows, cols), al); }
R(fill_ml)(T* P(o), uz rows, uz cols, T al) { for (uz j = 0; j < cols; ++j) for (uz i = 0; i < rows; ++i) P(o)[rows * j + i] = al; }
D(fill_ms)(T* P(o), uz rows, uz cols, uz so0, T al) { neo::fill(ms(P(o), rows, cols, so0, uz(2)), al); }
R(fill_ms)(T* P(o), uz rows, uz cols, uz so0, T al) { for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) P(o)[so0 * i + 2 * j] = al; }
D(scl_v)(T* P(o), uz n, T al) { neo::scale(al, V<T>(P(o), n)); }
R(scl_v)(T* P(o), uz n, T al) { for (uz i = 0; i < n; ++i) P(o)[i] *= al; }
D(scl_vi)(T* P(o), int n, T al) { neo::scale(al, VI<T>(P(o), n)); }
R(scl_vi)(T* P(o), int n, T al) { for (int i = 0; i < n; ++i) P(o)[i] *= al; }
D(scl_vs)(T* P(o), uz n, uz so, T al) { neo::scale(al, vs(P(o), n, so)); }
R(scl_vs)(T* P(o), uz n, uz so, T al) { for (uz i = 0; i < n; ++i) P(o)[i * so] *= al; }
D(scl_m)(T* P(o), uz rows, uz cols, T al) { neo::scale(al, M<T>(P(o), rows, cols)); }
R(scl_m)(T* P(o), uz rows, uz cols, T al) { for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) P(o)[cols * i + j] *= al; }
D(scl_ml)(T* P(o), uz rows, uz cols, T al) { neo::scale(al, ML<T>(P(o), rows, cols)); }
R(scl_ml)(T* P(o), uz rows, uz cols, T al) { for (uz j = 0; j < cols; ++j) for (uz i = 0; i < rows; ++i) P(o)[rows * j + i] *= al; }
D(scl_ms)(T* P(o), uz rows, uz cols, uz so0, T al) { neo::scale(al, ms(P(o), rows, cols, so0, uz(2))); }
R(scl_ms)(T* P(o), uz rows, uz cols, uz so0, T al) { for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) P(o)[so0 * i + 2 * j] *= al; }
#undef Z
#undef N_
#undef T
#undef S
#undef E

#define N_ neo::scalar_complex<T>
#define Z_ std::complex<T>
using uz = std::size_t;
#define A4 (T const* P(x), T const* P(y), T const* P(z), T* P(o), uz n)
#define A3 (T const* P(x), T const* P(y), T* P(o), uz n)
D(ma_v) A4 { neo::multiply_add(V<T const>(P(x), n), V<T const>(P(y), n), V<T const>(P(z), n), V<T>(P(o), n)); }
R(ma_v) A4 { for (uz i = 0; i < n; ++i) P(o)[i] = P(x)[i] * P(y)[i] + P(z)[i]; }
D(ma_va) A3 { neo::multiply_add(V<T const>(P(x), n), V<T const>(P(y), n), V<T>(P(o), n), V<T>(P(o), n)); }
R(ma_va) A3 { for (uz i = 0; i < n; ++i) P(o)[i] = P(x)[i] * P(y)[i] + P(o)[i]; }
D(ma_vs)(T const* P(x), T const* P(y), T const* P(z), T* P(o), uz n, uz sx, uz sy, uz sz, uz so) { neo::multiply_add(vs(P(x), n, sx), vs(P(y), n, sy), vs(P(z), n, sz), vs(P(o), n, so)); }
R(ma_vs)(T const* P(x), T const* P(y), T const* P(z), T* P(o), uz n, uz sx, uz sy, uz sz, uz so) { for (uz i = 0; i < n; ++i) P(o)[so * i] = P(x)[sx * i] * P(y)[sy * i] + P(z)[sz * i]; }
#define CRE(i) P(x)[2 * (i)] * P(y)[2 * (i)] - P(x)[2 * (i) + 1] * P(y)[2 * (i) + 1]
#define CIM(i) P(x)[2 * (i)] * P(y)[2 * (i) + 1] + P(x)[2 * (i) + 1] * P(y)[2 * (i)]
#define CMA(nm, C) \
D(nm##_v) A4 { neo::multiply_add(V<C const>(cx<C>(P(x)), n), V<C const>(cx<C>(P(y)), n), V<C const>(cx<C>(P(z)), n), V<C>(cx<C>(P(o)), n)); } \
R(nm##_v) A4 { for (uz i = 0; i < n; ++i) { P(o)[2 * i] = CRE(i) + P(z)[2 * i]; P(o)[2 * i + 1] = CIM(i) + P(z)[2 * i + 1]; } } \
D(nm##_vi)(T const* P(x), T const* P(y), T const* P(z), T* P(o), int n) { neo::multiply_add(VI<C const>(cx<C>(P(x)), n), VI<C const>(cx<C>(P(y)), n), VI<C const>(cx<C>(P(z)), n), VI<C>(cx<C>(P(o)), n)); } \
R(nm##_vi)(T const* P(x), T const* P(y), T const* P(z), T* P(o), int n) { for (int i = 0; i < n; ++i) { P(o)[2 * i] = CRE(i) + P(z)[2 * i]; P(o)[2 * i + 1] = CIM(i) + P(z)[2 * i + 1]; } } \
D(nm##_va) A3 { neo::multiply_add(V<C const>(cx<C>(P(x)), n), V<C const>(cx<C>(P(y)), n), V<C>(cx<C>(P(o)), n), V<C>(cx<C>(P(o)), n)); } \
R(nm##_va) A3 { for (uz i = 0; i < n; ++i) { P(o)[2 * i] = CRE(i) + P(o)[2 * i]; P(o)[2 * i + 1] = CIM(i) + P(o)[2 * i + 1]; } } \
D(nm##_vs)(T const* P(x), T const* P(y), T const* P(z), T* P(o), uz n, uz sx, uz so) { neo::multiply_add(vs(cx<C>(P(x)), n, sx), V<C const>(cx<C>(P(y)), n), V<C const>(cx<C>(P(z)), n), vs(cx<C>(P(o)), n, so)); } \
R(nm##_vs)(T const* P(x), T const* P(y), T const* P(z), T* P(o), uz n, uz sx, uz so) { for (uz i = 0; i < n; ++i) { T const xr = P(x)[2 * sx * i], xi = P(x)[2 * sx * i + 1], yr = P(y)[2 * i], yi = P(y)[2 * i + 1]; P(o)[2 * so * i] = xr * yr - xi * yi + P(z)[2 * i]; P(o)[2 * so * i + 1] = xr * yi + xi * yr + P(z)[2 * i + 1]; } }
CMA(nma, N_)
CMA(sma, Z_)
#define S8 (T const* P(a), T const* P(b), T const* P(c), T const* P(d), T const* P(e), T const* P(f), T* P(o), T* P(q), uz n)
#define S6 (T const* P(a), T const* P(b), T const* P(c), T const* P(d), T* P(o), T* P(q), uz n)
#define SP(W, a, b) neo::split_complex{W(a, n), W(b, n)}
D(spl_v) S8 { neo::multiply_add(SP(V<T const>, P(a), P(b)), SP(V<T const>, P(c), P(d)), SP(V<T const>, P(e), P(f)), SP(V<T>, P(o), P(q))); }
R(spl_v) S8 { for (uz i = 0; i < n; ++i) { P(o)[i] = P(a)[i] * P(c)[i] - P(b)[i] * P(d)[i] + P(e)[i]; P(q)[i] = P(a)[i] * P(d)[i] + P(b)[i] * P(c)[i] + P(f)[i]; } }
D(spl_vi)(T const* P(a), T const* P(b), T const* P(c), T const* P(d), T const* P(e), T const* P(f), T* P(o), T* P(q), int n) { neo::multiply_add(SP(VI<T const>, P(a), P(b)), SP(VI<T const>, P(c), P(d)), SP(VI<T const>, P(e), P(f)), SP(VI<T>, P(o), P(q))); }
R(spl_vi)(T const* P(a), T const* P(b), T const* P(c), T const* P(d), T const* P(e), T const* P(f), T* P(o), T* P(q), int n) { for (int i = 0; i < n; ++i) { P(o)[i] = P(a)[i] * P(c)[i] - P(b)[i] * P(d)[i] + P(e)[i]; P(q)[i] = P(a)[i] * P(d)[i] + P(b)[i] * P(c)[i] + P(f)[i]; } }
D(spl_va) S6 { neo::multiply_add(SP(V<T const>, P(a), P(b)), SP(V<T const>, P(c), P(d)), SP(V<T>, P(o), P(q)), SP(V<T>, P(o), P(q))); }
R(spl_va) S6 { for (uz i = 0; i < n; ++i) { P(o)[i] = P(a)[i] * P(c)[i] - P(b)[i] * P(d)[i] + P(o)[i]; P(q)[i] = P(a)[i] * P(d)[i] + P(b)[i] * P(c)[i] + P(q)[i]; } }
D(spl_vs)(T const* P(a), T const* P(b), T const* P(c), T const* P(d), T const* P(e), T const* P(f), T* P(o), T* P(q), uz n, uz sx, uz so) { neo::multiply_add(neo::split_complex{vs(P(a), n, sx), vs(P(b), n, sx)}, SP(V<T const>, P(c), P(d)), SP(V<T const>, P(e), P(f)), neo::split_complex{vs(P(o), n, so), vs(P(q), n, so)}); }
R(spl_vs)(T const* P(a), T const* P(b), T const* P(c), T const* P(d), T const* P(e), T const* P(f), T* P(o), T* P(q), uz n, uz sx, uz so) { for (uz i = 0; i < n; ++i) { P(o)[so * i] = P(a)[sx * i] * P(c)[i] - P(b)[sx * i] * P(d)[i] + P(e)[i]; P(q)[so * i] = P(a)[sx * i] * P(d)[i] + P(b)[sx * i] * P(c)[i] + P(f)[i]; } }
// a mixed element type never takes the vector path
D(spl_mx)(U const* CAT(a_, EU), U const* CAT(b_, EU), T const* P(c), T const* P(d), T* P(o), T* P(q), uz n) { neo::multiply_add(SP(V<U const>, CAT(a_, EU), CAT(b_, EU)), SP(V<T const>, P(c), P(d)), SP(V<T>, P(o), P(q)), SP(V<T>, P(o), P(q))); }
R(spl_mx)(U const* CAT(a_, EU), U const* CAT(b_, EU), T const* P(c), T const* P(d), T* P(o), T* P(q), uz n) { for (uz i = 0; i < n; ++i) { P(o)[i] = T(CAT(a_, EU)[i] * P(c)[i] - CAT(b_, EU)[i] * P(d)[i] + P(o)[i]); P(q)[i] = T(CAT(a_, EU)[i] * P(d)[i] + CAT(b_, EU)[i] * P(c)[i] + P(q)[i]); } }
#undef A4
#undef A3
#undef CRE
#undef CIM
#undef CMA
#undef S8
#undef S6
#undef SP
#undef N_
#undef Z_
#undef T
#undef S
#undef E
#undef U
#undef EU

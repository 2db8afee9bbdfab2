#define N_ neo::scalar_complex<T>
#define Z_ std::complex<T>
using uz = std::size_t;
DR(T, nef_v)(T const* P(x), uz n) { return neo::normalize_energy_factor(V<T const>(P(x), n)); }
RR(T, nef_v)(T const* P(x), uz n) { T e = 0; for (uz i = 0; i < n; ++i) e += P(x)[i] * P(x)[i]; return e == T(0) ? T(1) : T(1) / std::sqrt(e); }
DR(T, nef_vs)(T const* P(x), uz n, uz sx) { return neo::normalize_energy_factor(vs(P(x), n, sx)); }
RR(T, nef_vs)(T const* P(x), uz n, uz sx) { T e = 0; for (uz i = 0; i < n; ++i) e += P(x)[sx * i] * P(x)[sx * i]; return e == T(0) ? T(1) : T(1) / std::sqrt(e); }
DR(T, nef_m)(T const* P(x), uz rows, uz cols) { return neo::normalize_energy_factor(M<T const>(P(x), rows, cols)); }
RR(T, nef_m)(T const* P(x), uz rows, uz cols) { T e = 0; for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) e += P(x)[i * cols + j] * P(x)[i * cols + j]; return e == T(0) ? T(1) : T(1) / std::sqrt(e); }
D(ne_v)(T* P(x), uz n) { neo::normalize_energy(V<T>(P(x), n)); }
R(ne_v)(T* P(x), uz n) { T e = 0; for (uz i = 0; i < n; ++i) e += P(x)[i] * P(x)[i]; T const f = e == T(0) ? T(1) : T(1) / std::sqrt(e); for (uz i = 0; i < n; ++i) P(x)[i] *= f; }
D(ne_m)(T* P(x), uz rows, uz cols) { neo::normalize_energy(M<T>(P(x), rows, cols)); }
R(ne_m)(T* P(x), uz rows, uz cols) { T e = 0; for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) e += P(x)[i * cols + j] * P(x)[i * cols + j]; T const f = e == T(0) ? T(1) : T(1) / std::sqrt(e); for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) P(x)[i * cols + j] *= f; }
DR(T, npf_v)(T const* P(x), uz n) { return neo::normalize_peak_factor(V<T const>(P(x), n)); }
RR(T, npf_v)(T const* P(x), uz n) { T p = 0; for (uz i = 0; i < n; ++i) p = std::max(p, std::abs(P(x)[i])); return p == T(0) ? T(1) : T(1) / p; }
DR(T, npf_vs)(T const* P(x), uz n, uz sx) { return neo::normalize_peak_factor(vs(P(x), n, sx)); }
RR(T, npf_vs)(T const* P(x), uz n, uz sx) { T p = 0; for (uz i = 0; i < n; ++i) p = std::max(p, std::abs(P(x)[sx * i])); return p == T(0) ? T(1) : T(1) / p; }
DR(T, npf_m)(T const* P(x), uz rows, uz cols) { return neo::normalize_peak_factor(ML<T const>(P(x), rows, cols)); }
RR(T, npf_m)(T const* P(x), uz rows, uz cols) { T p = 0; for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) p = std::max(p, std::abs(P(x)[i + rows * j])); return p == T(0) ? T(1) : T(1) / p; }
D(np_v)(T* P(x), uz n) { neo::normalize_peak(V<T>(P(x), n)); }
R(np_v)(T* P(x), uz n) { T p = 0; for (uz i = 0; i < n; ++i) p = std::max(p, std::abs(P(x)[i])); T const f = p == T(0) ? T(1) : T(1) / p; for (uz i = 0; i < n; ++i) P(x)[i] *= f; }
D(np_m)(T* P(x), uz rows, uz cols) { neo::normalize_peak(M<T>(P(x), rows, cols)); }
R(np_m)(T* P(x), uz rows, uz cols) { T p = 0; for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) p = std::max(p, std::abs(P(x)[cols * i + j])); T const f = p == T(0) ? T(1) : T(1) / p; for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) P(x)[i * cols + j] *= f; }
D(ni_v)(T* P(x), uz n) { neo::convolution::normalize_impulse(V<T>(P(x), n)); }
R(ni_v)(T* P(x), uz n) { T e = 0; for (uz i = 0; i < n; ++i) e += P(x)[i] * P(x)[i]; T const f = e == T(0) ? T(1) : T(1) / std::sqrt(e); for (uz i = 0; i < n; ++i) P(x)[i] *= f; }
D(ni_m)(T* P(x), uz rows, uz cols) { neo::convolution::normalize_impulse(M<T>(P(x), rows, cols)); }
R(ni_m)(T* P(x), uz rows, uz cols)
{
    if (rows < 1) return;
    T f = 0;
    for (uz i = 0; i < rows; ++i) {
        T e = 0;
        for (uz j = 0; j < cols; ++j) e += P(x)[i * cols + j] * P(x)[i * cols + j];
        T const g = e == T(0) ? T(1) : T(1) / std::sqrt(e);
        f = i == 0 ? g : std::min(f, g);
    }
    for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) P(x)[i * cols + j] *= f;
}
// comparison of whole objects
#define MAG(a, b) std::sqrt((a) * (a) + (b) * (b))
#define CLOSE(nm, TOLARG, TOLP, TOLV) \
DR(bool, nm##_v)(T const* P(x), T const* P(y), uz n TOLP) { return neo::allclose(V<T const>(P(x), n), V<T const>(P(y), n) TOLARG); } \
RR(bool, nm##_v)(T const* P(x), T const* P(y), uz n TOLP) { for (uz i = 0; i < n; ++i) if (!(std::abs(P(x)[i] - P(y)[i]) <= TOLV)) return false; return true; } \
DR(bool, nm##_vs)(T const* P(x), T const* P(y), uz n, uz sx, uz sy TOLP) { return neo::allclose(vs(P(x), n, sx), vs(P(y), n, sy) TOLARG); } \
RR(bool, nm##_vs)(T const* P(x), T const* P(y), uz n, uz sx, uz sy TOLP) { for (uz i = 0; i < n; ++i) if (!(std::abs(P(x)[sx * i] - P(y)[sy * i]) <= TOLV)) return false; return true; } \
DR(bool, nm##_m)(T const* P(x), T const* P(y), uz rows, uz cols TOLP) { return neo::allclose(M<T const>(P(x), rows, cols), ML<T const>(P(y), rows, cols) TOLARG); } \
RR(bool, nm##_m)(T const* P(x), T const* P(y), uz rows, uz cols TOLP) { for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) if (!(std::abs(P(x)[cols * i + j] - P(y)[i + rows * j]) <= TOLV)) return false; return true; } \
DR(bool, nm##_vc)(T const* P(x), T const* P(y), uz n TOLP) { return neo::allclose(V<N_ const>(cx<N_>(P(x)), n), V<N_ const>(cx<N_>(P(y)), n) TOLARG); } \
RR(bool, nm##_vc)(T const* P(x), T const* P(y), uz n TOLP) { for (uz i = 0; i < n; ++i) if (!(MAG(P(x)[2 * i] - P(y)[2 * i], P(x)[2 * i + 1] - P(y)[2 * i + 1]) <= TOLV)) return false; return true; } \
DR(bool, nm##_vz)(T const* P(x), T const* P(y), uz n TOLP) { return neo::allclose(V<Z_ const>(cx<Z_>(P(x)), n), V<Z_ const>(cx<Z_>(P(y)), n) TOLARG); } \
RR(bool, nm##_vz)(T const* P(x), T const* P(y), uz n TOLP) { for (uz i = 0; i < n; ++i) if (!(MAG(P(x)[2 * i] - P(y)[2 * i], P(x)[2 * i + 1] - P(y)[2 * i + 1]) <= TOLV)) return false; return true; }
#define COMMA_TP , T tol
#define COMMA_T , tol
CLOSE(acl, COMMA_T, COMMA_TP, tol)
#define NOTHING
CLOSE(acd, NOTHING, NOTHING, TOLD)
DR(bool, am_v)(T const* P(x), T const* P(y), uz n) { return neo::allmatch(V<T const>(P(x), n), V<T const>(P(y), n), [](T a, T b) { return a < b; }); }
RR(bool, am_v)(T const* P(x), T const* P(y), uz n) { for (uz i = 0; i < n; ++i) if (!(P(x)[i] < P(y)[i])) return false; return true; }
DR(bool, am_m)(T const* P(x), T const* P(y), uz rows, uz cols) { return neo::allmatch(M<T const>(P(x), rows, cols), M<T const>(P(y), rows, cols), [](T a, T b) { return a < b; }); }
RR(bool, am_m)(T const* P(x), T const* P(y), uz rows, uz cols) { for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) if (!(P(x)[cols * i + j] < P(y)[cols * i + j])) return false; return true; }
DR(bool, amu_v)(T const* P(x), uz n, T lim) { return neo::allmatch(V<T const>(P(x), n), [lim](T a) { return a > lim; }); }
RR(bool, amu_v)(T const* P(x), uz n, T lim) { for (uz i = 0; i < n; ++i) if (!(P(x)[i] > lim)) return false; return true; }
DR(bool, amu_m)(T const* P(x), uz rows, uz cols, T lim) { return neo::allmatch(ML<T const>(P(x), rows, cols), [lim](T a) { return a > lim; }); }
RR(bool, amu_m)(T const* P(x), uz rows, uz cols, T lim) { for (uz i = 0; i < rows; ++i) for (uz j = 0; j < cols; ++j) if (!(P(x)[i + rows * j] > lim)) return false; return true; }
#undef N_
#undef Z_
#undef T
#undef S
#undef E
#undef TOLD

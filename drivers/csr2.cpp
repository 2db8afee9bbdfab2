// compressed sparse rows with the default containers, through the public interface only
#include <algorithm>
#include <neo/algorithm.hpp>
#include <neo/complex.hpp>
#include <neo/container/csr_matrix.hpp>
#include "vecs.hpp"
using uz = std::size_t;
using i64 = long long;
// mode 0: empty matrix of the given shape; 1: from a dense matrix and a mask; 2: from a dense matrix, elements above a limit; 3: mask, from a column-major view
template<typename Mat, typename T, typename View> Mat start(View w, unsigned char const* keep, int mode, T lim, uz rows, uz cols)
{
    using Ix = typename Mat::index_type;
    if (mode == 0) return Mat(rows, cols);
    if (mode == 2) {
        if constexpr (std::is_floating_point_v<T>) return Mat(w, [=](Ix, Ix, T v) { return v > lim; });
    }
    return Mat(w, [=](Ix r, Ix c, T) { return keep[static_cast<uz>(r) * cols + static_cast<uz>(c)] != 0; });
}
template<typename Mat, typename T> void dump(Mat const& m, T* get, i64* meta, T* vals, i64* cidx, i64* ridx)
{
    using Ix = typename Mat::index_type;
    meta[0] = static_cast<i64>(m.rows()); meta[1] = static_cast<i64>(m.columns()); meta[2] = static_cast<i64>(m.size());
    meta[3] = static_cast<i64>(m.extent(0)); meta[4] = static_cast<i64>(m.extent(1)); meta[5] = static_cast<i64>(m.extents().extent(0)); meta[6] = static_cast<i64>(m.extents().extent(1));
    meta[7] = static_cast<i64>(m.value_container().size()); meta[8] = static_cast<i64>(m.column_container().size()); meta[9] = static_cast<i64>(m.row_container().size());
    for (uz r = 0; r < m.rows(); ++r) for (uz c = 0; c < m.columns(); ++c) get[r * m.columns() + c] = m(static_cast<Ix>(r), static_cast<Ix>(c));
    uz k = 0;
    for (auto const& v : m.value_container()) vals[k++] = v;
    k = 0;
    for (auto const& v : m.column_container()) cidx[k++] = static_cast<i64>(v);
    k = 0;
    for (auto const& v : m.row_container()) ridx[k++] = static_cast<i64>(v);
}
#define OPS(nm, T, Ix) \
extern "C" void d_csr_##nm(T const* w, unsigned char const* keep, int mode, double lim, uz rows, uz cols, i64 const* ops, uz nops, T const* x, T* get, i64* meta, T* vals, i64* cidx, i64* ridx) \
{ \
    using Mat = neo::csr_matrix<T, Ix>; \
    auto m = mode == 3 ? start<Mat, T>(ML<T const>(w, rows, cols), keep, mode, static_cast<T>(static_cast<float>(lim)), rows, cols) : start<Mat, T>(M<T const>(w, rows, cols), keep, mode, static_cast<T>(static_cast<float>(lim)), rows, cols); \
    for (uz i = 0; i < nops; ++i) m.insert(static_cast<Ix>(ops[2 * i]), static_cast<Ix>(ops[2 * i + 1]), x[i]); \
    dump(m, get, meta, vals, cidx, ridx); \
} \
extern "C" void d_csrma_##nm(T const* w, unsigned char const* keep, uz rows, uz cols, uz row, T const* x, T const* z, T* out, int inplace) \
{ \
    using Mat = neo::csr_matrix<T, Ix>; \
    auto const m = start<Mat, T>(M<T const>(w, rows, cols), keep, 1, T(), rows, cols); \
    if (inplace) neo::multiply_add(V<T const>(x, cols), m, static_cast<Ix>(row), V<T>(out, cols), V<T>(out, cols)); \
    else neo::multiply_add(V<T const>(x, cols), m, static_cast<Ix>(row), V<T const>(z, cols), V<T>(out, cols)); \
} \
extern "C" void d_csrcp_##nm(T const* w, unsigned char const* keep, uz rows, uz cols, i64 const* ops, uz nops, T const* x, T* g1, T* g2, T* g3, i64* meta, T* vals, i64* cidx, i64* ridx) \
{ \
    using Mat = neo::csr_matrix<T, Ix>; \
    auto m = start<Mat, T>(M<T const>(w, rows, cols), keep, 1, T(), rows, cols); \
    auto c = m; \
    for (uz i = 0; i < nops; ++i) c.insert(static_cast<Ix>(ops[2 * i]), static_cast<Ix>(ops[2 * i + 1]), x[i]); \
    dump(m, g1, meta, vals, cidx, ridx); \
    dump(c, g2, meta, vals, cidx, ridx); \
    Mat a(1, 1); a = m; Mat b = std::move(c); m = std::move(b); \
    dump(m, g3, meta, vals, cidx, ridx); \
    dump(a, g1, meta, vals, cidx, ridx); \
}
OPS(f, float, std::size_t)
OPS(d, double, std::size_t)
OPS(fu, float, unsigned)
OPS(fi, float, int)
OPS(z, neo::scalar_complex<float>, std::size_t)
OPS(s, std::complex<double>, std::size_t)

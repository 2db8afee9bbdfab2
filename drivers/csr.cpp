// compressed sparse rows: lookup, insertion, construction from a dense matrix and multiply-add with one row
#include "vecs.hpp"
#include <neo/complex.hpp>
#include <neo/container/csr_matrix.hpp>
#include <neo/algorithm/multiply_add.hpp>
#include <neo/convolution/sparse_filter.hpp>
#include "common.hpp"
using uz = std::size_t;
using ull = unsigned long;
// a recording stand-in for std::vector: its storage, growth and insertions are visible effects
extern "C" { extern ull row_store_l[1 << 20]; extern ull col_store_l[1 << 20]; }
template<typename T> struct store;
extern "C" { extern float val_store_f[1 << 20]; extern double val_store_d[1 << 20]; }
template<> struct store<float> { static float* p() { return val_store_f; } };
template<> struct store<double> { static double* p() { return val_store_d; } };
template<> struct store<neo::scalar_complex<float>> { static neo::scalar_complex<float>* p() { return reinterpret_cast<neo::scalar_complex<float>*>(val_store_f); } };
template<> struct store<neo::scalar_complex<double>> { static neo::scalar_complex<double>* p() { return reinterpret_cast<neo::scalar_complex<double>*>(val_store_d); } };
template<typename T> struct vals
{
    T* p{nullptr};
    uz n{0};
    ull* ipos{nullptr};
    T* ival{nullptr};
    void resize(uz m) { p = store<T>::p(); n = m; }
    T& operator[](uz i) { return p[i]; }
    T const& operator[](uz i) const { return p[i]; }
    T* begin() { return p; }
    T* end() { return p + n; }
    uz size() const { return n; }
    void insert(T* at, T v) { *ipos = static_cast<ull>(at - p); *ival = v; ++n; }
};
struct idx
{
    ull* p{nullptr};
    uz n{0};
    ull* ipos{nullptr};
    ull* ival{nullptr};
    idx() = default;
    idx(ull* q, uz m) : p(q), n(m) {}
    idx(uz m, int v) : p(row_store_l), n(m) { for (uz i = 0; i < m; ++i) p[i] = static_cast<ull>(v); }
    void resize(uz m) { p = col_store_l; n = m; }
    ull& operator[](uz i) { return p[i]; }
    ull const& operator[](uz i) const { return p[i]; }
    ull& back() { return p[n - 1]; }
    ull* begin() { return p; }
    ull* end() { return p + n; }
    uz size() const { return n; }
    void insert(ull* at, ull v) { *ipos = static_cast<ull>(at - p); *ival = v; ++n; }
};
template<typename T> using csr = neo::csr_matrix<T, ull, vals<T>, idx>;
template<typename T> csr<T> make(uz rows, uz cols, T const* v, ull const* c, ull const* r, uz nnz)
{
    csr<T> m;
    m._extents = stdex::dextents<ull, 2>(rows, cols);
    m._values.p = const_cast<T*>(v);
    m._values.n = nnz;
    m._colum_indices.p = const_cast<ull*>(c);
    m._colum_indices.n = nnz;
    m._row_indices.p = const_cast<ull*>(r);
    m._row_indices.n = rows + 1;
    return m;
}
extern "C" uz d_rows(uz rows, uz cols) { return make<float>(rows, cols, nullptr, nullptr, nullptr, 0).rows(); }
extern "C" uz r_rows(uz rows, uz cols) { return rows; }
extern "C" uz d_cols(uz rows, uz cols) { return make<float>(rows, cols, nullptr, nullptr, nullptr, 0).columns(); }
extern "C" uz r_cols(uz rows, uz cols) { return cols; }
extern "C" uz d_size(uz rows, uz cols) { return make<float>(rows, cols, nullptr, nullptr, nullptr, 0).size(); }
extern "C" uz r_size(uz rows, uz cols) { return rows * cols; }
extern "C" uz d_ext(uz rows, uz cols) { auto m = make<float>(rows, cols, nullptr, nullptr, nullptr, 0); return m.extent(0) * 1000003 + m.extent(1) + 7 * m.extents().extent(0) + 11 * m.extents().extent(1); }
extern "C" uz r_ext(uz rows, uz cols) { return rows * 1000003 + cols + 7 * rows + 11 * cols; }
extern "C" void d_ctor0(ull* o_l, uz rows, uz cols) { csr<float> m(rows, cols); o_l[0] = m.rows(); o_l[1] = m.columns(); o_l[2] = m.value_container().size(); o_l[3] = m.column_container().size(); o_l[4] = m.row_container().size(); }
extern "C" void r_ctor0(ull* o_l, uz rows, uz cols) { for (uz i = 0; i < rows + 1; ++i) row_store_l[i] = 0; o_l[0] = rows; o_l[1] = cols; o_l[2] = 0; o_l[3] = 0; o_l[4] = rows + 1; }
#define T float
#define S _f32
#define E f
#include "csr.inc"
#define T double
#define S _f64
#define E d
#include "csr.inc"

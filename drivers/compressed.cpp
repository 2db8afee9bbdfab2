// quantised storage of spectra
#include <neo/algorithm.hpp>
#include <neo/complex.hpp>
#include <neo/container/compressed_accessor.hpp>
#include <neo/convolution/compressed_fdl.hpp>
#include "vecs.hpp"
using namespace neo;
namespace cv = neo::convolution;
using uz = std::size_t;
template<typename FC, typename IC, typename F>
static void fdl(F const* x, F* y, uz rows, uz bins, uz const* where, uz inserts)
{
    cv::compressed_fdl<FC, IC> l(stdex::dextents<uz, 2>(rows, bins));
    for (uz i = 0; i < inserts; ++i) l.insert(V<FC const>(cx<FC>(x) + i * bins, bins), where[i]);
    for (uz r = 0; r < rows; ++r) { auto const row = l[r]; for (uz k = 0; k < row.extent(0); ++k) { FC const v = row[k]; y[2 * (r * bins + k)] = v.real(); y[2 * (r * bins + k) + 1] = v.imag(); } }
}
#define FDL(nm, F, FC, IC) extern "C" void d_cfdl_##nm(F const* x, F* y, uz rows, uz bins, uz const* where, uz inserts) { fdl<FC, IC>(x, y, rows, bins, where, inserts); }
FDL(f8, float, scalar_complex<float>, scalar_complex<std::int8_t>)
FDL(f16, float, scalar_complex<float>, scalar_complex<std::int16_t>)
FDL(s16, float, std::complex<float>, scalar_complex<std::int16_t>)
FDL(d16, double, scalar_complex<double>, scalar_complex<std::int16_t>)
FDL(d8, double, std::complex<double>, scalar_complex<std::int8_t>)
// one value through the store
#define ONE(nm, F, FC, IC) extern "C" void d_one_##nm(F const* x, F* y) { uz const w = 0; fdl<FC, IC>(x, y, 1, 1, &w, 1); }
ONE(f8, float, scalar_complex<float>, scalar_complex<std::int8_t>)
ONE(f16, float, scalar_complex<float>, scalar_complex<std::int16_t>)
ONE(s16, float, std::complex<float>, scalar_complex<std::int16_t>)
ONE(d16, double, scalar_complex<double>, scalar_complex<std::int16_t>)
ONE(d8, double, std::complex<double>, scalar_complex<std::int8_t>)
// quantised numbers read through the accessor: rank one and two, and a sub-view
template<typename F, typename I, typename FF>
static void acc(I const* p, FF* y, uz rows, uz cols, uz r0)
{
    using A = stdex::default_accessor<I const>;
    using CA = compressed_accessor<F, A>;
    using X = stdex::dextents<uz, 2>;
    stdex::mdspan<I const, X> const raw(p, X(rows, cols));
    stdex::mdspan<F, X, stdex::layout_right, CA> const m(raw.data_handle(), raw.mapping(), CA(raw.accessor()));
    for (uz r = 0; r < rows; ++r) for (uz c = 0; c < cols; ++c) { F const v = m(r, c); if constexpr (complex<F>) { *y++ = v.real(); *y++ = v.imag(); } else { *y++ = v; } }
    auto const s = stdex::submdspan(m, r0, std::tuple{uz(1), cols});
    for (uz c = 0; c < s.extent(0); ++c) { F const v = s[c]; if constexpr (complex<F>) { *y++ = v.real(); *y++ = v.imag(); } else { *y++ = v; } }
}
#define ACC(nm, F, I, FF) extern "C" void d_acc_##nm(I const* p, FF* y, uz rows, uz cols, uz r0) { acc<F>(p, y, rows, cols, r0); }
#define CACC(nm, F, I, FF) extern "C" void d_acc_##nm(I const* p, FF* y, uz rows, uz cols, uz r0) { acc<F>(reinterpret_cast<scalar_complex<I> const*>(p), y, rows, cols, r0); }
ACC(f8, float, std::int8_t, float)
ACC(f16, float, std::int16_t, float)
ACC(d8, double, std::int8_t, double)
ACC(d16, double, std::int16_t, double)
CACC(cf8, scalar_complex<float>, std::int8_t, float)
CACC(cf16, std::complex<float>, std::int16_t, float)
CACC(cd16, scalar_complex<double>, std::int16_t, double)

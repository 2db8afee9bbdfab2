// views over raw pointers used by the drivers
#pragma once
#include <neo/config.hpp>
#include <neo/container/mdspan.hpp>
#include <array>
template<typename T> using V = stdex::mdspan<T, stdex::dextents<std::size_t, 1>>;
template<typename T> using VL = stdex::mdspan<T, stdex::dextents<std::size_t, 1>, stdex::layout_left>;
template<typename T> using VI = stdex::mdspan<T, stdex::dextents<int, 1>>;
template<typename T> using VS = stdex::mdspan<T, stdex::dextents<std::size_t, 1>, stdex::layout_stride>;
template<typename T> using M = stdex::mdspan<T, stdex::dextents<std::size_t, 2>>;
template<typename T> using ML = stdex::mdspan<T, stdex::dextents<std::size_t, 2>, stdex::layout_left>;
template<typename T> using MS = stdex::mdspan<T, stdex::dextents<std::size_t, 2>, stdex::layout_stride>;
template<typename T> VS<T> vs(T* p, std::size_t n, std::size_t s)
{
    return VS<T>(p, typename VS<T>::mapping_type(stdex::dextents<std::size_t, 1>(n), std::array<std::size_t, 1>{s}));
}
template<typename T> MS<T> ms(T* p, std::size_t r, std::size_t c, std::size_t s0, std::size_t s1)
{
    return MS<T>(p, typename MS<T>::mapping_type(stdex::dextents<std::size_t, 2>(r, c), std::array<std::size_t, 2>{s0, s1}));
}
template<typename C, typename T> C* cx(T* p) { return reinterpret_cast<C*>(p); }
template<typename C, typename T> C const* cx(T const* p) { return reinterpret_cast<C const*>(p); }

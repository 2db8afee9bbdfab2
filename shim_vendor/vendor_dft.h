// Stand-ins for vendor transform libraries, written from their public documentation. Every handle is counted, so that a driver can ask how many are alive.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdlib>
#include <new>
extern "C" void vendor_misuse(int);
namespace vendor {
inline int live = 0;
template<typename T> void dft(T const* re, T const* im, std::size_t is, T* ore, T* oim, std::size_t os, std::size_t n, int sign, T scale)
{
    auto* const tr = static_cast<T*>(std::malloc(n * sizeof(T)));
    auto* const ti = static_cast<T*>(std::malloc(n * sizeof(T)));
    for (std::size_t k = 0; k < n; ++k) {
        T sr = 0, si = 0;
        for (std::size_t j = 0; j < n; ++j) {
            auto const phi = 6.283185307179586476925 * double((j * k) % n) / double(n);
            auto const c = T(std::cos(phi)), s = T(std::sin(phi)) * T(sign);
            sr += re[j * is] * c - im[j * is] * s;
            si += re[j * is] * s + im[j * is] * c;
        }
        tr[k] = sr * scale;
        ti[k] = si * scale;
    }
    for (std::size_t k = 0; k < n; ++k) { ore[k * os] = tr[k]; oim[k * os] = ti[k]; }
    std::free(tr);
    std::free(ti);
}
}

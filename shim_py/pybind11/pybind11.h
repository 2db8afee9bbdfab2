// stand-in for the parts of pybind11 the binding uses: arrays are plain handles, registration is handed to the driver (on_def, on_enum)
#pragma once
#include <complex>
#include <cstddef>
#include <cstdint>
#include <optional>
#include <stdexcept>
#include <string>
#include <type_traits>
extern "C" void mark(int);
namespace pybind11 {
using ssize_t = std::ptrdiff_t;
struct array { enum { c_style = 1, f_style = 2, forcecast = 16 }; };
// mark(3): a Python object is created or inspected (needs the interpreter lock)
template<typename T, int Flags = array::forcecast>
struct array_t : array
{
    using value_type = T;
    T* p_{nullptr};
    ssize_t nd_{1};
    ssize_t n_[3]{0, 1, 1};
    ssize_t s_[3]{sizeof(T), sizeof(T), sizeof(T)};
    int f_{c_style | f_style};
    array_t() = default;
    explicit array_t(ssize_t n) { mark(3); p_ = static_cast<T*>(::operator new(std::size_t(n) * sizeof(T))); n_[0] = n; }  // like numpy.empty: uninitialised
    explicit array_t(std::size_t n) : array_t(ssize_t(n)) {}
    array_t(T* p, ssize_t nd, ssize_t n0, ssize_t n1, ssize_t s0, ssize_t s1, int f) : p_{p}, nd_{nd}, f_{f} { n_[0] = n0; n_[1] = n1; s_[0] = s0; s_[1] = s1; }
    array_t(array_t const& o) = default;
    array_t& operator=(array_t const& o) = default;
    int flags() const { return f_; }
    ssize_t ndim() const { return nd_; }
    ssize_t size() const { ssize_t r = 1; for (ssize_t i = 0; i < nd_; ++i) r *= n_[i]; return r; }
    ssize_t itemsize() const { return sizeof(T); }
    ssize_t shape(ssize_t i) const { if (i >= nd_) throw std::out_of_range("axis"); return n_[i]; }
    ssize_t strides(ssize_t i) const { if (i >= nd_) throw std::out_of_range("axis"); return s_[i]; }
    T* mutable_data() { return p_; }
    T const* data() const { return p_; }
    T const* data(ssize_t i) const { return reinterpret_cast<T const*>(reinterpret_cast<char const*>(p_) + i * s_[0]); }
    T* mutable_data(ssize_t i) { return reinterpret_cast<T*>(reinterpret_cast<char*>(p_) + i * s_[0]); }
    T const& at(ssize_t i) const { if (i >= n_[0]) throw std::out_of_range("index"); return *data(i); }
    T& mutable_at(ssize_t i) { if (i >= n_[0]) throw std::out_of_range("index"); return *mutable_data(i); }
    ssize_t const* shape() const { return n_; }
    ssize_t const* strides() const { return s_; }
    ssize_t nbytes() const { return size() * ssize_t(sizeof(T)); }
    struct ref { array_t const* a; T const& operator()(ssize_t i) const { return *a->data(i); } T const& operator[](ssize_t i) const { return *a->data(i); } ssize_t shape(ssize_t i) const { return a->n_[i]; } ssize_t size() const { return a->size(); } };
    struct mref { array_t* a; T& operator()(ssize_t i) const { return *a->mutable_data(i); } T& operator[](ssize_t i) const { return *a->mutable_data(i); } ssize_t shape(ssize_t i) const { return a->n_[i]; } ssize_t size() const { return a->size(); } };
    template<ssize_t N = 1> ref unchecked() const { if (nd_ != N) throw std::domain_error("ndim"); return {this}; }
    template<ssize_t N = 1> mref mutable_unchecked() { if (nd_ != N) throw std::domain_error("ndim"); return {this}; }
    struct info { void* ptr; ssize_t itemsize, size, ndim; ssize_t const* shape; ssize_t const* strides; };
    info request(bool = false) const { return {const_cast<T*>(p_), ssize_t(sizeof(T)), size(), nd_, n_, s_}; }
};
struct gil_scoped_release { gil_scoped_release() { mark(1); } ~gil_scoped_release() { mark(2); } gil_scoped_release(gil_scoped_release const&) = delete; };
struct gil_scoped_acquire { gil_scoped_acquire() { mark(2); } ~gil_scoped_acquire() { mark(1); } };
struct error : std::runtime_error { using std::runtime_error::runtime_error; };
struct value_error : error { using error::error; }; struct type_error : error { using error::error; }; struct index_error : error { using error::error; };
struct none {};
struct arg { char const* n; constexpr explicit arg(char const* s) : n{s} {} template<typename T> arg const& operator=(T const&) const { return *this; } arg const& noconvert(bool = true) const { return *this; } };
struct kw_only {}; struct pos_only {}; struct doc { char const* s; constexpr explicit doc(char const* p) : s{p} {} };
template<typename... T> struct call_guard {};
namespace literals { constexpr arg operator""_a(char const* s, std::size_t) { return arg{s}; } }
template<typename F> constexpr auto decayed(F f) { if constexpr (requires { +f; }) { return +f; } else { return f; } }
template<typename F> struct vectorized { F f; };
template<typename R, typename... A> auto vectorize(R (*f)(A...)) { return vectorized<R (*)(A...)>{f}; }
template<typename F> requires(not std::is_pointer_v<F>) auto vectorize(F f) { return vectorize(+f); }
struct attr_ { template<typename T> void operator=(T const&) {} };
struct module_
{
    void* job{nullptr};
    template<typename F, typename... X> module_& def(char const* n, F f, X&&...) { on_def(*this, n, decayed(f)); return *this; }
    attr_ doc() { return {}; }
    attr_ attr(char const*) { return {}; }
};
template<typename F> void on_def(module_&, char const*, F) {}
template<typename E> void on_enum(module_&, char const*, char const*, E) {}
template<typename E> struct enum_
{
    module_& m;
    char const* n;
    enum_(module_& mm, char const* nn, ...) : m{mm}, n{nn} {}
    enum_& value(char const* v, E e) { on_enum(m, n, v, e); return *this; }
    enum_& value(char const* v, E e, char const*) { return value(v, e); }
    enum_& export_values() { return *this; }
};
}
#define PYBIND11_MODULE(name, var) static void neo_python_module(pybind11::module_& var)

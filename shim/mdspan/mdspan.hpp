// Minimal stand-in for kokkos/mdspan (not installable offline). It reproduces the
// public semantics that neo relies on: extents, layouts, accessors, mdspan, submdspan.
#pragma once

#include <array>
#include <cassert>
#include <concepts>
#include <cstddef>
#include <span>
#include <tuple>
#include <type_traits>
#include <utility>

#define VERIF_MDSPAN_SHIM 1

namespace Kokkos {

inline constexpr std::size_t dynamic_extent = std::dynamic_extent;

struct full_extent_t { explicit full_extent_t() = default; };
inline constexpr full_extent_t full_extent{};

// ---------------------------------------------------------------- extents
template<typename IndexType, std::size_t... Es>
struct extents
{
    using index_type = IndexType;
    using size_type  = std::make_unsigned_t<IndexType>;
    using rank_type  = std::size_t;

    static constexpr auto rank() noexcept -> rank_type { return sizeof...(Es); }
    static constexpr auto rank_dynamic() noexcept -> rank_type { return ((Es == dynamic_extent ? 1U : 0U) + ... + 0U); }
    static constexpr auto static_extent(rank_type r) noexcept -> std::size_t
    {
        std::size_t const s[sizeof...(Es) + 1]{Es..., 0};
        return s[r];
    }

    constexpr extents() noexcept = default;

    template<typename... I>
        requires(sizeof...(I) > 0 && (std::convertible_to<I, IndexType> && ...) && (sizeof...(I) == rank() || sizeof...(I) == rank_dynamic()))
    constexpr explicit extents(I... is) noexcept
    {
        IndexType const v[sizeof...(I) + 1]{static_cast<IndexType>(is)..., IndexType{}};
        set<sizeof...(I)>(v, std::make_index_sequence<sizeof...(Es)>{});
    }

    template<typename I, std::size_t N>
        requires(std::convertible_to<I const&, IndexType> && (N == rank() || N == rank_dynamic()))
    constexpr explicit(N != rank_dynamic()) extents(std::array<I, N> const& a) noexcept
    {
        IndexType v[N + 1]{};
        for (std::size_t i{0}; i < N; ++i) { v[i] = static_cast<IndexType>(a[i]); }
        set<N>(v, std::make_index_sequence<sizeof...(Es)>{});
    }

    template<typename O, std::size_t... Os>
        requires(sizeof...(Os) == sizeof...(Es) && ((Os == dynamic_extent || Es == dynamic_extent || Os == Es) && ...))
    constexpr explicit(((Es != dynamic_extent && Os == dynamic_extent) || ...)) extents(extents<O, Os...> const& other) noexcept
    {
        copy_from(other, std::make_index_sequence<sizeof...(Es)>{});
    }

    constexpr auto extent(rank_type r) const noexcept -> IndexType
    {
        return _e[r];
    }

    template<typename O, std::size_t... Os>
    friend constexpr auto operator==(extents const& l, extents<O, Os...> const& r) noexcept -> bool
    {
        if constexpr (sizeof...(Os) != sizeof...(Es)) {
            return false;
        } else {
            return eq(l, r, std::make_index_sequence<sizeof...(Es)>{});
        }
    }

private:
    template<typename O, std::size_t... Is>
    static constexpr auto eq(extents const& l, O const& r, std::index_sequence<Is...>) noexcept -> bool
    {
        return ((static_cast<std::size_t>(l.extent(Is)) == static_cast<std::size_t>(r.extent(Is))) && ... && true);
    }

    template<typename O, std::size_t... Is>
    constexpr auto copy_from(O const& o, std::index_sequence<Is...>) noexcept -> void
    {
        ((_e[Is] = static_cast<IndexType>(o.extent(Is))), ...);
    }

    template<std::size_t N, std::size_t... Is>
    constexpr auto set(IndexType const* v, std::index_sequence<Is...>) noexcept -> void
    {
        if constexpr (N == sizeof...(Es)) {
            ((_e[Is] = (static_extent(Is) == dynamic_extent ? v[Is] : static_cast<IndexType>(static_extent(Is)))), ...);
        } else {
            std::size_t d{0};
            ((static_extent(Is) == dynamic_extent ? void(_e[Is] = v[d++]) : void()), ...);
        }
    }

    IndexType _e[sizeof...(Es) == 0 ? 1 : sizeof...(Es)]{static_cast<IndexType>(Es == dynamic_extent ? 0 : Es)...};
};

namespace detail {
template<typename IndexType, std::size_t... Is>
auto make_dextents(std::index_sequence<Is...>) -> extents<IndexType, ((void)Is, dynamic_extent)...>;
}
template<typename IndexType, std::size_t Rank>
using dextents = decltype(detail::make_dextents<IndexType>(std::make_index_sequence<Rank>{}));

template<typename... I>
    requires(std::convertible_to<I, std::size_t> && ...)
explicit extents(I...) -> extents<std::size_t, ((void)sizeof(I), dynamic_extent)...>;

// ---------------------------------------------------------------- layouts
struct layout_right
{
    template<typename E>
    struct mapping
    {
        using extents_type = E;
        using index_type   = typename E::index_type;
        using layout_type  = layout_right;
        constexpr mapping() = default;
        constexpr mapping(E const& e) noexcept : _e{e} {}
        template<typename O> requires std::constructible_from<E, O>
        constexpr mapping(mapping<O> const& o) noexcept : _e(o.extents()) {}
        constexpr auto extents() const noexcept -> E const& { return _e; }
        template<typename... I>
        constexpr auto operator()(I... is) const noexcept -> index_type
        {
            index_type const v[sizeof...(I) + 1]{static_cast<index_type>(is)..., index_type{}};
            return impl(v, std::make_index_sequence<E::rank()>{});
        }
        constexpr auto stride(std::size_t r) const noexcept -> index_type
        {
            return stride_impl(r, std::make_index_sequence<E::rank()>{});
        }
        constexpr auto required_span_size() const noexcept -> index_type { return size_impl(std::make_index_sequence<E::rank()>{}); }
        static constexpr auto is_always_unique() noexcept -> bool { return true; }
        static constexpr auto is_always_exhaustive() noexcept -> bool { return true; }
        static constexpr auto is_always_strided() noexcept -> bool { return true; }
    private:
        template<std::size_t... Is>
        constexpr auto impl(index_type const* v, std::index_sequence<Is...>) const noexcept -> index_type
        {
            index_type r{0};
            ((r = static_cast<index_type>(r * _e.extent(Is) + v[Is])), ...);
            return r;
        }
        template<std::size_t... Is>
        constexpr auto stride_impl(std::size_t r, std::index_sequence<Is...>) const noexcept -> index_type
        {
            index_type s{1};
            ((Is > r ? void(s = static_cast<index_type>(s * _e.extent(Is))) : void()), ...);
            return s;
        }
        template<std::size_t... Is>
        constexpr auto size_impl(std::index_sequence<Is...>) const noexcept -> index_type
        {
            index_type s{1};
            ((s = static_cast<index_type>(s * _e.extent(Is))), ...);
            return s;
        }
        E _e{};
    };
};

struct layout_left
{
    template<typename E>
    struct mapping
    {
        using extents_type = E;
        using index_type   = typename E::index_type;
        using layout_type  = layout_left;
        constexpr mapping() = default;
        constexpr mapping(E const& e) noexcept : _e{e} {}
        template<typename O> requires std::constructible_from<E, O>
        constexpr mapping(mapping<O> const& o) noexcept : _e(o.extents()) {}
        constexpr auto extents() const noexcept -> E const& { return _e; }
        template<typename... I>
        constexpr auto operator()(I... is) const noexcept -> index_type
        {
            index_type const v[sizeof...(I) + 1]{static_cast<index_type>(is)..., index_type{}};
            return impl(v, std::make_index_sequence<E::rank()>{});
        }
        constexpr auto stride(std::size_t r) const noexcept -> index_type
        {
            return stride_impl(r, std::make_index_sequence<E::rank()>{});
        }
        constexpr auto required_span_size() const noexcept -> index_type { return size_impl(std::make_index_sequence<E::rank()>{}); }
        static constexpr auto is_always_unique() noexcept -> bool { return true; }
        static constexpr auto is_always_exhaustive() noexcept -> bool { return true; }
        static constexpr auto is_always_strided() noexcept -> bool { return true; }
    private:
        template<std::size_t... Is>
        constexpr auto impl(index_type const* v, std::index_sequence<Is...>) const noexcept -> index_type
        {
            index_type r{0};
            constexpr std::size_t R = sizeof...(Is);
            ((r = static_cast<index_type>(r * _e.extent(R - 1 - Is) + v[R - 1 - Is])), ...);
            return r;
        }
        template<std::size_t... Is>
        constexpr auto stride_impl(std::size_t r, std::index_sequence<Is...>) const noexcept -> index_type
        {
            index_type s{1};
            ((Is < r ? void(s = static_cast<index_type>(s * _e.extent(Is))) : void()), ...);
            return s;
        }
        template<std::size_t... Is>
        constexpr auto size_impl(std::index_sequence<Is...>) const noexcept -> index_type
        {
            index_type s{1};
            ((s = static_cast<index_type>(s * _e.extent(Is))), ...);
            return s;
        }
        E _e{};
    };
};

struct layout_stride
{
    template<typename E>
    struct mapping
    {
        using extents_type = E;
        using index_type   = typename E::index_type;
        using layout_type  = layout_stride;
        constexpr mapping() = default;
        template<typename S>
        constexpr mapping(E const& e, std::array<S, E::rank()> const& s) noexcept : _e{e}
        {
            set(s, std::make_index_sequence<E::rank()>{});
        }
        template<typename M>
            requires(!std::same_as<M, mapping> && requires(M const& m) { m.extents(); m.stride(std::size_t{0}); } && std::constructible_from<E, typename M::extents_type>)
        constexpr mapping(M const& o) noexcept : _e(o.extents())
        {
            conv(o, std::make_index_sequence<E::rank()>{});
        }
        constexpr auto extents() const noexcept -> E const& { return _e; }
        template<typename... I>
        constexpr auto operator()(I... is) const noexcept -> index_type
        {
            index_type const v[sizeof...(I) + 1]{static_cast<index_type>(is)..., index_type{}};
            return impl(v, std::make_index_sequence<E::rank()>{});
        }
        constexpr auto stride(std::size_t r) const noexcept -> index_type { return _s[r]; }
        static constexpr auto is_always_unique() noexcept -> bool { return true; }
        static constexpr auto is_always_exhaustive() noexcept -> bool { return false; }
        static constexpr auto is_always_strided() noexcept -> bool { return true; }
    private:
        template<typename S, std::size_t... Is>
        constexpr auto set(S const& s, std::index_sequence<Is...>) noexcept -> void
        {
            ((_s[Is] = static_cast<index_type>(s[Is])), ...);
        }
        template<typename M, std::size_t... Is>
        constexpr auto conv(M const& m, std::index_sequence<Is...>) noexcept -> void
        {
            ((_s[Is] = static_cast<index_type>(m.stride(Is))), ...);
        }
        template<std::size_t... Is>
        constexpr auto impl(index_type const* v, std::index_sequence<Is...>) const noexcept -> index_type
        {
            return static_cast<index_type>(((v[Is] * _s[Is]) + ... + index_type{0}));
        }
        E _e{};
        index_type _s[E::rank() == 0 ? 1 : E::rank()]{};
    };
};

// ---------------------------------------------------------------- accessor
template<typename T>
struct default_accessor
{
    using offset_policy    = default_accessor;
    using element_type     = T;
    using reference        = T&;
    using data_handle_type = T*;
    constexpr default_accessor() noexcept = default;
    template<typename U>
        requires std::is_convertible_v<U (*)[], T (*)[]>
    constexpr default_accessor(default_accessor<U>) noexcept {}
    constexpr auto access(T* p, std::size_t i) const noexcept -> T& { return p[i]; }
    constexpr auto offset(T* p, std::size_t i) const noexcept -> T* { return p + i; }
};

// ---------------------------------------------------------------- mdspan
template<typename T, typename E, typename L = layout_right, typename A = default_accessor<T>>
struct mdspan
{
    using extents_type     = E;
    using layout_type      = L;
    using accessor_type    = A;
    using mapping_type     = typename L::template mapping<E>;
    using element_type     = T;
    using value_type       = std::remove_cv_t<T>;
    using index_type       = typename E::index_type;
    using size_type        = typename E::size_type;
    using rank_type        = typename E::rank_type;
    using data_handle_type = typename A::data_handle_type;
    using reference        = typename A::reference;

    static constexpr auto rank() noexcept -> rank_type { return E::rank(); }
    static constexpr auto rank_dynamic() noexcept -> rank_type { return E::rank_dynamic(); }
    static constexpr auto static_extent(rank_type r) noexcept -> std::size_t { return E::static_extent(r); }

    constexpr mdspan() = default;

    template<typename... I>
        requires((std::convertible_to<I, index_type> && ...) && (sizeof...(I) == rank() || sizeof...(I) == rank_dynamic())
                 && std::constructible_from<mapping_type, E> && std::default_initializable<A>)
    constexpr explicit mdspan(data_handle_type p, I... is) : _p{p}, _m(E(is...)), _a{} {}

    constexpr mdspan(data_handle_type p, E const& e) requires(std::constructible_from<mapping_type, E const&> && std::default_initializable<A>)
        : _p{p}, _m(e), _a{} {}
    constexpr mdspan(data_handle_type p, mapping_type const& m) requires(std::default_initializable<A>) : _p{p}, _m(m), _a{} {}
    constexpr mdspan(data_handle_type p, mapping_type const& m, A const& a) : _p{p}, _m(m), _a{a} {}

    template<typename OT, typename OE, typename OL, typename OA>
        requires(std::constructible_from<mapping_type, typename OL::template mapping<OE> const&> && std::constructible_from<A, OA const&>
                 && std::convertible_to<typename OA::data_handle_type, data_handle_type>)
    constexpr mdspan(mdspan<OT, OE, OL, OA> const& o) : _p{o.data_handle()}, _m(o.mapping()), _a(o.accessor()) {}

    template<typename... I>
        requires(sizeof...(I) == rank() && (std::convertible_to<I, index_type> && ...))
    constexpr auto operator()(I... is) const -> reference
    {
        return _a.access(_p, static_cast<std::size_t>(_m(static_cast<index_type>(is)...)));
    }
    template<typename I>
        requires(rank() == 1 && std::convertible_to<I, index_type>)
    constexpr auto operator[](I i) const -> reference
    {
        return _a.access(_p, static_cast<std::size_t>(_m(static_cast<index_type>(i))));
    }

    constexpr auto extents() const noexcept -> E const& { return _m.extents(); }
    constexpr auto extent(rank_type r) const noexcept -> index_type { return _m.extents().extent(r); }
    constexpr auto stride(rank_type r) const noexcept -> index_type { return _m.stride(r); }
    constexpr auto size() const noexcept -> size_type { return size_impl(std::make_index_sequence<E::rank()>{}); }
    constexpr auto empty() const noexcept -> bool { return size() == 0; }
    constexpr auto mapping() const noexcept -> mapping_type const& { return _m; }
    constexpr auto accessor() const noexcept -> A const& { return _a; }
    constexpr auto data_handle() const noexcept -> data_handle_type const& { return _p; }
    static constexpr auto is_always_unique() noexcept -> bool { return mapping_type::is_always_unique(); }
    static constexpr auto is_always_exhaustive() noexcept -> bool { return mapping_type::is_always_exhaustive(); }
    static constexpr auto is_always_strided() noexcept -> bool { return mapping_type::is_always_strided(); }

private:
    template<std::size_t... Is>
    constexpr auto size_impl(std::index_sequence<Is...>) const noexcept -> size_type
    {
        return static_cast<size_type>((static_cast<size_type>(_m.extents().extent(Is)) * ... * size_type{1}));
    }
    data_handle_type _p{};
    mapping_type _m{};
    A _a{};
};

template<typename P>
    requires std::is_pointer_v<std::remove_reference_t<P>>
mdspan(P&&) -> mdspan<std::remove_pointer_t<std::remove_reference_t<P>>, extents<std::size_t>>;
template<typename T, typename... I>
    requires(sizeof...(I) > 0 && (std::convertible_to<I, std::size_t> && ...))
explicit mdspan(T*, I...) -> mdspan<T, dextents<std::size_t, sizeof...(I)>>;
template<typename T, typename I, std::size_t... Es>
mdspan(T*, extents<I, Es...> const&) -> mdspan<T, extents<I, Es...>>;
template<typename T, typename M>
    requires requires { typename M::layout_type; typename M::extents_type; }
mdspan(T*, M const&) -> mdspan<T, typename M::extents_type, typename M::layout_type>;
template<typename M, typename A>
mdspan(typename A::data_handle_type const&, M const&, A const&) -> mdspan<typename A::element_type, typename M::extents_type, typename M::layout_type, A>;

// ---------------------------------------------------------------- submdspan
template<typename O, typename X, typename S>
struct strided_slice
{
    O offset;
    X extent;
    S stride;
};

namespace detail {
template<typename S>
inline constexpr bool is_full = std::same_as<std::remove_cvref_t<S>, full_extent_t>;
template<typename S>
inline constexpr bool is_strided_slice = false;
template<typename O, typename X, typename S>
inline constexpr bool is_strided_slice<strided_slice<O, X, S>> = true;
template<typename S, typename I>
inline constexpr bool is_int = std::convertible_to<S, I>;
template<typename S, typename I>
inline constexpr bool is_range = !is_int<S, I> && !is_full<S> && !is_strided_slice<std::remove_cvref_t<S>>;

template<typename I, typename S>
constexpr auto first_of(S const& s) noexcept -> I
{
    if constexpr (is_int<S, I>) {
        return static_cast<I>(s);
    } else if constexpr (is_full<S>) {
        return I{0};
    } else if constexpr (is_strided_slice<S>) {
        return static_cast<I>(s.offset);
    } else {
        return static_cast<I>(std::get<0>(s));
    }
}
template<typename I, typename S>
constexpr auto extent_of(S const& s, I e) noexcept -> I
{
    if constexpr (is_full<S>) {
        return e;
    } else if constexpr (is_strided_slice<S>) {
        return s.extent == 0 ? I{0} : static_cast<I>(1 + (static_cast<I>(s.extent) - 1) / static_cast<I>(s.stride));
    } else {
        return static_cast<I>(static_cast<I>(std::get<1>(s)) - static_cast<I>(std::get<0>(s)));
    }
}
template<typename I, typename S>
constexpr auto stride_of(S const& s, I st) noexcept -> I
{
    if constexpr (is_strided_slice<S>) {
        return static_cast<I>(st * static_cast<I>(s.stride));
    } else {
        return st;
    }
}
// layout_right kept: ints*, then (range|full)?, then full*
template<typename I, typename... S>
constexpr auto keep_right() -> bool
{
    int const kind[sizeof...(S) + 1]{(is_int<S, I> ? 0 : is_full<S> ? 2 : is_strided_slice<S> ? 3 : 1)..., 0};
    std::size_t i{0};
    while (i < sizeof...(S) && kind[i] == 0) { ++i; }
    if (i < sizeof...(S) && kind[i] == 1) { ++i; }
    while (i < sizeof...(S) && kind[i] == 2) { ++i; }
    return i == sizeof...(S);
}
template<typename I, typename... S>
constexpr auto keep_left() -> bool
{
    int const kind[sizeof...(S) + 1]{(is_int<S, I> ? 0 : is_full<S> ? 2 : is_strided_slice<S> ? 3 : 1)..., 0};
    std::size_t i{0};
    while (i < sizeof...(S) && kind[i] == 2) { ++i; }
    if (i < sizeof...(S) && kind[i] == 1) { ++i; }
    while (i < sizeof...(S) && kind[i] == 0) { ++i; }
    return i == sizeof...(S);
}
template<typename I, typename... S>
constexpr auto kept_rank() -> std::size_t
{
    return ((is_int<S, I> ? 0U : 1U) + ... + 0U);
}
template<typename I, std::size_t K, typename... S>
constexpr auto kept_dim() -> std::size_t  // the source dimension of destination dimension K
{
    bool const isint[sizeof...(S) + 1]{is_int<S, I>..., true};
    std::size_t n{0};
    for (std::size_t i{0}; i < sizeof...(S); ++i) {
        if (!isint[i]) {
            if (n == K) { return i; }
            ++n;
        }
    }
    return 0;
}
template<typename Src, typename Tup, std::size_t... Is>
constexpr auto sub_offset(Src const& src, Tup const& slices, std::index_sequence<Is...>) -> std::size_t
{
    using I = typename Src::index_type;
    return static_cast<std::size_t>(src.mapping()(first_of<I>(std::get<Is>(slices))...));
}
template<typename Src, typename... S, std::size_t... Ks>
constexpr auto sub_impl(Src const& src, std::index_sequence<Ks...>, S const&... slices)
{
    using I   = typename Src::index_type;
    using A   = typename Src::accessor_type;
    using SE  = typename Src::extents_type;
    auto tup  = std::tuple<S const&...>(slices...);
    auto off  = sub_offset(src, tup, std::make_index_sequence<sizeof...(S)>{});
    using NA  = typename A::offset_policy;
    using NE  = extents<I, (is_full<std::tuple_element_t<kept_dim<I, Ks, S...>(), std::tuple<S...>>> ? SE::static_extent(kept_dim<I, Ks, S...>()) : dynamic_extent)...>;
    auto const ext = [&] {
        if constexpr (sizeof...(Ks) == 0) {
            return NE{};
        } else {
            return NE(extent_of<I>(std::get<kept_dim<I, Ks, S...>()>(tup), src.extent(kept_dim<I, Ks, S...>()))...);
        }
    }();
    constexpr bool right = std::same_as<typename Src::layout_type, layout_right> && keep_right<I, S...>();
    constexpr bool left  = std::same_as<typename Src::layout_type, layout_left> && keep_left<I, S...>();
    if constexpr (right || sizeof...(Ks) == 0) {
        return mdspan<typename NA::element_type, NE, layout_right, NA>(
            src.accessor().offset(src.data_handle(), off), layout_right::mapping<NE>(ext), NA(src.accessor()));
    } else if constexpr (left) {
        return mdspan<typename NA::element_type, NE, layout_left, NA>(
            src.accessor().offset(src.data_handle(), off), layout_left::mapping<NE>(ext), NA(src.accessor()));
    } else {
        auto const strides = std::array<I, sizeof...(Ks)>{
            stride_of<I>(std::get<kept_dim<I, Ks, S...>()>(tup), src.stride(kept_dim<I, Ks, S...>()))...};
        return mdspan<typename NA::element_type, NE, layout_stride, NA>(
            src.accessor().offset(src.data_handle(), off), layout_stride::mapping<NE>(ext, strides), NA(src.accessor()));
    }
}
}  // namespace detail

template<typename T, typename E, typename L, typename A, typename... S>
    requires(sizeof...(S) == E::rank())
constexpr auto submdspan(mdspan<T, E, L, A> const& src, S... slices)
{
    return detail::sub_impl(src, std::make_index_sequence<detail::kept_rank<typename E::index_type, S...>()>{}, slices...);
}

}  // namespace Kokkos

// Minimal stand-in for Kokkos::Experimental::mdarray.
#pragma once

#include <mdspan/mdspan.hpp>

#include <vector>

namespace Kokkos::Experimental {

template<typename T, typename E, typename L = layout_right, typename C = std::vector<T>>
struct mdarray
{
    using extents_type    = E;
    using layout_type     = L;
    using container_type  = C;
    using mapping_type    = typename L::template mapping<E>;
    using element_type    = T;
    using value_type      = std::remove_cv_t<T>;
    using index_type      = typename E::index_type;
    using size_type       = typename E::size_type;
    using rank_type       = typename E::rank_type;
    using mdspan_type       = mdspan<T, E, L>;
    using const_mdspan_type = mdspan<T const, E, L>;
    using reference       = T&;
    using const_reference = T const&;

    static constexpr auto rank() noexcept -> rank_type { return E::rank(); }

    constexpr mdarray() requires(E::rank_dynamic() != 0) : _m{}, _c{} {}
    constexpr mdarray() requires(E::rank_dynamic() == 0) : _m{}, _c(static_cast<std::size_t>(_m.required_span_size())) {}

    template<typename... I>
        requires(sizeof...(I) > 0 && (std::convertible_to<I, index_type> && ...) && (sizeof...(I) == E::rank() || sizeof...(I) == E::rank_dynamic()))
    constexpr explicit mdarray(I... is) : _m(E(static_cast<index_type>(is)...)), _c(static_cast<std::size_t>(_m.required_span_size())) {}

    constexpr explicit mdarray(E const& e) : _m(e), _c(static_cast<std::size_t>(_m.required_span_size())) {}
    constexpr explicit mdarray(mapping_type const& m) : _m(m), _c(static_cast<std::size_t>(_m.required_span_size())) {}

    template<typename... I>
        requires(sizeof...(I) == E::rank() && (std::convertible_to<I, index_type> && ...))
    constexpr auto operator()(I... is) -> T&
    {
        return _c[static_cast<std::size_t>(_m(static_cast<index_type>(is)...))];
    }
    template<typename... I>
        requires(sizeof...(I) == E::rank() && (std::convertible_to<I, index_type> && ...))
    constexpr auto operator()(I... is) const -> T const&
    {
        return _c[static_cast<std::size_t>(_m(static_cast<index_type>(is)...))];
    }
    template<typename I>
        requires(E::rank() == 1 && std::convertible_to<I, index_type>)
    constexpr auto operator[](I i) -> T&
    {
        return _c[static_cast<std::size_t>(_m(static_cast<index_type>(i)))];
    }
    template<typename I>
        requires(E::rank() == 1 && std::convertible_to<I, index_type>)
    constexpr auto operator[](I i) const -> T const&
    {
        return _c[static_cast<std::size_t>(_m(static_cast<index_type>(i)))];
    }

    constexpr auto data() noexcept -> T* { return _c.data(); }
    constexpr auto data() const noexcept -> T const* { return _c.data(); }
    constexpr auto container_size() const noexcept -> std::size_t { return _c.size(); }
    constexpr auto size() const noexcept -> size_type { return static_cast<size_type>(_m.required_span_size()); }
    constexpr auto extents() const noexcept -> E const& { return _m.extents(); }
    constexpr auto extent(rank_type r) const noexcept -> index_type { return _m.extents().extent(r); }
    constexpr auto stride(rank_type r) const noexcept -> index_type { return _m.stride(r); }
    constexpr auto mapping() const noexcept -> mapping_type const& { return _m; }

    constexpr auto to_mdspan() -> mdspan_type { return mdspan_type(_c.data(), _m); }
    constexpr auto to_mdspan() const -> const_mdspan_type { return const_mdspan_type(_c.data(), _m); }
    template<typename T2, typename X2, typename L2, typename A2> requires(std::is_convertible_v<mdspan_type, mdspan<T2, X2, L2, A2>>) constexpr operator mdspan<T2, X2, L2, A2>() { return to_mdspan(); }
    template<typename T2, typename X2, typename L2, typename A2> requires(std::is_convertible_v<const_mdspan_type, mdspan<T2, X2, L2, A2>>) constexpr operator mdspan<T2, X2, L2, A2>() const { return to_mdspan(); }

private:
    mapping_type _m;
    C _c;
};

}  // namespace Kokkos::Experimental

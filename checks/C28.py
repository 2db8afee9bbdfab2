from lib import *
import build, subprocess, re
c = Check('C28', 'other', 'Every row is a compile-time witness: a static_assert (or a requires-expression) over a type and the expected answer, computed here from the rank, constness, '
          'uniqueness and element type of the view, is type-checked by clang against the current headers (-fsyntax-only; nothing is linked or run). A failing row names the concept or function and the type.',
          'argument concepts admit exactly the views that work, complex detection admits exactly the complex types, and every algorithm rejects at compile time what it could not process')
# name, C++ type, rank (None: no mdspan), element, const, unique, default accessor, layout
VIEWS = []
for el, cpp in (('float', 'float'), ('double', 'double'), ('int', 'int'), ('cf', 'std::complex<float>'), ('sc', 'neo::scalar_complex<double>'), ('q15', 'neo::q15')):
    for k in (0, 1):
        for r in (0, 1, 2, 3):
            for lay in ('layout_right', 'layout_left', 'layout_stride'):
                VIEWS.append((f'stdex::mdspan<{cpp}{" const" if k else ""}, stdex::dextents<std::size_t, {r}>, stdex::{lay}>', r, cpp, bool(k), True, True, lay))
for k in ('', ' const'):
    VIEWS.append((f'stdex::mdspan<float{k}, stdex::extents<int, 4>>', 1, 'float', bool(k), True, True, 'layout_right'))
    VIEWS.append((f'stdex::mdspan<float{k}, stdex::extents<int, 4, std::dynamic_extent>>', 2, 'float', bool(k), True, True, 'layout_right'))
    VIEWS.append((f'stdex::mdspan<float{k}, stdex::dextents<int, 1>, overlapping>', 1, 'float', bool(k), False, True, 'overlapping'))
    VIEWS.append((f'stdex::mdspan<float{k}, stdex::dextents<int, 2>, overlapping>', 2, 'float', bool(k), False, True, 'overlapping'))
    VIEWS.append((f'stdex::mdspan<float{k}, stdex::dextents<int, 1>, stdex::layout_right, doubling<float{k}>>', 1, 'float', bool(k), True, False, 'layout_right'))
OTHER = ['int', 'float', 'float*', 'float[3]', 'std::complex<float>', 'std::vector<float>', 'std::array<float, 4>', 'std::span<float>', 'stdex::mdarray<float, stdex::dextents<std::size_t, 1>>',
         'neo::split_complex<stdex::mdspan<float, stdex::dextents<std::size_t, 1>>>', 'void', 'stdex::mdspan<float, stdex::dextents<std::size_t, 1>>&', 'stdex::mdspan<float, stdex::dextents<std::size_t, 1>> const*']
rows = []
def dep(t): return f'dep<X_, {t}>'
def row(expr, want, why): rows.append((expr, bool(want), why))
RANK = dict(vector=(1,), matrix=(2,), object=(1, 2))
for t, r, el, k, u, acc, lay in VIEWS:
    row(f'neo::is_mdspan<{t}>', True, 'is_mdspan')
    for sh, ranks in RANK.items():
        row(f'neo::in_{sh}<{t}>', r in ranks, f'in_{sh}')
        for d in ('out', 'inout'): row(f'neo::{d}_{sh}<{t}>', r in ranks and not k and u, f'{d}_{sh}')
        for other in (el, 'float' if el != 'float' else 'double'):
            row(f'neo::in_{sh}_of<{t}, {other}>', r in ranks and other == el, f'in_{sh}_of')
            for d in ('out', 'inout'): row(f'neo::{d}_{sh}_of<{t}, {other}>', r in ranks and not k and u and other == el, f'{d}_{sh}_of')
    row(f'neo::has_default_accessor<{t}>', acc, 'has_default_accessor')
    row(f'neo::has_layout_left<{t}>', lay == 'layout_left', 'has_layout_left'); row(f'neo::has_layout_right<{t}>', lay == 'layout_right', 'has_layout_right')
    row(f'neo::has_layout_left_or_right<{t}>', lay in ('layout_left', 'layout_right'), 'has_layout_left_or_right')
    row(f'neo::always_vectorizable<{t}>', r == 1 and acc and lay in ('layout_left', 'layout_right'), 'always_vectorizable')
    for f, a in (('fill', '{0}, 1'), ('normalize_peak', '{0}'), ('normalize_energy', '{0}')):
        if el in ('float', 'double'): row(f'requires({dep(t)} v) {{ neo::{f}({a.format("v")}); }}', r in (1, 2) and not k and u, f)
    if el in ('float', 'double'):
        row(f'requires({dep(t)} v) {{ neo::scale(1.0, v); }}', r in (1, 2) and not k and u, 'scale')
        for f in ('mean', 'variance', 'standard_deviation'): row(f'requires({dep(t)} v) {{ neo::{f}(v); }}', r in (1, 2), f)
for t in OTHER:
    for n in ['is_mdspan'] + [f'{d}_{s}' for d in ('in', 'out', 'inout') for s in RANK] + [f'{d}_{s}_of' for d in ('in', 'out', 'inout') for s in RANK]:
        row(f'neo::{n}<{t}{", float" if n.endswith("_of") else ""}>', False, n)
# several arguments
V1 = [v for v in VIEWS if v[2] == 'float' and v[6] != 'layout_stride' and v[1] in (1, 2) and 'dextents' in v[0]]
vec = lambda k, r, lay='layout_right': f'stdex::mdspan<float{" const" if k else ""}, stdex::dextents<std::size_t, {r}>, stdex::{lay}>'
for r1 in (1, 2, 3):
    for r2 in (1, 2, 3):
        for k in (0, 1):
            row(f'requires({dep(vec(1, r1))} a, {dep(vec(k, r2))} b) {{ neo::copy(a, b); }}', r1 == r2 and r1 < 3 and not k, 'copy')
            if r1 == r2 < 3: row(f'requires({dep(vec(1, r1))} a, {dep(vec(1, r2))} b) {{ neo::allmatch(a, b); }}', r1 == r2 and r1 < 3, 'allmatch')
            if r1 == r2 < 3: row(f'requires({dep(vec(1, r1))} a, {dep(vec(1, r2))} b) {{ neo::allclose(a, b); }}', r1 == r2 and r1 < 3, 'allclose')
            for r3 in (1, 2):
                for f in ('add', 'multiply'):
                    row(f'requires({dep(vec(1, r1))} a, {dep(vec(1, r2))} b, {dep(vec(k, r3))} o) {{ neo::{f}(a, b, o); }}', r1 == r2 == r3 and not k, f)
for k in (0, 1):
    for ra in (1, 2):
        row(f'requires({dep(vec(1, 1))} a, {dep(vec(1, ra))} b, {dep(vec(1, 1))} d, {dep(vec(k, 1))} o) {{ neo::multiply_add(a, b, d, o); }}', ra == 1 and not k, 'multiply_add')
row(f'neo::always_vectorizable<{vec(1, 1)}, {vec(0, 1)}>', True, 'always_vectorizable')
row(f'neo::always_vectorizable<{vec(1, 1)}, {vec(0, 2)}>', False, 'always_vectorizable')
row(f'neo::always_vectorizable<{vec(1, 1)}, {vec(0, 1, "layout_stride")}>', False, 'always_vectorizable')
row(f'neo::always_vectorizable<{vec(1, 1, "layout_stride")}, {vec(0, 1)}>', False, 'always_vectorizable')
# complex detection
YES = ['std::complex<float>', 'std::complex<double>', 'std::complex<long double>', 'neo::scalar_complex<float>', 'neo::scalar_complex<double>', 'neo::scalar_complex<long double>', 'neo::complex64', 'neo::complex128',
       'neo::scalar_complex<std::int16_t>', 'neo::complex_q7', 'neo::complex_q15']
NO = ['float', 'double', 'long double', 'int', 'unsigned char', 'bool', 'neo::q7', 'neo::q15', 'std::pair<float, float>', 'std::array<float, 2>', 'std::complex<float>*', 'std::vector<std::complex<float>>',
      'neo::split_complex<stdex::mdspan<float, stdex::dextents<std::size_t, 1>>>', 'std::complex<float>[2]', 'stdex::mdspan<std::complex<float>, stdex::dextents<std::size_t, 1>>']
for t in YES: row(f'neo::complex<{t}>', True, 'complex'); row(f'neo::is_complex<{t}>', True, 'is_complex')
for t in NO: row(f'neo::complex<{t}>', False, 'complex'); row(f'neo::is_complex<{t}>', False, 'is_complex')
VT = [('std::complex<float>', 'float'), ('std::complex<double>', 'double'), ('neo::complex64', 'float'), ('neo::complex128', 'double'), ('std::vector<int>', 'int'), ('neo::complex_q15', 'neo::q15'), ('neo::complex_q7', 'neo::q7'),
      (vec(1, 1), 'float'), (vec(0, 2), 'float')]
for a, b in VT: row(f'std::same_as<neo::value_type_t<{a}>, {b}>', True, 'value_type_t')
for a, b in (('neo::q7', 'std::int8_t'), ('neo::q15', 'std::int16_t')):
    row(f'std::same_as<{a}::storage_type, {b}>', True, 'storage_type'); row(f'sizeof({a}) == sizeof({b})', True, 'fixed_point size')
row('sizeof(neo::complex64) == 2 * sizeof(float) and alignof(neo::complex64) == alignof(float)', True, 'scalar_complex layout')
row('sizeof(neo::complex128) == 2 * sizeof(double) and alignof(neo::complex128) == alignof(double)', True, 'scalar_complex layout')
row('std::is_trivially_copyable_v<neo::complex64> and std::is_trivially_copyable_v<neo::complex128>', True, 'scalar_complex layout')
# plans exist for complex types only
for p in ('fft_plan',): 
    for t in ('std::complex<float>', 'std::complex<double>', 'neo::complex64', 'neo::complex128'): row(f'requires {{ typename neo::fft::{p}<{t}>; }}', True, p)
row('std::same_as<typename neo::fft::fft_plan<std::complex<double>>::value_type, std::complex<double>>', True, 'fft_plan::value_type')
row('std::same_as<std::remove_cvref_t<decltype(neo::mean(std::declval<' + vec(1, 1) + '>()).value())>, float>', True, 'mean')
row('noexcept(neo::add(std::declval<' + vec(1, 1) + '>(), std::declval<' + vec(1, 1) + '>(), std::declval<' + vec(0, 1) + '>()))', True, 'add noexcept')
HEAD = '''#include <neo/algorithm.hpp>
#include <neo/complex.hpp>
#include <neo/fft.hpp>
#include <neo/fixed_point.hpp>
#include <neo/fixed_point/complex.hpp>
#include <neo/container/mdspan.hpp>
#include <complex>
#include <span>
#include <vector>
template<class X, class T> using dep = std::conditional_t<sizeof(X) != 0, T, void>;
// all indices may map to one element
struct overlapping { template<class E> struct mapping { using extents_type = E; using index_type = typename E::index_type; using size_type = typename E::size_type; using rank_type = typename E::rank_type; using layout_type = overlapping;
  E e; constexpr mapping() = default; constexpr mapping(E const& x) : e(x) {} constexpr E const& extents() const { return e; } constexpr index_type required_span_size() const { return 1; }
  template<class... I> constexpr index_type operator()(I...) const { return 0; } static constexpr bool is_always_unique() { return false; } static constexpr bool is_always_exhaustive() { return false; } static constexpr bool is_always_strided() { return true; }
  constexpr bool is_unique() const { return false; } constexpr bool is_exhaustive() const { return false; } constexpr bool is_strided() const { return true; } constexpr index_type stride(rank_type) const { return 0; } }; };
template<class T> struct doubling { using element_type = T; using data_handle_type = T*; using reference = T&; using offset_policy = doubling; reference access(T* p, std::size_t i) const { return p[2 * i]; } T* offset(T* p, std::size_t i) const { return p + 2 * i; } };
'''
def rid(i): return f'{rows[i][2]} #{i}'
cfgs = ['avx2', 'avx2-noxsimd'] + (['sse2', 'avx512'] if c.deep else [])
d = build.scratch()
for cfg in cfgs:
    src = os.path.join(d, f'c28_{cfg}.cpp')
    with open(src, 'w') as f:
        f.write(HEAD)
        # a template parameter makes an ill-formed requirement a false answer, not an error
        for i, (e, w, _) in enumerate(rows):
            f.write(f'#line {i + 1} "witness"\ntemplate<typename X_> inline constexpr bool w{i} = {e}; static_assert(w{i}<int> == {str(w).lower()});\n')
    head = os.path.join(d, 'head.cpp'); open(head, 'w').write(HEAD)
    cmd = ['clang++-18', '-std=c++20', '-fsyntax-only', '-ferror-limit=0', '-Wno-everything'] + build.CONFIGS[cfg] + [f'-I{build.REPO}/src', f'-I{build.ROOT}/shim']
    r = build.run(cmd + [head])
    if r.returncode: c.add(f'headers[{cfg}]', 'broken', r.stderr[:800]); continue
    r = build.run(cmd + [src])
    bad = {}
    for m in re.finditer(r'^witness:(\d+):\d+: error: (.*)$', r.stderr, re.M): bad.setdefault(int(m.group(1)) - 1, m.group(2))
    other = [l for l in r.stderr.splitlines() if ' error: ' in l and not l.startswith('witness:')]
    # an error inside the library, reached from a witness: the call was admitted and does not compile
    for m in re.finditer(r'witness:(\d+):', r.stderr):
        if other: bad.setdefault(int(m.group(1)) - 1, 'admitted, but the body does not compile: ' + other[0][-160:])
    if r.returncode and not bad: c.add(f'witnesses[{cfg}]', 'broken', r.stderr[:1200]); continue
    for i, (e, w, why) in enumerate(rows):
        nm = f'{why}: {e} [{cfg}]'
        if i in bad: c.add(nm[:200], 'refuted', f'{e} is {"false" if w else "true"}, specified {str(w).lower()} ({bad[i][:160]})')
        else: c.add(nm[:200], 'proved')
done(c)

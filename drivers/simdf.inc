// V: register type; T: element; N: lanes; E: element suffix
#define LD(p) V::load_unaligned(P(p))
#define ST .store_unaligned(P(o))
#define ARR (T const* P(x), T const* P(y), T* P(o))
#define FOR for (int i = 0; i < N; ++i) P(o)[i]
D(sv_copy)(T const* P(x), T* P(o)) { LD(x)ST; }
R(sv_copy)(T const* P(x), T* P(o)) { FOR = P(x)[i]; }
D(sv_bcast)(T const* P(x), T* P(o)) { V::broadcast(P(x)[0])ST; }
R(sv_bcast)(T const* P(x), T* P(o)) { T const a = P(x)[0]; FOR = a; }
D(sv_reg)(T const* P(x), T* P(o)) { V{static_cast<V::register_type>(LD(x))}ST; }
R(sv_reg)(T const* P(x), T* P(o)) { FOR = P(x)[i]; }
D(sv_add) ARR { (LD(x) + LD(y))ST; }
R(sv_add) ARR { FOR = static_cast<T>(static_cast<W>(P(x)[i]) + static_cast<W>(P(y)[i])); }
D(sv_sub) ARR { (LD(x) - LD(y))ST; }
R(sv_sub) ARR { FOR = static_cast<T>(static_cast<W>(P(x)[i]) - static_cast<W>(P(y)[i])); }
D(sv_mul) ARR { (LD(x) * LD(y))ST; }
R(sv_mul) ARR { FOR = static_cast<T>(static_cast<W>(P(x)[i]) * static_cast<W>(P(y)[i])); }
D(sv_addself)(T const* P(x), T* P(o)) { auto const v = LD(x); (v + v)ST; }
R(sv_addself)(T const* P(x), T* P(o)) { FOR = static_cast<T>(static_cast<W>(P(x)[i]) + static_cast<W>(P(x)[i])); }
D(sv_chain) (T const* P(x), T const* P(y), T const* P(z), T* P(o)) { (LD(x) * LD(y) + LD(z))ST; }
R(sv_chain) (T const* P(x), T const* P(y), T const* P(z), T* P(o))
{ FOR = static_cast<T>(static_cast<W>(static_cast<T>(static_cast<W>(P(x)[i]) * static_cast<W>(P(y)[i]))) + static_cast<W>(P(z)[i])); }
DR(int, sv_size)() { return V::size; }
RR(int, sv_size)() { return N; }
DR(int, sv_align)() { return V::alignment; }
RR(int, sv_align)() { return N * sizeof(T); }
DR(int, sv_elem)() { return std::is_same_v<V::value_type, T>; }
RR(int, sv_elem)() { return 1; }
#undef LD
#undef ST
#undef ARR
#undef FOR
#undef V
#undef T
#undef W
#undef N
#undef S
#undef E

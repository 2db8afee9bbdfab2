#define Z neo::scalar_complex<T>
#define PUT(z) { auto const t_ = (z); P(o)[0] = t_.real(); P(o)[1] = t_.imag(); }
#define PUT2(a, b) { P(o)[0] = (a); P(o)[1] = (b); }
#define ARGS2 (T ar, T ai, T br, T bi, T* P(o))
#define ARGS1 (T ar, T ai, T* P(o))
D(cx_add) ARGS2 { PUT((Z{ar, ai} + Z{br, bi})) }
R(cx_add) ARGS2 { PUT2(ar + br, ai + bi) }
D(cx_sub) ARGS2 { PUT((Z{ar, ai} - Z{br, bi})) }
R(cx_sub) ARGS2 { PUT2(ar - br, ai - bi) }
D(cx_mul) ARGS2 { PUT((Z{ar, ai} * Z{br, bi})) }
R(cx_mul) ARGS2 { PUT2(ar * br - ai * bi, ar * bi + ai * br) }
D(cx_div) ARGS2 { PUT((Z{ar, ai} / Z{br, bi})) }
R(cx_div) ARGS2 { T q = br * br + bi * bi; PUT2((ar * br + ai * bi) / q, (ai * br - ar * bi) / q) }
D(cx_pos) ARGS1 { PUT((+Z{ar, ai})) }
R(cx_pos) ARGS1 { PUT2(ar, ai) }
D(cx_neg) ARGS1 { PUT((-Z{ar, ai})) }
R(cx_neg) ARGS1 { PUT2(-ar, -ai) }
D(cx_conj) ARGS1 { PUT((conj(Z{ar, ai}))) }
R(cx_conj) ARGS1 { PUT2(ar, -ai) }
D(cx_mconj) ARGS1 { PUT((neo::math::conj(Z{ar, ai}))) }
R(cx_mconj) ARGS1 { PUT2(ar, -ai) }
DR(T, cx_abs)(T ar, T ai) { return abs(Z{ar, ai}); }
RR(T, cx_abs)(T ar, T ai) { return static_cast<T>(std::sqrt(ar * ar + ai * ai)); }
DR(T, cx_mabs)(T ar, T ai) { return neo::math::abs(Z{ar, ai}); }
RR(T, cx_mabs)(T ar, T ai) { return static_cast<T>(std::sqrt(ar * ar + ai * ai)); }
D(cx_addeq) ARGS2 { Z z{ar, ai}; auto& r = (z += Z{br, bi}); PUT(r) }
R(cx_addeq) ARGS2 { PUT2(ar + br, ai + bi) }
D(cx_subeq) ARGS2 { Z z{ar, ai}; auto& r = (z -= Z{br, bi}); PUT(r) }
R(cx_subeq) ARGS2 { PUT2(ar - br, ai - bi) }
D(cx_muleq) ARGS2 { Z z{ar, ai}; z *= Z{br, bi}; PUT(z) }
R(cx_muleq) ARGS2 { PUT2(ar * br - ai * bi, ar * bi + ai * br) }
D(cx_diveq) ARGS2 { Z z{ar, ai}; z /= Z{br, bi}; PUT(z) }
R(cx_diveq) ARGS2 { T q = br * br + bi * bi; PUT2((ar * br + ai * bi) / q, (ai * br - ar * bi) / q) }
// the right operand is the left operand
D(cx_addself) ARGS1 { Z z{ar, ai}; z += z; PUT(z) }
R(cx_addself) ARGS1 { PUT2(2 * ar, 2 * ai) }
D(cx_subself) ARGS1 { Z z{ar, ai}; z -= z; PUT(z) }
R(cx_subself) ARGS1 { PUT2(ar - ar, ai - ai) }
D(cx_mulself) ARGS1 { Z z{ar, ai}; z *= z; PUT(z) }
R(cx_mulself) ARGS1 { PUT2(ar * ar - ai * ai, 2 * ar * ai) }
D(cx_divself) ARGS1 { Z z{ar, ai}; z /= z; PUT(z) }
R(cx_divself) ARGS1 { T q = ar * ar + ai * ai; PUT2((ar * ar + ai * ai) / q, (ai * ar - ar * ai) / q) }
D(cx_scale)(T ar, T ai, T s, T* P(o)) { Z z{ar, ai}; z *= s; PUT(z) }
R(cx_scale)(T ar, T ai, T s, T* P(o)) { PUT2(ar * s, ai * s) }
D(cx_unscale)(T ar, T ai, T s, T* P(o)) { Z z{ar, ai}; z /= s; PUT(z) }
R(cx_unscale)(T ar, T ai, T s, T* P(o)) { PUT2(ar / s, ai / s) }
D(cx_real_ctor)(T ar, T* P(o)) { Z z{ar}; PUT(z) }
R(cx_real_ctor)(T ar, T* P(o)) { PUT2(ar, T(0)) }
D(cx_setreal)(T ar, T ai, T s, T* P(o)) { Z z{ar, ai}; z.real(s); PUT(z) }
R(cx_setreal)(T ar, T ai, T s, T* P(o)) { PUT2(s, ai) }
D(cx_setimag)(T ar, T ai, T s, T* P(o)) { Z z{ar, ai}; z.imag(s); PUT(z) }
R(cx_setimag)(T ar, T ai, T s, T* P(o)) { PUT2(ar, s) }
D(cx_get) ARGS1 { Z const z{ar, ai}; auto const [a, b] = z; P(o)[0] = a; P(o)[1] = b; P(o)[2] = get<0>(z); P(o)[3] = get<1>(z); }
R(cx_get) ARGS1 { P(o)[0] = ar; P(o)[1] = ai; P(o)[2] = ar; P(o)[3] = ai; }
D(cx_parts) ARGS1 { Z const z{ar, ai}; P(o)[0] = neo::math::real(z); P(o)[1] = neo::math::imag(z); }
R(cx_parts) ARGS1 { P(o)[0] = ar; P(o)[1] = ai; }
// memory layout of an array of complex numbers: interleaved re, im
D(cx_layout)(Z const* P(x), Z* P(o)) { P(o)[0] = P(x)[1]; P(o)[1] = Z{P(x)[0].imag(), P(x)[0].real()}; }
R(cx_layout)(T const* P(x), T* P(o)) { P(o)[0] = P(x)[2]; P(o)[1] = P(x)[3]; P(o)[2] = P(x)[1]; P(o)[3] = P(x)[0]; }
DR(bool, cx_exact)(T ar, T ai, T br, T bi) { return neo::float_equality::exact(Z{ar, ai}, Z{br, bi}); }
RR(bool, cx_exact)(T ar, T ai, T br, T bi) { return ar == br && ai == bi; }
// real partners
#define ARGSR (T ar, T ai, T s, T* P(o))
D(cx_mulr) ARGSR { PUT((Z{ar, ai} * s)) }
R(cx_mulr) ARGSR { PUT2(ar * s, ai * s) }
D(cx_rmul) ARGSR { PUT((s * Z{ar, ai})) }
R(cx_rmul) ARGSR { PUT2(ar * s, ai * s) }
D(cx_addr) ARGSR { PUT((Z{ar, ai} + s)) }
R(cx_addr) ARGSR { PUT2(ar + s, ai) }
D(cx_rsub) ARGSR { PUT((s - Z{ar, ai})) }
R(cx_rsub) ARGSR { PUT2(s - ar, -ai) }
D(cx_divr) ARGSR { PUT((Z{ar, ai} / s)) }
R(cx_divr) ARGSR { PUT2(ar / s, ai / s) }
D(cx_subr) ARGSR { PUT((Z{ar, ai} - s)) }
R(cx_subr) ARGSR { PUT2(ar - s, ai) }
D(cx_radd) ARGSR { PUT((s + Z{ar, ai})) }
R(cx_radd) ARGSR { PUT2(s + ar, ai) }
D(cx_rdiv) ARGSR { PUT((s / Z{ar, ai})) }
R(cx_rdiv) ARGSR { T q = ar * ar + ai * ai; PUT2(s * ar / q, -(s * ai) / q) }
D(cx_addeqr) ARGSR { Z z{ar, ai}; auto& r = (z += s); PUT(r) }
R(cx_addeqr) ARGSR { PUT2(ar + s, ai) }
D(cx_subeqr) ARGSR { Z z{ar, ai}; auto& r = (z -= s); PUT(r) }
R(cx_subeqr) ARGSR { PUT2(ar - s, ai) }
D(cx_addeqi)(T ar, T ai, short s, T* P(o)) { Z z{ar, ai}; z += s; PUT(z) }
R(cx_addeqi)(T ar, T ai, short s, T* P(o)) { PUT2(ar + static_cast<T>(s), ai) }
D(cx_subeqi)(T ar, T ai, short s, T* P(o)) { Z z{ar, ai}; z -= s; PUT(z) }
R(cx_subeqi)(T ar, T ai, short s, T* P(o)) { PUT2(ar - static_cast<T>(s), ai) }
D(cx_assign)(T ar, T ai, T br, T bi, T s, T* P(o)) { Z z{ar, ai}; Z w{br, bi}; auto& r = (z = w); w = s; P(o)[0] = r.real(); P(o)[1] = z.imag(); P(o)[2] = w.real(); P(o)[3] = w.imag(); }
R(cx_assign)(T ar, T ai, T br, T bi, T s, T* P(o)) { P(o)[0] = br; P(o)[1] = bi; P(o)[2] = s; P(o)[3] = T(0); }
D(cx_scalei)(T ar, T ai, int s, T* P(o)) { Z z{ar, ai}; z *= s; PUT(z) }
R(cx_scalei)(T ar, T ai, int s, T* P(o)) { PUT2(ar * static_cast<T>(s), ai * static_cast<T>(s)) }
D(cx_unscalei)(T ar, T ai, int s, T* P(o)) { Z z{ar, ai}; z /= s; PUT(z) }
R(cx_unscalei)(T ar, T ai, int s, T* P(o)) { PUT2(ar / static_cast<T>(s), ai / static_cast<T>(s)) }
D(cx_scalel)(T ar, T ai, long s, T* P(o)) { Z z{ar, ai}; z *= s; PUT(z) }
R(cx_scalel)(T ar, T ai, long s, T* P(o)) { PUT2(ar * static_cast<T>(s), ai * static_cast<T>(s)) }
D(cx_unscaleu)(T ar, T ai, unsigned s, T* P(o)) { Z z{ar, ai}; z /= s; PUT(z) }
R(cx_unscaleu)(T ar, T ai, unsigned s, T* P(o)) { PUT2(ar / static_cast<T>(s), ai / static_cast<T>(s)) }
D(cx_scaled)(T ar, T ai, OT s, T* P(o)) { Z z{ar, ai}; z *= s; PUT(z) }
R(cx_scaled)(T ar, T ai, OT s, T* P(o)) { PUT2(static_cast<T>(ar * s), static_cast<T>(ai * s)) }
D(cx_unscaled)(T ar, T ai, OT s, T* P(o)) { Z z{ar, ai}; auto& r = (z /= s); PUT(r) }
R(cx_unscaled)(T ar, T ai, OT s, T* P(o)) { PUT2(static_cast<T>(ar / s), static_cast<T>(ai / s)) }
DR(bool, cx_ref)(T ar, T ai, T br, T bi) { Z z{ar, ai}; Z w{br, bi}; auto* a = &(z += w); auto* b = &(z -= w); auto* c = &(z *= w); auto* d = &(z /= w); auto* e = &(z *= ar); auto* f = &(z /= br); return a == &z && b == &z && c == &z && d == &z && e == &z && f == &z; }
RR(bool, cx_ref)(T ar, T ai, T br, T bi) { return true; }
D(cx_default)(T* P(o)) { Z z{}; PUT(z) }
R(cx_default)(T* P(o)) { PUT2(T(0), T(0)) }
#undef ARGSR
#undef OT
#undef Z
#undef PUT
#undef PUT2
#undef ARGS1
#undef ARGS2

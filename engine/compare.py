"""Decide whether two function summaries denote the same function.

Two steps, both on the extracted summaries:
  1. normal forms: return values and canonical write families are equal as polynomials / affine families  -> 'proved' (all inputs, all sizes)
  2. random interpretation of the two terms (Gulwani & Necula): a point where they denote different values is a refutation.
"""
import hashlib, math, random, struct
from fractions import Fraction
from term import *
from nf import *
import nf as NF

class Fam:
    """canonical family of writes: for j = start, start+w, .. (count of them): base[j] := val(j)"""
    __slots__ = ('base', 'ty', 'dims', 'off', 'guard', 'val', 'kind')

def canon_effects(effs):
    """list of canonical keys; raises Unknown when an effect has no canonical form"""
    singles = []
    fams = []
    memo = {}
    for e in unroll([resolve_effect(e, memo) for e in effs]):
        if e.kind == 'havoc':
            raise Unknown('havoc')
        if e.kind == 'ptr':
            continue
        if not e.loops:
            singles.append(('w', e.base, pkey(nfi(e.off)), e.ty, cond(e.guard, ROOT), pkey(nfi(e.val))))
            continue
        if len(e.loops) == 1:
            f = one_loop(e)
            if f is not None:
                fams.append(f)
                continue
        fams.append(multi_loop(e))
    fams = merge_lanes(fams)
    fams = merge_ranges(fams)
    order_matters(singles, fams)
    return sorted([repr(x) for x in singles]) + sorted(repr(f) for f in fams)

def order_matters(singles, fams):
    """raise Unknown unless the writes to each base commute (pairwise disjoint cells), so that the set of writes determines the final memory"""
    by = {}
    for x in singles:
        by.setdefault(x[1], []).append((x[3], dict(x[2]), x))
    for f in fams:
        if f[0] == 'fam':
            by.setdefault(f[1], []).append((f[2], padd(dict(f[4]), pmulc(P_atom(('bv', 0)), f[3])), f))
        else:
            by.setdefault(f[1], []).append((f[2], dict(f[4]), f))
    for base, l in by.items():
        if len(l) > 40:
            # fully written out blocks: distinct constant cells, the last write of each kept
            cs = [(poly_const(o), width(t)) for t, o, x in l]
            if any(c is None for c, w in cs):
                raise Unknown('many writes to one base')
            cs.sort()
            if any(a[0] + a[1] > b[0] for a, b in zip(cs, cs[1:])):
                raise Unknown(f'overlapping writes to {base}')
            continue
        for i in range(len(l)):
            for j in range(i):
                if l[i][2] != l[j][2] and not commute(l[i], l[j]):
                    raise Unknown(f'the order of two writes to {base} may matter')

def commute(A, B):
    (ta, oa, xa), (tb, ob, xb) = A, B
    wa, wb = width(ta), width(tb)
    # different residues modulo the common step
    g = 0
    vs = lambda o: {m: c for m, c in o.items() if any(ATOMKEY[a][0] == 'bv' for a, e in m)}
    va, vb = vs(oa), vs(ob)
    ra = {m: c for m, c in oa.items() if m not in va}
    rb = {m: c for m, c in ob.items() if m not in vb}
    ok = True
    for c in list(va.values()) + list(vb.values()):
        if Fraction(c).denominator != 1:
            ok = False
            break
        g = math.gcd(g, int(c))
    d = poly_sub(ra, rb)
    k = d.get((), 0)
    for m, c in d.items():
        if m == ():
            continue
        if Fraction(c).denominator != 1 or Fraction(k).denominator != 1:
            ok = False
            break
        g = math.gcd(g, int(c))
    if ok and Fraction(k).denominator == 1:
        if g == 0:
            return k >= wb or -k >= wa
        k = int(k) % g
        if k >= wb and g - k >= wa:
            return True
    # one range ends before the other starts
    def rng_(x, o, w):
        if x[0] == 'w':
            return o, padd(o, {(): Fraction(w)})
        if x[0] == 'fam':
            st = dict(x[4])
            return st, padd(padd(st, pmulc(dict(x[5]), x[3])), {(): Fraction(w - x[3])})
        return None
    ra, rb = rng_(xa, oa, wa), rng_(xb, ob, wb)
    if ra and rb and (nonneg_poly(poly_sub(rb[0], ra[1])) or nonneg_poly(poly_sub(ra[0], rb[1]))):
        return True
    # complementary guards
    ga, gb = (x[4] if x[0] == 'w' else x[6] if x[0] == 'fam' else x[5] for x in (xa, xb))
    if len(ga) == 2 and len(gb) == 2 and ga[0] == gb[0] and ga[1] is not gb[1] and isinstance(ga[1], bool):
        return True
    return False

def disjoint(off, wa, e):
    """the read [off, off+wa) cannot touch any cell the effect writes"""
    if e.kind != 'st' or len(e.loops) > 1:
        return False
    wb = width(e.ty)
    if not e.loops:
        d = poly_const(poly_sub(off, nfi(e.off)))
        return d is not None and (d >= wb or d + wa <= 0)
    k, N = e.loops[0]
    s, r = split_var(nfi(e.off), k)
    if s is None:
        return False
    sv = poly_const(s)
    if sv is None or sv <= 0:
        return False
    d = poly_sub(off, r)
    if nonneg_poly(poly_sub(poly_sub({}, d), {(): Fraction(wa)})):
        return True
    return nonneg_poly(poly_sub(d, padd(pmulc(nfi(N), sv), {(): wb - sv})))

def resolve(n, memo):
    """drop from the memory version of every load the writes that cannot reach it"""
    r = memo.get(n.id)
    if r is not None:
        return r
    args = tuple(resolve(a, memo) for a in n.args)
    r = n if all(x is y for x, y in zip(args, n.args)) else mk(n.op, n.ty, args, n.attr)
    if n.op == 'load' and n.attr[1]:
        base, ver = n.attr
        effs = [e for e in VERS[ver] if e.base == base]
        try:
            off = nfi(args[0])
            while effs and disjoint(off, width(n.ty), effs[-1]):
                effs.pop()
            r = mk('load', n.ty, args, (base, newver(effs) if effs else 0))
        except Unknown:
            pass
    memo[n.id] = r
    return r

def resolve_effect(e, memo):
    if e.kind != 'st':
        return e
    return Effect(e.loops, resolve(e.guard, memo), e.base, e.off, e.ty, resolve(e.val, memo), e.src, e.kind)

def unroll(effs, limit=512):
    """write out families of a small constant number of elements"""
    out = []
    for e in effs:
        if e.kind == 'st' and e.loops:
            n = 1
            for k, T in e.loops:
                c = cval(T)
                if c is None:
                    n = None
                    break
                n *= max(c, 0)
            if n is not None and n <= limit:
                todo = [({}, 0)]
                res = []
                while todo:
                    m, d = todo.pop()
                    if d == len(e.loops):
                        memo = {}
                        res.append(Effect((), subst(e.guard, m, memo), e.base, subst(e.off, m, memo), e.ty, subst(e.val, m, memo), e.src, e.kind))
                        continue
                    k, T = e.loops[d]
                    for i in range(cval(T) - 1, -1, -1):
                        todo.append(({**m, k: iconst(i)}, d + 1))
                out += res
                continue
        out.append(e)
    # the last unconditional write of a cell wins
    last = {}
    res = []
    for e in reversed(out):
        if e.kind == 'st' and not e.loops and e.guard is TRUE:
            c = cval(e.off)
            if c is not None:
                if (e.base, c, e.ty) in last:
                    continue
                last[(e.base, c, e.ty)] = 1
        res.append(e)
    return res[::-1]

def one_loop(e):
    k, N = e.loops[0]
    s, r = split_var(nfi(e.off), k)
    if s is None:
        return None
    sv = poly_const(s)
    if sv is None or sv == 0 or sv.denominator != 1:
        return None
    Np = nfi(N)
    start = r
    if sv < 0:
        start = padd(r, pmulc(padd(Np, P_const(-1)), sv))
    # k = (j - r) / sv
    j = P_atom(('j', 0))
    kp = pmulc(poly_sub(j, r), Fraction(1) / sv)
    c = Ctx({k: kp}, 1)
    try:
        v = pkey(nf(e.val, c))
        g = cond(e.guard, c)
    except Unknown:
        return None
    return ('fam', e.base, e.ty, abs(int(sv)), pkey(start), pkey(Np), g, v)

def multi_loop(e):
    ks = [k for k, T in e.loops]
    # order of dimensions: by stride key
    off = nfi(e.off)
    strides = []
    rest = off
    for k in ks:
        s, rest2 = split_var(rest, k)
        if s is None:
            strides = None
            break
        strides.append(s)
        rest = rest2
    order = list(range(len(ks)))
    if strides is not None:
        indep = all(not any(k in T.fv for k in ks) for _, T in e.loops)
        if indep:
            order.sort(key=lambda i: repr(pkey(strides[i])), reverse=True)
    m = {}
    d = 0
    flips = {}
    for i in order:
        k, T = e.loops[i]
        p = P_atom(('bv', d))
        if strides is not None:
            sc = poly_const(strides[i])
            if sc is not None and sc < 0:
                # reverse the dimension
                p = poly_sub(padd(nf(T, Ctx(dict(m), d)), P_const(-1)), p)
        m[k] = p
        d += 1
    c = Ctx(m, d)
    doms = tuple(pkey(nf(e.loops[i][1], c)) for i in order)
    return ('nest', e.base, e.ty, doms, pkey(nf(e.off, c)), cond(e.guard, c), pkey(nf(e.val, c)))

def width(ty):
    return max(1, ty[1] // 8)

def merge_lanes(fams):
    out = []
    groups = {}
    for f in fams:
        if f[0] == 'fam' and f[3] > width(f[2]):
            groups.setdefault((f[1], f[2], f[3], f[5], f[6], f[7]), []).append(f)
        else:
            out.append(f)
    for (base, ty, s, N, g, v), fs in groups.items():
        w = width(ty)
        if s % w:
            out += fs
            continue
        # the starts form one lattice of step s / L: merge into a family of that step
        starts = [dict(f[4]) for f in fs]
        L = len(fs)
        if L > 1 and s % L == 0 and (s // L) % w == 0:
            for st in starts:
                ds = sorted(x for x in (poly_const(poly_sub(y, st)) for y in starts) if x is not None)
                if ds == [Fraction(s // L * i) for i in range(L)]:
                    out.append(('fam', base, ty, s // L, pkey(st), pkey(pmulc(dict(N), L)), g, v))
                    break
            else:
                out += fs
        else:
            out += fs
    return out

def merge_ranges(fams):
    ch = True
    fams = list(fams)
    while ch:
        ch = False
        for i in range(len(fams)):
            for j in range(len(fams)):
                a, b = fams[i], fams[j]
                if i == j or a[0] != 'fam' or b[0] != 'fam':
                    continue
                if (a[1], a[2], a[3], a[6], a[7]) != (b[1], b[2], b[3], b[6], b[7]):
                    continue
                end = padd(dict(a[4]), pmulc(dict(a[5]), a[3]))
                if pkey(end) == b[4]:
                    fams[i] = a[:5] + (pkey(padd(dict(a[5]), dict(b[5]))),) + a[6:]
                    del fams[j]
                    ch = True
                    break
            if ch:
                break
    return fams

def ret_key(v):
    if v is None:
        return None
    if isinstance(v, Node):
        if v.ty == I1:
            return ('b', cond(v, ROOT))
        return pkey(nfi(v))
    if isinstance(v, tuple):
        return tuple(ret_key(x) for x in v)
    if hasattr(v, 'base'):
        return ('ptr', v.base, pkey(nfi(v.off)))
    raise Unknown('return value')

# ------------------------------------------------------------------------------------------------ random interpretation
def hval(seed, *key):
    h = hashlib.blake2b(repr((seed,) + key).encode(), digest_size=16).digest()
    return int.from_bytes(h[:8], 'little'), int.from_bytes(h[8:], 'little')

def gen(seed, key, ty, mode):
    a, b = hval(seed, key)
    if ty[0] == 'f':
        if mode == 'special':
            S = [0.0, -0.0, math.inf, -math.inf, math.nan, 1.0, -1.0, 1e-30, 1e30]
            if a % 3 == 0:
                return S[b % len(S)]
        if mode == 'unit':
            return (b / 2**64) * 2 - 1
        if mode == 'pos':
            return 0.05 + (b / 2**64) * 4
        v = 0.1 + (b / 2**64) * 3.9
        v = -v if a & 1 else v
        return f32(v) if ty[1] == 32 else f16(v) if ty[1] == 16 else v
    w = ty[1]
    if mode == 'small':
        return b % 7
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    r = a % 10
    if r < 3:
        B = [lo, lo + 1, -1, 0, 1, hi - 1, hi, hi // 2, lo // 2, lo // 2 + 1, hi // 2 + 1]
        return B[b % len(B)]
    if r < 5:
        # random magnitude
        e = (b >> 40) % w
        v = b & ((1 << e) - 1) if e else 0
        return wrap(v if a & 64 else -v, w)
    return wrap(b, w)

def close(x, y, ty, tol):
    if ty[0] == 'i':
        return x == y
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    t = tol if tol is not None else (1e-10 if ty[1] == 64 else 1e-5 if ty[1] == 32 else 2e-3)
    if isinstance(tol, tuple):      # (relative, absolute)
        return abs(x - y) <= tol[1] + tol[0] * max(abs(x), abs(y))
    if tol == 0.0:
        return x == y
    a = 1e-12 if ty[1] == 64 else 1e-7 if ty[1] == 32 else 1e-3
    return abs(x - y) <= a + t * max(abs(x), abs(y))

def flat(v):
    if v is None:
        return []
    if isinstance(v, Node):
        return [v]
    if isinstance(v, tuple):
        r = []
        for x in v:
            r += flat(x)
        return r
    if hasattr(v, 'base'):
        return [mk('xadd', I64, (mk('arg', I64, (), 'addr:' + v.base), v.off))]
    raise Unknown('return')

class MemGen:
    def __init__(self, modes, ext, sizes, mined=((), ())):
        self.modes, self.ext, self.oob, self.mined = modes, ext, None, mined
    def __call__(self, pt, base, off, ty):
        e = self.ext.get(base)
        if e is not None:
            w = width(ty)
            n = e(pt.args) if callable(e) else pt.args.get(e, e)
            if not (0 <= off and off + w <= n * w) :
                self.oob = (base, off // w if off % w == 0 else off / w, n)
        m = self.modes.get(base, 'mixed')
        if callable(m):
            return m(pt, off, ty)
        if m == 'mixed' and pt.seed % 5 == 4:
            C = self.mined[1] if ty[0] == 'f' else self.mined[0]
            h = hval(pt.seed, base, off, 'm')
            if C and h[0] % 3 == 0:
                v = C[h[1] % len(C)]
                return v if ty[0] == 'f' else wrap(v + (0, 0, 1, -1)[h[0] // 3 % 4], ty[1])
        if m == 'mixed' and ty[0] == 'i' and pt.seed % 3 == 2:
            w = ty[1]
            lo = -(1 << (w - 1))
            return (lo, lo + 1, -1, 0, 1, -lo - 1)[hval(pt.seed, base, off)[0] % 6]
        if m == 'mixed' and ty[0] == 'f':
            v = shaped(pt.seed, base, off, ty)
            if v is not None:
                return v
        return gen(pt.seed, (base, off), ty, m)

def shaped(seed, base, off, ty):
    """degenerate data: silence, constants, single peaks, one sign, equal operands (all exactly representable, all finite)"""
    k = seed % 16
    C = (1.0, -2.0, 0.5, -0.25, 3.0)
    w = ty[1] // 8
    if k == 1:
        return 0.0
    if k == 3:
        return C[seed // 16 % 5]
    if k == 5:
        return C[hval(seed, base)[0] % 5]
    if k == 7:
        return C[seed // 16 % 5] if off // w == hval(seed, base)[0] % 6 else 0.0
    if k == 9 or k == 11:
        v = gen(seed, (base, off), ty, 'mixed')
        return abs(v) if k == 9 else -abs(v)
    if k == 13:
        return gen(seed, ('any', off), ty, 'mixed')
    if k == 15:
        return 0.0 if hval(seed, base)[0] % 2 else None
    return None

def interpret(S, outs, pt):
    rv = [ev(n, pt) for n in flat(S.ret)]
    mem = ev_effects([e for e in S.effects if e.kind != 'ptr' and (outs is None or e.base in outs)], pt)
    return rv, mem

def visible_base(b):
    return not (b.startswith('%') or b.startswith('heap') or b == 'undef')

def compare(Sd, Sr, params, spec, seed=1, npts=None):
    """spec keys: sizes {param: iterable}, modes {param/base: mode}, ext {base: size}, tol, pre(args)->bool, ignore: bases not compared"""
    res = dict(status=None, detail=None, points=0)
    ignore = set(spec.get('ignore', ()))
    def eff(S):
        return [e for e in S.effects if visible_base(e.base) and e.base not in ignore]
    de, re_ = eff(Sd), eff(Sr)
    # nocarry: the precondition of the obligation (e.g. distinct column indices) excludes cross-iteration conflicts
    if not spec.get('nocarry') and (getattr(Sd, 'carried', False) or getattr(Sr, 'carried', False)):
        raise Unknown('a loop carries a dependence through memory')
    # 1. normal forms
    proved = False
    try:
        if ret_key(Sd.ret) == ret_key(Sr.ret) and canon_effects(de) == canon_effects(re_):
            proved = True
    except Unknown as x:
        res['nf_note'] = str(x)
    except RecursionError:
        res['nf_note'] = 'recursion'
    # 2. random interpretation
    rng = random.Random(seed)
    tuples = sample_points(params, spec, rng, npts)
    mi, mf = mined(Sd, de)
    mr = mined(Sr, re_)
    if not proved:
        tuples = tuples + mined_points(params, spec, tuples, sorted(set(mi) | set(mr[0])), sorted(set(mf) | set(mr[1])), rng)
        tuples = tuples + size_points(params, spec, sorted({x for x in mi if x <= 3000} | set(spec.get('near', ()))))
    full = False
    if not proved:
        whole = finite_domain(params, spec, (Sd, Sr), de, re_)
        if whole is not None:
            tuples = tuples + whole
            full = True
    bases = set(e.base for e in de) | set(e.base for e in re_)
    class SS: pass
    a, b = SS(), SS()
    a.ret, a.effects, b.ret, b.effects = Sd.ret, de, Sr.ret, re_
    tys = [n.ty for n in flat(Sd.ret)]
    bad = None
    defined = 0
    for i, args in enumerate(tuples):
        if spec.get('pre') and not spec['pre'](args):
            continue
        mg = MemGen(spec.get('modes', {}), spec.get('ext', {}), None, (mi, mf))
        p1 = Point(args, seed * 1000 + i, mg)
        try:
            r2, m2 = interpret(b, None, p1)
        except Undef:
            continue
        mgd = MemGen(spec.get('modes', {}), spec.get('ext', {}), None, (mi, mf))
        p2 = Point(args, seed * 1000 + i, mgd)
        defined += 1
        try:
            r1, m1 = interpret(a, None, p2)
        except Undef as u:
            bad = (args, f'undefined behaviour ({u}) where the specification is defined')
            break
        except NonTerm as u:
            if any(isinstance(v, int) and abs(v) > 4096 for v in args.values()):
                raise
            bad = (args, f'never returns: {u}')
            break
        if mgd.oob is not None and mg.oob is None:
            bad = (args, f'reads element {mgd.oob[1]} of {mgd.oob[0]}, which has {mgd.oob[2]} elements')
            break
        for x, y, t in zip(r1, r2, tys):
            if not close(x, y, t, spec.get('tol')):
                bad = (args, f'returns {fmt(x)}, specified {fmt(y)}')
                break
        if bad:
            break
        for kx in sorted(set(m1) | set(m2), key=repr):
            base, off = kx
            if kx not in m2:
                o = p2.load0(base, off, m1[kx][0])
                if close(m1[kx][1], o, m1[kx][0], 0.0):
                    continue
                bad = (args, f'writes {base}[byte {off}] = {fmt(m1[kx][1])}, which must stay untouched')
                break
            if kx not in m1:
                o = p1.load0(base, off, m2[kx][0])
                if close(m2[kx][1], o, m2[kx][0], 0.0):
                    continue
                bad = (args, f'leaves {base}[byte {off}] unwritten, specified {fmt(m2[kx][1])}')
                break
            t = m2[kx][0]
            v1 = m1[kx][1]
            if m1[kx][0] != t:
                if m1[kx][0][1] == t[1]:
                    v1 = frombits(tobits(v1, m1[kx][0]), t)
                else:
                    raise Unknown('mixed-width outputs')
            if not close(v1, m2[kx][1], t, spec.get('tol')):
                bad = (args, f'{base}[byte {off}] = {fmt(v1)}, specified {fmt(m2[kx][1])}')
                break
        if bad:
            break
    res['points'] = defined
    if bad:
        res['status'] = 'refuted'
        res['detail'] = f'at {fmt_args(bad[0])}: {bad[1]}'
        if not bad[1].startswith(('undefined', 'never', 'reads')):
            res['at'] = (bad[0], seed * 1000 + i, (mi, mf))
    elif defined == 0:
        raise Unknown('no sample point is inside the domain')
    else:
        res['status'] = 'proved' if proved or full else 'held'
        if full:
            res['by'] = 'tabulation'
    return res

def has_load(S, effs):
    seen = set()
    st = list(flat(S.ret))
    for e in effs:
        st += [e.off, e.guard] + ([e.val] if e.val is not None else []) + [T for k, T in e.loops]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == 'load':
            return True
        st.extend(n.args)
    return False

def mined(S, effs):
    """constants that guards, selections and clampings of a summary compare with: where a piecewise function may change its mind"""
    seen, ints, flts = set(), set(), set()
    st = list(flat(S.ret))
    for e in effs:
        st += [e.off, e.guard] + ([e.val] if e.val is not None else []) + [T for k, T in e.loops]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op in ('icmp', 'fcmp', 'smax', 'smin', 'umax', 'umin', 'fmin', 'fmax'):
            for a in n.args:
                if a.op == 'const' and a.ty[0] in 'fi':
                    (flts if a.ty[0] == 'f' else ints).add(cval(a))
        st.extend(n.args)
    return sorted(x for x in ints if isinstance(x, int)), sorted(x for x in flts if isinstance(x, float) and math.isfinite(x))

def finite_domain(params, spec, Ss, de, re_):
    """every valuation, when the summaries are functions of a few narrow integers only"""
    import itertools
    if not params or has_load(Ss[0], de) or has_load(Ss[1], re_):
        return None
    doms = []
    n = 1
    for nm, t in params:
        m = spec.get('modes', {}).get(nm)
        if isinstance(m, (list, tuple)) and nm in spec.get('complete', ()):
            doms.append(m)
        elif m is None and t[0] == 'i' and t[1] <= 16 and nm not in spec.get('sizes', {}):
            doms.append(range(-(1 << (t[1] - 1)), 1 << (t[1] - 1)) if t[1] > 1 else range(2))
        else:
            return None
        n *= len(doms[-1])
    if n > 70000:
        return None
    return [dict(zip([p[0] for p in params], v)) for v in itertools.product(*doms)]

def fmt(v):
    return repr(v) if not isinstance(v, float) else f'{v:.9g}'
def fmt_args(a):
    return ', '.join(f'{k}={fmt(v)}' for k, v in a.items() if not str(k).startswith('addr:')) or 'every input'

def size_points(params, spec, ints):
    """small points with one extent or stride at or beside a constant that the code compares sizes with"""
    sizes, modes, auto = spec.get('sizes', {}), spec.get('modes', {}), spec.get('auto', ())
    out = []
    if any(n not in sizes and n not in modes and t[0] == 'i' for n, t in params):
        return out
    rng = random.Random(7)
    for n, t in params:
        if n not in auto:
            continue
        cap = 66000 if n == 'n' else 300 if n in ('rows', 'cols') else 40
        vs = {x for c in ints if isinstance(c, int) and 2 <= c for x in (c, c + 1, c + 3, 2 * c + 1, 3 * c + 2) if x <= cap} - set(sizes[n])
        for v in sorted(vs)[:20]:
            for w in (2, 5) if v < 300 else (2,):
                d = {}
                for m, u in params:
                    if m == n:
                        d[m] = v
                    elif m in sizes:
                        L = sorted(sizes[m])
                        d[m] = min(L, key=lambda x: (abs(x - (w if not m.startswith('s') else 1)), x))
                    else:
                        q = modes.get(m, 'mixed')
                        d[m] = q(rng, d) if callable(q) else q[0] if isinstance(q, (list, tuple)) else gen(3, (m, 0), u, q)
                out.append(d)
    return out

def mined_points(params, spec, tuples, ints, flts, rng):
    """the sampled points again, with one scalar at or beside a constant that a guard compares with"""
    modes, sizes = spec.get('modes', {}), spec.get('sizes', {})
    out = []
    if not tuples:
        return out
    for n, t in params:
        if n in sizes or n in modes:
            continue
        vs = set()
        if t[0] == 'f':
            for c in flts[:40]:
                vs |= {c, -c, c * (1 + 1e-3), c * (1 - 1e-3), c + 1e-6, c - 1e-6}
            if t[1] == 32: vs = {f32(v) for v in vs}
        elif t[0] == 'i' and t[1] > 1:
            for c in ints[:40]:
                vs |= {wrap(c + k, t[1]) for k in (-1, 0, 1)} | {wrap(-c, t[1])}
        for v in sorted(vs)[:200]:
            for d in (tuples[0], tuples[rng.randrange(len(tuples))]):
                d = dict(d)
                d[n] = v
                out.append(d)
    return out

def sample_points(params, spec, rng, npts):
    """params: [(name, ty)] of scalar parameters"""
    sizes = spec.get('sizes', {})
    modes = spec.get('modes', {})
    scal = [(n, t) for n, t in params if n not in sizes]
    out = []
    import itertools
    lists = [list(sizes[n]) for n, t in params if n in sizes]
    names = [n for n, t in params if n in sizes]
    combos = list(itertools.product(*lists)) if lists else [()]
    if len(combos) > 400:
        rng.shuffle(combos)
        combos = combos[:400]
    per = npts or (3 if lists else 600)
    if lists and scal:
        per = max(per, 3)
    if not scal and not lists:
        per = npts or 30
    idx = 0
    extra = spec.get('points', [])
    for c in combos:
        for r in range(per):
            d = dict(zip(names, c))
            for n, t in scal:
                m = modes.get(n, 'mixed')
                if callable(m):
                    d[n] = m(rng, d)
                elif isinstance(m, (list, tuple)):
                    d[n] = m[rng.randrange(len(m))]
                else:
                    d[n] = gen(rng.random(), (n, idx), t, m)
            fl = [n for n, t in scal if t[0] == 'f' and n not in modes]
            if fl and idx % 8 == 5:         # special values of scalar operands
                d[rng.choice(fl)] = rng.choice((0.0, 1.0, -1.0, 2.0, -0.5))
            elif fl and idx % 8 == 6:       # equal operands
                v = d[fl[0]]
                for n in fl[1:]: d[n] = v
            elif fl and idx % 8 == 7:       # opposite operands
                v = d[fl[0]]
                for n in fl[1:]: d[n] = -v
            idx += 1
            out.append(d)
    for e in extra:
        for c in combos[:4]:
            d = dict(zip(names, c))
            d.update(e)
            if all(n in d for n, t in params):
                out.append(d)
    # boundary cross products for one or two integer scalars
    ints = [(n, t) for n, t in scal if t[0] == 'i' and n not in modes and t[1] > 1]
    if not lists and len(ints) == len(scal) and 1 <= len(scal) <= 2:
        def bnd(t):
            w = t[1]
            vs = set()
            for e in range(w):
                for dlt in (-1, 0, 1):
                    vs.add(wrap((1 << e) + dlt, w))
                    vs.add(wrap(-(1 << e) + dlt, w))
            return sorted(vs)
        if len(ints) == 1:
            n, t = ints[0]
            vs = range(-128, 128) if t[1] == 8 else bnd(t)
            out += [{n: v} for v in vs]
        else:
            (n1, t1), (n2, t2) = ints
            out += [{n1: x, n2: y} for x in bnd(t1) for y in bnd(t2)][:6000]
    return out

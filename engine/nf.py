"""Ring normal form of terms.

Polynomials over hash-consed atoms with rational coefficients: {monomial: Fraction}, monomial = sorted tuple of (atom id, exponent).
Integers of 32 and 64 bits are read as mathematical integers (no overflow), narrower arithmetic keeps its modulus; floating point
is read over the reals, with narrowing conversions kept as uninterpreted roundings.
"""
from fractions import Fraction
import math
from term import *
import term as T_

ATOMS = {}
ATOMKEY = []
NONNEG_ARGS = set()       # parameters that are sizes (>= 0 by contract)

def atom(key):
    i = ATOMS.get(key)
    if i is None:
        i = len(ATOMKEY)
        ATOMS[key] = i
        ATOMKEY.append(key)
    return i

def P_atom(key):
    return {((atom(key), 1),): Fraction(1)}

def P_const(c):
    c = Fraction(c)
    return {(): c} if c else {}

def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r

def pmulc(a, c):
    if not c:
        return {}
    return {m: v * c for m, v in a.items()}

def poly_sub(a, b):
    return padd(a, pmulc(b, -1))

def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for x, e in b:
        v = d.get(x, 0) + e
        if v:
            d[x] = v
        else:
            d.pop(x, None)
    return tuple(sorted(d.items()))

def pmul(a, b):
    if len(a) * len(b) > 20000:
        raise Unknown('normal form too large')
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r

def pkey(p):
    return tuple(sorted(p.items()))

def poly_const(p):
    if not p:
        return Fraction(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None

def recip(p):
    c = poly_const(p)
    if c is not None:
        if c == 0:
            return P_atom(('recip0',))
        return {(): 1 / c}
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((a, -e) for a, e in m): 1 / c}
    # normalise by the coefficient of the least monomial
    m0 = min(p)
    c0 = p[m0]
    q = {m: c / c0 for m, c in p.items()}
    return pmulc(P_atom(('recip', pkey(q))), 1 / c0)

class Ctx:
    """maps bound loop counters to polynomials"""
    __slots__ = ('m', 'memo', 'depth')
    def __init__(self, m=None, depth=0):
        self.m = m or {}
        self.memo = {}
        self.depth = depth

ROOT = Ctx()

def nfi(n):
    return nf(n, ROOT)

def nf(n, ctx=ROOT):
    r = ctx.memo.get(n.id)
    if r is None:
        if ctx is not ROOT and not any(x in ctx.m for x in n.fv) and not _verfv(n, ctx):
            r = nf(n, ROOT)
        else:
            r = _nf(n, ctx)
        ctx.memo[n.id] = r
    return r

def _verfv(n, ctx):
    return False

def nonneg_atom(i):
    k = ATOMKEY[i]
    t = k[0]
    if t == 'arg':
        return k[1] in NONNEG_ARGS
    if t in ('k', 'bv', 'zext', 'ctlz', 'ctpop', 'cttz', 'b2i', 'ceildiv0', 'max0', 'mu', 'first', 'ipowp', 'j'):
        return True
    if t == 'fdiv':
        return nonneg_poly(dict(k[1]))
    if t == 'urem' or t == 'udiv':
        return True
    if t == 'max':
        return any(nonneg_poly(dict(x)) for x in k[2])
    if t == 'min':
        return all(nonneg_poly(dict(x)) for x in k[2])
    return False

def nonneg_poly(p):
    """sufficient: every coefficient and every atom is non-negative (integers)"""
    neg = [(m, c) for m, c in p.items() if c < 0]
    if not neg:
        return all(c >= 0 and all(nonneg_atom(a) for a, e in m) for m, c in p.items())
    # x - c*floor(x/c) >= 0
    if len(neg) == 1:
        m, c = neg[0]
        if len(m) == 1 and m[0][1] == 1:
            k = ATOMKEY[m[0][0]]
            if k[0] == 'fdiv':
                inner, d = dict(k[1]), k[2]
                rest = {x: y for x, y in p.items() if x != m}
                f = -c / d
                if f > 0:
                    q = poly_sub(rest, pmulc(inner, f))
                    return nonneg_poly(q)
            if k[0] == 'min':
                rest = {x: y for x, y in p.items() if x != m}
                return any(nonneg_poly(poly_sub(rest, pmulc(dict(x), -c))) for x in k[2])
    return False

INF = float('inf')
def arange(i):
    k = ATOMKEY[i]
    t = k[0]
    ty = None
    if t == 'arg': ty = k[2]
    elif t == 'load': ty = k[4]
    elif t in ('unpack', 'bitcast', 'select'): ty = k[2] if t != 'select' else None
    if t == 'b2i': return (0, 1)
    if t == 'zext': return (0, (1 << k[1]) - 1)
    if t == 'wrap': return (-(1 << (k[1] - 1)), (1 << (k[1] - 1)) - 1)
    if t == 'fdiv':
        lo, hi = prange(dict(k[1]))
        return (lo if lo == -INF else lo // k[2], hi if hi == INF else hi // k[2])
    if t in ('max', 'min'):
        rs = [prange(dict(x)) for x in k[2]]
        f = max if t == 'max' else min
        return (f(r[0] for r in rs), f(r[1] for r in rs))
    if t == 'select':
        a, b = prange(dict(k[2])), prange(dict(k[3]))
        return (min(a[0], b[0]), max(a[1], b[1]))
    if ty is not None and isinstance(ty, tuple) and ty[0] == 'i' and ty[1] < 64:
        return (-(1 << (ty[1] - 1)), (1 << (ty[1] - 1)) - 1)
    if nonneg_atom(i):
        return (0, INF)
    return (-INF, INF)

def prange(p):
    lo = hi = 0
    for m, c in p.items():
        a, b = 1, 1
        for at, e in m:
            if e < 0:
                return (-INF, INF)
            x, y = arange(at)
            if e % 2 == 0 and e > 0:
                c2 = [v ** e for v in (x, y)]
                x, y = (0 if x <= 0 <= y else min(c2)), max(c2)
                e = 1
            for _ in range(e):
                vs = [mulinf(u, v) for u in (a, b) for v in (x, y)]
                a, b = min(vs), max(vs)
        c = c if c.denominator != 1 else int(c)
        u, v = mulinf(a, c), mulinf(b, c)
        lo, hi = lo + min(u, v), hi + max(u, v)
        if lo != lo or hi != hi:
            return (-INF, INF)
    return lo, hi

def mulinf(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b

def wrapp(w, r):
    """value of r as a w-bit signed integer"""
    if poly_const(r) is not None:
        return P_const(wrap(int(poly_const(r)), w))
    lo, hi = prange(r)
    if lo >= -(1 << (w - 1)) and hi <= (1 << (w - 1)) - 1:
        return r
    return P_atom(('wrap', w, pkey(r)))

def floordiv(p, c):
    """floor(p / c) for a positive integer c"""
    c = int(c)
    q, r = {}, {}
    for m, v in p.items():
        if v.denominator == 1 and v.numerator % c == 0:
            q[m] = v / c
        elif m == () and v.denominator == 1:
            d, e = divmod(v.numerator, c)
            if d: q[m] = Fraction(d)
            if e: r[m] = Fraction(e)
        else:
            r[m] = v
    if not r:
        return q
    rc = poly_const(r)
    if rc is not None:
        return padd(q, P_const(math.floor(rc / c)))
    # floor((floor(x/a) + ..)/b)
    if len(r) == 1:
        (m, v), = r.items()
        if v == 1 and len(m) == 1 and m[0][1] == 1 and ATOMKEY[m[0][0]][0] == 'fdiv':
            k = ATOMKEY[m[0][0]]
            return padd(q, floordiv(dict(k[1]), k[2] * c))
        # remainder smaller than the divisor: (x - a*floor(x/a)) / c with a <= c
    if len(r) == 2:
        for m, v in r.items():
            if v < 0 and len(m) == 1 and ATOMKEY[m[0][0]][0] == 'fdiv':
                k = ATOMKEY[m[0][0]]
                rest = {x: y for x, y in r.items() if x != m}
                if -v == k[2] and k[2] <= c and pkey(rest) == k[1]:
                    return q
    return padd(q, P_atom(('fdiv', pkey(r), c)))

def minmax(kind, ps):
    flat = []
    for p in ps:
        if len(p) == 1:
            (m, v), = p.items()
            if v == 1 and len(m) == 1 and m[0][1] == 1 and ATOMKEY[m[0][0]][0] == kind:
                flat += [dict(x) for x in ATOMKEY[m[0][0]][2]]
                continue
        flat.append(p)
    cs = [poly_const(p) for p in flat if poly_const(p) is not None]
    rest = [p for p in flat if poly_const(p) is None]
    keys = sorted(set(pkey(p) for p in rest))
    if cs:
        c = max(cs) if kind == 'max' else min(cs)
        if not keys:
            return P_const(c)
        if kind == 'max' and c <= 0 and len(keys) == 1 and nonneg_poly(dict(keys[0])):
            return dict(keys[0])
        keys = sorted(keys + [pkey(P_const(c))])
    # a >= b provable
    if len(keys) == 2:
        a, b = dict(keys[0]), dict(keys[1])
        if nonneg_poly(poly_sub(a, b)):
            return a if kind == 'max' else b
        if nonneg_poly(poly_sub(b, a)):
            return b if kind == 'max' else a
    if len(keys) == 1:
        return dict(keys[0])
    # min(max(x, lo), hi) == max(min(x, hi), lo) for lo <= hi
    if kind == 'min' and len(keys) == 2 and cs:
        hi = min(cs)
        other = [dict(k) for k in keys if poly_const(dict(k)) is None]
        if len(other) == 1 and len(other[0]) == 1:
            (m, v), = other[0].items()
            if v == 1 and len(m) == 1 and m[0][1] == 1 and ATOMKEY[m[0][0]][0] == 'max':
                ks = ATOMKEY[m[0][0]][2]
                lo = [poly_const(dict(x)) for x in ks if poly_const(dict(x)) is not None]
                rest2 = [dict(x) for x in ks if poly_const(dict(x)) is None]
                if lo and lo[0] <= hi and len(rest2) == 1:
                    return minmax('max', [minmax('min', [rest2[0], P_const(hi)]), P_const(lo[0])])
    if len(keys) == 2 and cs:
        # drop bounds that cannot bind
        c = cs and (max(cs) if kind == 'max' else min(cs))
        other = [dict(k) for k in keys if poly_const(dict(k)) is None]
        if len(other) == 1:
            lo, hi = prange(other[0])
            if kind == 'max' and lo >= c: return other[0]
            if kind == 'min' and hi <= c: return other[0]
    return P_atom((kind, '', tuple(keys)))

def cond(n, ctx):
    """canonical (key, polarity) of a boolean term"""
    if n.op == 'icmp':
        a, b = n.args
        pr = n.attr
        w = a.ty[1]
        if w == 1:
            return ('b', pr, tuple(sorted((pkey(nf(a, ctx)), pkey(nf(b, ctx)))))), True
        A, B = nf(a, ctx), nf(b, ctx)
        d = poly_sub(A, B)
        if pr in ('eq', 'ne'):
            if d:
                m0 = min(d)
                if d[m0] < 0:
                    d = pmulc(d, -1)
                if nonneg_poly(d) or nonneg_poly(pmulc(d, -1)):
                    # x == 0 for x >= 0 is x < 1
                    e = padd(d if nonneg_poly(d) else pmulc(d, -1), {(): Fraction(-1)})
                    return ('lt', pkey(e)), pr == 'eq'
            return ('eq', pkey(d)), pr == 'eq'
        u = pr[0] == 'u'
        if u and nonneg_poly(A) and nonneg_poly(B):
            u = False
        q = pr[1:]
        if u:
            if q == 'lt': return ('ult', pkey(A), pkey(B)), True
            if q == 'ge': return ('ult', pkey(A), pkey(B)), False
            if q == 'gt': return ('ult', pkey(B), pkey(A)), True
            return ('ult', pkey(B), pkey(A)), False
        # d < 0
        if q == 'lt': e, pol = d, True
        elif q == 'ge': e, pol = d, False
        elif q == 'le': e, pol = padd(d, {(): Fraction(-1)}), True
        else: e, pol = padd(d, {(): Fraction(-1)}), False
        # canonical sign: choose between e < 0 and -e-1 < 0
        m0 = max(e) if e else ()
        if e and m0 != () and e[m0] < 0:
            e = padd(pmulc(e, -1), {(): Fraction(-1)})
            pol = not pol
        return ('lt', pkey(e)), pol
    if n.op == 'fcmp':
        a, b = n.args
        A, B = pkey(nf(a, ctx)), pkey(nf(b, ctx))
        pr = n.attr
        pol = True
        if pr in ('ult', 'ule', 'ugt', 'uge', 'une', 'ord', 'true'):
            pr = FNEG.get(pr, pr)
            pol = False
        if pr in ('ogt', 'oge'):
            pr = {'ogt': 'olt', 'oge': 'ole'}[pr]
            A, B = B, A
        if pr in ('oeq', 'one', 'ueq', 'uno') and B < A:
            A, B = B, A
        return ('f' + pr, A, B), pol
    if n.op == 'xor' and n.args[1] is TRUE:
        k, p = cond(n.args[0], ctx)
        return k, not p
    if n.op in ('and', 'or'):
        leaves = []
        def fl(x):
            if x.op == n.op and x.ty == I1:
                fl(x.args[0]); fl(x.args[1])
            else:
                leaves.append(cond(x, ctx))
        fl(n)
        ks = sorted(set((k, p if n.op == 'and' else not p) for k, p in leaves), key=repr)
        # or == not(and of negations)
        if len(ks) == 1:
            k, p = ks[0]
            return k, p if n.op == 'and' else not p
        return ('and', tuple(ks)), n.op == 'and'
    if n.op == 'const':
        return ('true',), bool(cval(n))
    return ('p', pkey(nf(n, ctx))), True

def verkey(ver, ctx):
    if not ver:
        return 0
    out = []
    for e in VERS[ver]:
        out.append(effkey(e, ctx))
    return tuple(out)

def effkey(e, ctx):
    c = ctx
    doms = []
    for k, T in e.loops:
        doms.append(pkey(nf(T, c)))
        c = sub_ctx(c, k)
    return (e.base, e.kind, tuple(doms), cond(e.guard, c), pkey(nf(e.off, c)), e.ty, pkey(nf(e.val, c)) if e.val is not None else None)

def sub_ctx(ctx, *ks):
    m = dict(ctx.m)
    d = ctx.depth
    for k in ks:
        m[k] = P_atom(('bv', d))
        d += 1
    c = Ctx(m, d)
    return c

def _nf(n, ctx):
    op = n.op
    ty = n.ty
    if op == 'const':
        v = cval(n)
        if ty[0] == 'f':
            if math.isnan(v) or math.isinf(v):
                return P_atom(('fconst', repr(v)))
            return P_const(Fraction(v))
        return P_const(v)
    if op in ('k', 'ph'):
        r = ctx.m.get(n.attr)
        if r is not None:
            return r
        return P_atom(('k' if op == 'k' else 'ph', n.attr))
    if op == 'arg':
        return P_atom(('arg', n.attr, n.ty))
    A = n.args
    def N(i):
        return nf(A[i], ctx)
    def K(i):
        return pkey(nf(A[i], ctx))
    narrow = ty[0] == 'i' and ty[1] < 32
    if op in ('add', 'sub', 'mul', 'xadd', 'xsub', 'xmul'):
        o = op[-3:]
        a, b = N(0), N(1)
        r = padd(a, b) if o == 'add' else poly_sub(a, b) if o == 'sub' else pmul(a, b)
        if narrow and op[0] != 'x':
            return wrapp(ty[1], r)
        return r
    if op in ('fadd', 'fsub', 'fmul'):
        a, b = N(0), N(1)
        return padd(a, b) if op == 'fadd' else poly_sub(a, b) if op == 'fsub' else pmul(a, b)
    if op == 'fneg':
        return pmulc(N(0), -1)
    if op == 'fma':
        return padd(pmul(N(0), N(1)), N(2))
    if op == 'fdiv':
        return pmul(N(0), recip(N(1)))
    if op == 'sext':
        if A[0].ty == I1:
            return pmulc(P_atom(('b2i', cond(A[0], ctx))), -1)
        return N(0)
    if op == 'zext':
        if A[0].ty == I1:
            return b2i(A[0], ctx)
        p = N(0)
        if A[0].ty[1] >= 32 or nonneg_poly(p):
            return p
        return P_atom(('zext', A[0].ty[1], pkey(p)))
    if op == 'trunc':
        p = N(0)
        if ty[1] >= 32:
            return p
        return wrapp(ty[1], p)
    if op in ('fpext',):
        return N(0)
    if op in ('sitofp',):
        return N(0)
    if op == 'uitofp':
        p = N(0)
        if A[0].ty[1] >= 32 or nonneg_poly(p):
            return p
        return P_atom(('zext', A[0].ty[1], pkey(p)))
    if op == 'fptrunc':
        p = N(0)
        return P_atom(('fptrunc', ty[1], pkey(p)))
    if op == 'shl':
        c = cval(A[1])
        if c is not None and not narrow:
            return pmulc(N(0), 1 << c)
        if not narrow:
            return pmul(N(0), P_atom(('ipowp', pkey(P_const(2)), K(1))))
    if op == 'ashr':
        c = cval(A[1])
        if c is not None:
            return floordiv(N(0), 1 << c)
    if op == 'lshr':
        c = cval(A[1])
        p = N(0)
        if c is not None and nonneg_poly(p):
            return floordiv(p, 1 << c)
        if c is not None and len(p) == 1:
            # top bits of a wrapped product: (x mod 2^w) >> c = floor(x / 2^c) - 2^(w-c) floor(x / 2^w)
            (m, v), = p.items()
            if v == 1 and len(m) == 1 and m[0][1] == 1 and ATOMKEY[m[0][0]][0] == 'wrap' and ATOMKEY[m[0][0]][1] == ty[1]:
                x = dict(ATOMKEY[m[0][0]][2])
                w = ty[1]
                return poly_sub(floordiv(x, 1 << c), pmulc(floordiv(x, 1 << w), 1 << (w - c)))
    if op in ('udiv', 'sdiv'):
        c = cval(A[1])
        p = N(0)
        if c is not None and c > 0 and nonneg_poly(p):
            return floordiv(p, c)
        return P_atom((op, pkey(p), K(1)))
    if op in ('urem', 'srem'):
        c = cval(A[1])
        p = N(0)
        if c is not None and c > 0 and nonneg_poly(p):
            return poly_sub(p, pmulc(floordiv(p, c), c))
        return P_atom((op, pkey(p), K(1)))
    if op == 'and' and ty != I1:
        c = cval(A[1])
        p = N(0)
        if c is not None and c > 0 and (c & (c + 1)) == 0 and (nonneg_poly(p) or c == 1):
            return poly_sub(p, pmulc(floordiv(p, c + 1), c + 1))
        if c is not None and c < 0 and (-c & (-c - 1)) == 0 and nonneg_poly(p):
            return pmulc(floordiv(p, -c), -c)
        return P_atom(('and', ty[1], tuple(sorted((K(0), K(1))))))
    if op == 'mulhs':
        return floordiv(pmul(N(0), N(1)), 1 << ty[1])
    if op == 'or' and ty != I1:
        # clamp(2e) | bit  ==  clamp(2e + bit)   when 2e cannot saturate low
        for x, y in ((N(0), N(1)), (N(1), N(0))):
            e = unclamp(x, ty[1])
            lo, hi = prange_bit(y)
            if e is not None and lo >= 0 and hi <= 1 and all(c.denominator == 1 and c.numerator % 2 == 0 for c in e.values()) and prange(e)[0] >= -(1 << (ty[1] - 1)):
                return clampp(padd(e, y), ty[1])
    if op in ('or', 'xor') and ty != I1:
        return P_atom((op, ty[1], tuple(sorted((K(0), K(1))))))
    if op == 'ceildiv0':
        p, s = N(0), int(poly_const(N(1)))
        q = floordiv(padd(p, P_const(s - 1)), s)
        if nonneg_poly(p) or nonneg_poly(q):
            return q
        return minmax('max', [q, {}])
    if op == 'max0':
        return minmax('max', [N(0), {}])
    if op in ('smax', 'smin'):
        return minmax('max' if op == 'smax' else 'min', [N(0), N(1)])
    if op in ('umax', 'umin'):
        a, b = N(0), N(1)
        if nonneg_poly(a) and nonneg_poly(b):
            return minmax('max' if op == 'umax' else 'min', [a, b])
        return P_atom((op, ty[1], tuple(sorted((pkey(a), pkey(b))))))
    if op in ('packss',):
        w = ty[1]
        return minmax('max', [minmax('min', [N(0), P_const((1 << (w - 1)) - 1)]), P_const(-(1 << (w - 1)))])
    if op in ('saddsat', 'ssubsat'):
        w = ty[1]
        r = padd(N(0), N(1)) if op == 'saddsat' else poly_sub(N(0), N(1))
        return clampp(r, w)
    if op == 'ipow':
        b, e = N(0), N(1)
        c = poly_const(e)
        if c is not None and 0 <= c <= 64:
            r = P_const(1)
            for _ in range(int(c)):
                r = pmul(r, b)
            return r
        return P_atom(('ipowp', pkey(b), pkey(e)))
    if op == 'select':
        k, pol = cond(A[0], ctx)
        a, b = N(1), N(2)
        if not pol:
            a, b = b, a
        if k == ('true',):
            return a
        if pkey(a) == pkey(b):
            return a
        # clamp/min/max recognition on integers
        if k[0] == 'lt' and ty[0] == 'i':
            e = dict(k[1])      # e < 0
            if pkey(poly_sub(a, b)) == pkey(e) or pkey(padd(poly_sub(a, b), {(): Fraction(-1)})) == pkey(e):
                return minmax('min', [a, b])
            if pkey(poly_sub(b, a)) == pkey(e) or pkey(padd(poly_sub(b, a), {(): Fraction(-1)})) == pkey(e):
                return minmax('max', [a, b])
        return P_atom(('select', k, pkey(a), pkey(b)))
    if ty == I1 and op in ('icmp', 'fcmp', 'and', 'or', 'xor'):
        return b2i(n, ctx)
    if op == 'load':
        base, ver = n.attr
        return P_atom(('load', base, verkey(ver, ctx), K(0), ty))
    if op == 'sum':
        Tp = N(0)
        c = sub_ctx(ctx, n.attr)
        bv = P_atom(('bv', ctx.depth))
        bid = list(bv)[0][0][0]
        body = nf(A[1], c)
        r = {}
        for m, v in body.items():
            if not mentions(m, bid):
                r = padd(r, pmul({m: v}, Tp))
            else:
                # pull factors that do not mention the counter out of the sum
                out = tuple((a, e) for a, e in m if not atom_mentions(a, bid))
                inn = tuple((a, e) for a, e in m if atom_mentions(a, bid))
                r = padd(r, pmul({out: v}, P_atom(('sum', pkey(Tp), inn))))
        return r
    if op in ('prod', 'exists', 'first', 'maxr', 'minr'):
        Tp = pkey(N(0))
        c = sub_ctx(ctx, n.attr)
        if op in ('exists', 'first'):
            b = cond(A[1], c)
        else:
            b = pkey(nf(A[1], c))
        ex = tuple(K(i) for i in range(2, len(A)))
        return P_atom((op, Tp, b, ex))
    if op == 'mu':
        c = sub_ctx(ctx, n.attr)
        return P_atom(('mu', cond(A[0], c)))
    if op == 'rec':
        k, ph = n.attr
        c = sub_ctx(ctx, k, ph)
        return P_atom(('rec', K(0), K(1), pkey(nf(A[2], c))))
    if op == 'fn:fabs':
        p = N(0)
        if p:
            m0 = min(p)
            if p[m0] < 0:
                p = pmulc(p, -1)
        return P_atom(('fn:fabs', pkey(p)))
    if op in ('fmax', 'fmin', 'mulhu', 'mulhrs'):
        return P_atom((op, ty, tuple(sorted((K(0), K(1))))))
    if op == 'bitcast' and A[0].op == 'bitcast' and A[0].args[0].ty == ty:
        return nf(A[0].args[0], ctx)
    if op == 'fn:hypot':
        return P_atom(('fn:sqrt', n.attr, ty, pkey(padd(pmul(N(0), N(0)), pmul(N(1), N(1))))))
    return P_atom((op, n.attr, ty) + tuple(K(i) for i in range(len(A))))

def unclamp(p, w):
    """e if p is clamp_w(e) (or is in range)"""
    if len(p) == 1:
        (m, v), = p.items()
        if v == 1 and len(m) == 1 and m[0][1] == 1:
            k = ATOMKEY[m[0][0]]
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if k[0] in ('max', 'min'):
                bound = lo if k[0] == 'max' else hi
                ks = [x for x in k[2] if poly_const(dict(x)) != bound]
                if len(ks) == 1 and len(k[2]) == 2:
                    q = dict(ks[0])
                    if k[0] == 'max':
                        r = unclamp(q, w)
                        return r if r is not None else q
                    return q
    lo, hi = prange(p)
    if lo >= -(1 << (w - 1)) and hi <= (1 << (w - 1)) - 1:
        return p
    return None

def prange_bit(p):
    """range of floor(x/2^c) - 2 floor(x/2^(c+1)) is 0..1"""
    if len(p) == 2:
        (m1, c1), (m2, c2) = p.items()
        for (ma, ca), (mb, cb) in (((m1, c1), (m2, c2)), ((m2, c2), (m1, c1))):
            if ca == 1 and cb == -2 and len(ma) == 1 and len(mb) == 1:
                a, b = ATOMKEY[ma[0][0]], ATOMKEY[mb[0][0]]
                if a[0] == 'fdiv' and b[0] == 'fdiv' and a[1] == b[1] and b[2] == 2 * a[2]:
                    return (0, 1)
    return prange(p)

def clampp(r, w):
    return minmax('max', [minmax('min', [r, P_const((1 << (w - 1)) - 1)]), P_const(-(1 << (w - 1)))])

def b2i(n, ctx):
    k, pol = cond(n, ctx)
    if k == ('true',):
        return P_const(1 if pol else 0)
    a = P_atom(('b2i', k))
    return a if pol else poly_sub(P_const(1), a)

_ment = {}
def atom_mentions(a, bid):
    k = (a, bid)
    r = _ment.get(k)
    if r is None:
        r = a == bid or key_mentions(ATOMKEY[a], bid)
        _ment[k] = r
    return r

def key_mentions(k, bid):
    """does a nested key mention atom id bid?  Keys contain polynomials as ((mono, coef), ...)"""
    if isinstance(k, tuple):
        # monomial entry (atom, exponent)
        if len(k) == 2 and type(k[0]) is int and type(k[1]) is int:
            if 0 <= k[0] < len(ATOMKEY) and atom_mentions(k[0], bid):
                return True
        return any(key_mentions(x, bid) for x in k)
    return False

def mentions(m, bid):
    return any(atom_mentions(a, bid) for a, e in m)

def split_var(p, name):
    """p = c*k + r with c, r free of k; (None, None) if not affine"""
    kid = atom(('k', name))
    c, r = {}, {}
    for m, v in p.items():
        d = dict(m)
        if kid in d:
            if d[kid] != 1:
                return None, None
            del d[kid]
            mm = tuple(sorted(d.items()))
            if mentions(mm, kid):
                return None, None
            c[mm] = c.get(mm, 0) + v
        elif mentions(m, kid):
            return None, None
        else:
            r[m] = v
    return c, r

def affine_in(n, k):
    """(node n with k:=0, integer slope) if the normal form of n is affine in k with a constant integer slope"""
    if k not in n.fv:
        return n, 0
    p = nfi(n)
    c, r = split_var(p, k)
    if c is None:
        return None
    s = poly_const(c)
    if s is None or s.denominator != 1:
        return None
    return subst(n, {k: iconst(0)}), int(s)

def int_const(n):
    c = poly_const(nfi(n))
    if c is None or c.denominator != 1:
        return None
    return int(c)

def showp(p, d=4):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items()):
        t = '*'.join((showa(a, d - 1) + (f'^{e}' if e != 1 else '')) for a, e in m)
        cs = str(c if c.denominator == 1 else float(c))
        out.append(cs if not t else (t if c == 1 else f'{cs}*{t}'))
    return ' + '.join(out)

def showa(a, d):
    k = ATOMKEY[a]
    if d <= 0:
        return k[0]
    if k[0] in ('arg', 'k'):
        return str(k[1])
    if k[0] == 'bv':
        return f'i{k[1]}'
    if k[0] == 'load':
        return f'{k[1]}[{showp(dict(k[3]), d)}]'
    def s(x):
        if isinstance(x, tuple) and x and isinstance(x[0], tuple) and len(x[0]) == 2 and isinstance(x[0][1], Fraction):
            return showp(dict(x), d)
        return repr(x)[:60]
    return f'{k[0]}({", ".join(s(x) for x in k[1:])})'

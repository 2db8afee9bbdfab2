"""Hash-consed terms, their ring normal form, and their interpretation (random interpretation of terms).

A term is what the summariser (summ.py) extracts for an output of an analysed function: an expression over the function's
parameters, over the initial contents of the memory behind its pointer parameters, and over bound loop counters.
"""
import math, struct, hashlib
from fractions import Fraction

class Unknown(Exception):
    """the analysis cannot decide"""

class NonTerm(Unknown):
    """a loop that is never left"""

class Node:
    __slots__ = ('op', 'ty', 'args', 'attr', 'id', 'fv', 'ph', '_nf', 'src', 'depth')
    _tab = {}
    _next = [1]
    def __repr__(self):
        return show(self)

EMPTY = frozenset()

def mk(op, ty, args=(), attr=None, fv_drop=None):
    key = (op, ty, tuple(a.id for a in args), attr)
    n = Node._tab.get(key)
    if n is not None:
        return n
    n = Node()
    n.op, n.ty, n.args, n.attr = op, ty, tuple(args), attr
    n.id = Node._next[0]
    Node._next[0] += 1
    fv = EMPTY
    for a in args:
        if a.fv:
            fv = fv | a.fv
    if op in ('k', 'ph'):
        fv = frozenset([attr])
    if op in BINDERS:
        fv = fv - {attr[0] if isinstance(attr, tuple) else attr}
    if op == 'load' and attr[1]:
        fv = fv | VER_FV.get(attr[1], EMPTY)
    n.fv = fv
    n._nf = None
    n.src = None
    n.depth = 1 + max([a.depth for a in args] or [0])
    Node._tab[key] = n
    return n

# binder nodes: attr (or attr[0]) is the bound loop counter
#   sum(T, body)  prod(T, body)  maxr(T, body, init)  minr  exists(T, body)  first(T, body)  mu(cond): least k with not cond
#   rec(T, init, next): value after T iterations of x := next(x, k); attr=(k, placeholder)
BINDERS = {'sum', 'prod', 'maxr', 'minr', 'exists', 'first', 'mu', 'rec'}

VERS = {}      # memory version id -> tuple of effects
VER_FV = {}

def const(ty, v):
    if ty[0] == 'i':
        v = wrap(int(v), ty[1])
    else:
        v = float(v)
        # distinguish -0.0 / nan in the attribute
        return mk('const', ty, (), ('f', struct.pack('>d', v)))
    return mk('const', ty, (), v)

def cval(n):
    if n.op != 'const':
        return None
    if n.ty[0] == 'f':
        return struct.unpack('>d', n.attr[1])[0]
    return n.attr

def wrap(v, w):
    """signed representative of v modulo 2^w (i1: 0/1)"""
    if w == 1:
        return v & 1
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v

def uns(v, w):
    return v & ((1 << w) - 1)

I64 = ('i', 64)
I1 = ('i', 1)

def iconst(v):
    return const(I64, v)

TRUE = const(I1, 1)
FALSE = const(I1, 0)

def band(a, b):
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE or b is FALSE: return FALSE
    if a is b: return a
    return mk('and', I1, (a, b))

def bor(a, b):
    if a is FALSE: return b
    if b is FALSE: return a
    if a is TRUE or b is TRUE: return TRUE
    if a is b: return a
    if bnot(a) is b: return TRUE
    # (x & c) | (x & !c) -> x
    if a.op == 'and' and b.op == 'and':
        for x, c in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
            for y, d in ((b.args[0], b.args[1]), (b.args[1], b.args[0])):
                if x is y and bnot(c) is d:
                    return x
    return mk('or', I1, (a, b))

NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
FNEG = {'oeq': 'une', 'une': 'oeq', 'olt': 'uge', 'uge': 'olt', 'ogt': 'ule', 'ule': 'ogt', 'oge': 'ult', 'ult': 'oge', 'ole': 'ugt',
        'ugt': 'ole', 'one': 'ueq', 'ueq': 'one', 'ord': 'uno', 'uno': 'ord'}

def bnot(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'icmp':
        return mk('icmp', I1, a.args, NEG[a.attr])
    if a.op == 'fcmp' and a.attr in FNEG:
        return mk('fcmp', I1, a.args, FNEG[a.attr])
    if a.op == 'xor' and a.ty == I1:
        if a.args[1] is TRUE: return a.args[0]
        if a.args[0] is TRUE: return a.args[1]
    return mk('xor', I1, (a, TRUE))

def select(c, a, b):
    if a is b: return a
    if c is TRUE: return a
    if c is FALSE: return b
    if a.ty == I1:
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return bnot(c)
        if b is FALSE: return band(c, a)
        if a is TRUE: return bor(c, b)
        if a is FALSE: return band(bnot(c), b)
        if b is TRUE: return bor(bnot(c), a)
    if c.op == 'xor' and c.ty == I1 and c.args[1] is TRUE:
        return select(c.args[0], b, a)
    return mk('select', a.ty, (c, a, b))

def add(a, b):
    va, vb = cval(a), cval(b)
    if va == 0: return b
    if vb == 0: return a
    if va is not None and vb is not None: return const(a.ty, va + vb)
    return mk('add', a.ty, (a, b))

def sub(a, b):
    va, vb = cval(a), cval(b)
    if vb == 0: return a
    if va is not None and vb is not None: return const(a.ty, va - vb)
    if a is b: return const(a.ty, 0)
    return mk('sub', a.ty, (a, b))

def mul(a, b):
    va, vb = cval(a), cval(b)
    if va == 1: return b
    if vb == 1: return a
    if va == 0 or vb == 0: return const(a.ty, 0)
    if va is not None and vb is not None: return const(a.ty, va * vb)
    return mk('mul', a.ty, (a, b))

def sext64(a):
    if a.ty[1] == 64: return a
    return cast('sext', I64, a)

def cast(op, ty, a):
    v = cval(a)
    if a.ty == ty and op in ('sext', 'zext', 'trunc', 'fpext', 'fptrunc'):
        return a
    if v is not None:
        return const_of(ty, ev_op(op, ty, a.ty, [v], None))
    return mk(op, ty, (a,))

def const_of(ty, v):
    return const(ty, v)

def icmp(pred, a, b):
    if a is b:
        return TRUE if pred in ('eq', 'sle', 'sge', 'ule', 'uge') else FALSE
    va, vb = cval(a), cval(b)
    if va is not None and vb is not None:
        return const(I1, ev_icmp(pred, va, vb, a.ty[1]))
    return mk('icmp', I1, (a, b), pred)

# ---------------------------------------------------------------------------------------------- substitution
def subst(n, m, memo=None):
    """replace loop counters / placeholders (by name) by nodes"""
    if memo is None:
        memo = {}
    if not n.fv or not any(x in m for x in n.fv):
        return n
    r = memo.get(n.id)
    if r is not None:
        return r
    if n.op in ('k', 'ph'):
        r = m.get(n.attr, n)
    elif n.op in BINDERS:
        bv = n.attr[0] if isinstance(n.attr, tuple) else n.attr
        args = []
        for i, a in enumerate(n.args):
            args.append(subst(a, m, memo))
        # bound variables have globally unique names, so no capture is possible
        r = mk(n.op, n.ty, args, n.attr)
    elif n.op == 'load':
        base, ver = n.attr
        off = subst(n.args[0], m, memo)
        if ver and any(x in m for x in VER_FV[ver]):
            ver = newver([subst_eff(e, m, memo) for e in VERS[ver]])
        r = mk('load', n.ty, (off,), (base, ver))
    else:
        args = [subst(a, m, memo) for a in n.args]
        r = rebuild(n, args)
    memo[n.id] = r
    return r

def rebuild(n, args):
    op = n.op
    if op == 'add': return add(*args)
    if op == 'sub': return sub(*args)
    if op == 'mul': return mul(*args)
    if op == 'select': return select(*args)
    if op == 'icmp': return icmp(n.attr, *args)
    if n.ty == I1 and op == 'and': return band(*args)
    if n.ty == I1 and op == 'or': return bor(*args)
    if op in ('sext', 'zext', 'trunc'): return cast(op, n.ty, args[0])
    return fold(op, n.ty, args, n.attr)

FOLDABLE = {'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg',
            'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'smax', 'smin', 'umax', 'umin', 'fcmp', 'bitcast', 'ctlz', 'cttz', 'ctpop',
            'saddsat', 'ssubsat', 'uaddsat', 'usubsat', 'abs', 'xadd', 'xsub', 'xmul'}

def fold(op, ty, args, attr=None):
    if op in FOLDABLE and args and all(a.op == 'const' for a in args):
        try:
            v = ev_op(op, ty, args[0].ty, [cval(a) for a in args], attr)
            return const(ty, v)
        except (ZeroDivisionError, OverflowError, ValueError):
            pass
    if op in ('lshr', 'ashr', 'shl', 'or', 'xor') and cval(args[1]) == 0:
        return args[0]
    if op == 'or' and ty != I1 and cval(args[1]) is not None and 0 < cval(args[1]) < (1 << trailing(args[0])):
        return add(args[0], args[1])
    if op in ('ashr', 'lshr') and args[0].op == 'shl' and cval(args[1]) is not None and args[0].args[1] is args[1] and ty[1] - cval(args[1]) in (8, 16, 32):
        return cast('sext' if op == 'ashr' else 'zext', ty, cast('trunc', ('i', ty[1] - cval(args[1])), args[0].args[0]))
    return mk(op, ty, args, attr)

def trailing(n):
    """a lower bound on the number of trailing zero bits"""
    v = cval(n)
    if v is not None:
        return (v & -v).bit_length() - 1 if v else n.ty[1]
    if n.op == 'shl' and cval(n.args[1]) is not None:
        return min(n.ty[1], trailing(n.args[0]) + cval(n.args[1]))
    if n.op == 'mul':
        return min(n.ty[1], trailing(n.args[0]) + trailing(n.args[1]))
    if n.op in ('add', 'sub'):
        return min(trailing(n.args[0]), trailing(n.args[1]))
    if n.op in ('sext', 'zext'):
        return trailing(n.args[0])
    return 0

class Effect:
    """a (possibly repeated, possibly guarded) write: loops = ((k, T), ...) outermost first"""
    __slots__ = ('loops', 'guard', 'base', 'off', 'ty', 'val', 'src', 'kind')
    def __init__(self, loops, guard, base, off, ty, val, src=None, kind='st'):
        self.loops, self.guard, self.base, self.off, self.ty, self.val, self.src, self.kind = tuple(loops), guard, base, off, ty, val, src, kind
    def free(self):
        fv = set(self.guard.fv) | self.off.fv | (self.val.fv if self.val is not None else EMPTY)
        for k, T in reversed(self.loops):
            fv -= {k}
            fv |= T.fv
        return frozenset(fv)
    def key(self):
        return (tuple((k, T.id) for k, T in self.loops), self.guard.id, self.base, self.off.id, self.ty, self.val.id if self.val is not None else None, self.kind)
    def __repr__(self):
        l = ''.join(f'for {k}<{show(T)}: ' for k, T in self.loops)
        g = '' if self.guard is TRUE else f'if {show(self.guard)}: '
        return f'{l}{g}{self.base}[{show(self.off)}] := {show(self.val) if self.val is not None else self.kind} ({self.ty})'

def subst_eff(e, m, memo=None):
    return Effect([(k, subst(T, m, memo)) for k, T in e.loops], subst(e.guard, m, memo), e.base, subst(e.off, m, memo), e.ty,
                  subst(e.val, m, memo) if e.val is not None else None, e.src, e.kind)

_verkeys = {}
def newver(effs):
    effs = tuple(effs)
    if not effs:
        return 0
    k = tuple(e.key() for e in effs)
    v = _verkeys.get(k)
    if v is None:
        v = len(VERS) + 1
        _verkeys[k] = v
        VERS[v] = effs
        fv = EMPTY
        for e in effs:
            fv = fv | e.free()
        VER_FV[v] = fv
    return v

# ---------------------------------------------------------------------------------------------- printing
SYM = {'add': '+', 'sub': '-', 'mul': '*', 'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/', 'and': '&', 'or': '|', 'xor': '^',
       'shl': '<<', 'lshr': '>>>', 'ashr': '>>', 'udiv': '/u', 'sdiv': '/s', 'urem': '%u', 'srem': '%s'}
def show(n, d=14):
    if d == 0:
        return '…'
    if n.op == 'const':
        v = cval(n)
        return repr(v)
    if n.op in ('arg', 'k', 'ph'):
        return str(n.attr)
    if n.op == 'load':
        v = f'#{n.attr[1]}' if n.attr[1] else ''
        return f'{n.attr[0]}{v}[{show(n.args[0], d-1)}]'
    if n.op in SYM and len(n.args) == 2:
        return f'({show(n.args[0], d-1)} {SYM[n.op]} {show(n.args[1], d-1)})'
    if n.op in ('icmp', 'fcmp'):
        return f'({show(n.args[0], d-1)} {n.attr} {show(n.args[1], d-1)})'
    if n.op in ('zext', 'sext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
        return f'{n.op}{n.ty[1]}({show(n.args[0], d-1)})'
    at = '' if n.attr is None else f'<{n.attr}>'
    return f'{n.op}{at}({", ".join(show(a, d-1) for a in n.args)})'

# ---------------------------------------------------------------------------------------------- interpretation of terms
def f32(x):
    if math.isinf(x) or math.isnan(x):
        return x
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf

def f16(x):
    if math.isinf(x) or math.isnan(x):
        return x
    try:
        return struct.unpack('e', struct.pack('e', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf

def f16_dir(x, d):
    if math.isinf(x) or math.isnan(x):
        return x
    y = f16(x)
    if math.isinf(y):
        y = math.copysign(65504.0, x)
    def step(v, up):
        b = struct.unpack('H', struct.pack('e', v))[0]
        if v == 0:
            return struct.unpack('e', struct.pack('H', 1 if up else 0x8001))[0]
        b += 1 if (v > 0) == up else -1
        return struct.unpack('e', struct.pack('H', b))[0]
    down = d == 'dn' or (d == 'tz' and x > 0)
    if down and y > x: return step(y, False)
    if not down and y < x: return step(y, True)
    return y

def rnd(x, w):
    return f32(x) if w == 32 else f16(x) if w == 16 else x

def fdiv(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if a == 0 or math.isnan(a):
            return math.nan
        s = math.copysign(1, a) * math.copysign(1, b)
        return math.inf * s
    except OverflowError:
        return math.inf

def ev_icmp(p, a, b, w):
    if p == 'eq': return int(a == b)
    if p == 'ne': return int(a != b)
    if p[0] == 'u':
        a, b = uns(a, w), uns(b, w)
    q = p[1:]
    return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[q])

def ev_fcmp(p, a, b):
    un = math.isnan(a) or math.isnan(b)
    if p == 'ord': return int(not un)
    if p == 'uno': return int(un)
    if p == 'true': return 1
    if p == 'false': return 0
    if un: return int(p[0] == 'u')
    q = p[1:]
    return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[q])

def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q

def clamp_s(v, w):
    return max(-(1 << (w - 1)), min((1 << (w - 1)) - 1, v))

def tobits(v, ty):
    if ty[0] == 'i':
        return uns(v, ty[1])
    if ty[1] == 64:
        return struct.unpack('Q', struct.pack('d', v))[0]
    if ty[1] == 32:
        try:
            return struct.unpack('I', struct.pack('f', v))[0]
        except OverflowError:
            return 0x7f800000 if v > 0 else 0xff800000
    if ty[1] == 16:
        try:
            return struct.unpack('H', struct.pack('e', v))[0]
        except OverflowError:
            return 0x7c00 if v > 0 else 0xfc00
    raise Unknown('tobits')

def frombits(b, ty):
    if ty[0] == 'i':
        return wrap(b, ty[1])
    if ty[1] == 64:
        return struct.unpack('d', struct.pack('Q', b))[0]
    if ty[1] == 32:
        return struct.unpack('f', struct.pack('I', b))[0]
    if ty[1] == 16:
        return struct.unpack('e', struct.pack('H', b))[0]
    raise Unknown('frombits')

def _safe(f, *a):
    try:
        return f(*a)
    except (ValueError, ZeroDivisionError):
        return math.nan
    except OverflowError:
        return math.inf

def _log(f):
    def g(x):
        if math.isnan(x): return x
        if x == 0: return -math.inf
        if x < 0: return math.nan
        if math.isinf(x): return x
        return f(x)
    return g

def _pow(a, b):
    try:
        return math.pow(a, b)
    except OverflowError:
        return math.inf
    except ValueError:
        if a == 0: return math.inf
        return math.nan

def _hyp(*a):
    return math.hypot(*a)

FUN = {
    'sqrt': lambda x: math.nan if x < 0 else (x if math.isinf(x) else math.sqrt(x)),
    'fabs': abs, 'log10': _log(math.log10), 'log2': _log(math.log2), 'log': _log(math.log),
    'sin': lambda x: math.nan if math.isinf(x) else math.sin(x), 'cos': lambda x: math.nan if math.isinf(x) else math.cos(x),
    'tan': lambda x: math.nan if math.isinf(x) else math.tan(x),
    'pow': _pow, 'exp': lambda x: _safe(math.exp, x), 'exp2': lambda x: _pow(2.0, x), 'exp10': lambda x: _pow(10.0, x),
    'floor': lambda x: x if math.isinf(x) or math.isnan(x) else float(math.floor(x)),
    'ceil': lambda x: x if math.isinf(x) or math.isnan(x) else float(math.ceil(x)),
    'trunc_': lambda x: x if math.isinf(x) or math.isnan(x) else float(math.trunc(x)),
    'rint': lambda x: x if math.isinf(x) or math.isnan(x) else float(round(x)),
    'round_': lambda x: x if math.isinf(x) or math.isnan(x) else math.copysign(math.floor(abs(x) + 0.5), x),
    'hypot': _hyp, 'atan2': math.atan2, 'copysign': math.copysign,
    'log1p': lambda x: _safe(math.log1p, x), 'expm1': lambda x: _safe(math.expm1, x), 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x),
    'sinh': lambda x: _safe(math.sinh, x), 'cosh': lambda x: _safe(math.cosh, x), 'tanh': math.tanh, 'atan': math.atan,
    'asin': lambda x: _safe(math.asin, x), 'acos': lambda x: _safe(math.acos, x),
}

def _fmax(a, b):
    if math.isnan(a): return b
    if math.isnan(b): return a
    return max(a, b)
def _fmin(a, b):
    if math.isnan(a): return b
    if math.isnan(b): return a
    return min(a, b)

def ev_op(op, ty, sty, v, attr):
    w = ty[1] if ty[0] == 'i' else None
    if op == 'add': return wrap(v[0] + v[1], w)
    if op == 'sub': return wrap(v[0] - v[1], w)
    if op == 'mul': return wrap(v[0] * v[1], w)
    if op == 'xadd': return v[0] + v[1]
    if op == 'xsub': return v[0] - v[1]
    if op == 'xmul': return v[0] * v[1]
    if op in ('udiv', 'urem', 'sdiv', 'srem'):
        if v[1] == 0:
            raise ZeroDivisionError
        if op == 'udiv': return wrap(uns(v[0], w) // uns(v[1], w), w)
        if op == 'urem': return wrap(uns(v[0], w) % uns(v[1], w), w)
        if op == 'sdiv': return wrap(tdiv(v[0], v[1]), w)
        return wrap(v[0] - v[1] * tdiv(v[0], v[1]), w)
    if op == 'shl':
        s = uns(v[1], w)
        return wrap(v[0] << s, w) if s < 4 * w else 0
    if op == 'lshr': return wrap(uns(v[0], w) >> min(uns(v[1], w), 4 * w), w)
    if op == 'ashr': return wrap(v[0] >> min(uns(v[1], w), 4 * w), w)
    if op == 'and': return wrap(v[0] & v[1], w)
    if op == 'or': return wrap(v[0] | v[1], w)
    if op == 'xor': return wrap(v[0] ^ v[1], w)
    if ty == ('f', 16) and op in ('fadd', 'fsub', 'fmul', 'fdiv'):      # half precision rounds visibly
        return f16(v[0] + v[1] if op == 'fadd' else v[0] - v[1] if op == 'fsub' else v[0] * v[1] if op == 'fmul' else fdiv(v[0], v[1]))
    if op == 'fadd':
        return v[0] + v[1]
    if op == 'fsub': return v[0] - v[1]
    if op == 'fmul': return v[0] * v[1]
    if op == 'fdiv': return fdiv(v[0], v[1])
    if op == 'frem':
        try: return math.fmod(v[0], v[1])
        except ValueError: return math.nan
    if op == 'fneg': return -v[0]
    if op == 'fma': return v[0] * v[1] + v[2]
    if op == 'icmp': return ev_icmp(attr, v[0], v[1], sty[1])
    if op == 'fcmp': return ev_fcmp(attr, v[0], v[1])
    if op == 'select': return v[1] if v[0] else v[2]
    if op == 'zext': return wrap(uns(v[0], sty[1]), w)
    if op == 'sext': return wrap(-v[0] if sty[1] == 1 else v[0], w)
    if op == 'trunc': return wrap(v[0], w)
    if op == 'fpext': return v[0]
    if op == 'fptrunc': return rnd(v[0], ty[1])
    if op in ('fptrunc_dn', 'fptrunc_up', 'fptrunc_tz'): return f16_dir(v[0], op[-2:])
    if op in ('fptosi', 'fptoui'):
        if math.isnan(v[0]) or math.isinf(v[0]):
            raise OverflowError
        x = math.trunc(v[0])
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == 'fptosi' else (0, (1 << w) - 1)
        if not lo <= x <= hi:
            raise OverflowError
        return wrap(x, w)
    if op == 'sitofp': return rnd(float(v[0]), ty[1])
    if op == 'uitofp': return rnd(float(uns(v[0], sty[1])), ty[1])
    if op == 'smax': return max(v)
    if op == 'smin': return min(v)
    if op == 'umax': return wrap(max(uns(x, w) for x in v), w)
    if op == 'umin': return wrap(min(uns(x, w) for x in v), w)
    if op == 'saddsat': return clamp_s(v[0] + v[1], w)
    if op == 'ssubsat': return clamp_s(v[0] - v[1], w)
    if op == 'uaddsat': return wrap(min(uns(v[0], w) + uns(v[1], w), (1 << w) - 1), w)
    if op == 'usubsat': return wrap(max(uns(v[0], w) - uns(v[1], w), 0), w)
    if op == 'sshlsat': return clamp_s(v[0] << uns(v[1], w), w)
    if op == 'abs': return wrap(abs(v[0]), w)
    if op == 'ctlz': return w - uns(v[0], w).bit_length()
    if op == 'cttz':
        x = uns(v[0], w)
        return w if x == 0 else (x & -x).bit_length() - 1
    if op == 'ctpop': return bin(uns(v[0], w)).count('1')
    if op == 'bswap': return wrap(int.from_bytes(uns(v[0], w).to_bytes(w // 8, 'little'), 'big'), w)
    if op == 'bitreverse': return wrap(int(bin(uns(v[0], w))[2:].zfill(w)[::-1], 2), w)
    if op == 'fshl':
        s = uns(v[2], w) % w
        return wrap(((uns(v[0], w) << w | uns(v[1], w)) << s) >> w, w)
    if op == 'fshr':
        s = uns(v[2], w) % w
        return wrap((uns(v[0], w) << w | uns(v[1], w)) >> s, w)
    if op == 'mulhs': return wrap((v[0] * v[1]) >> w, w)
    if op == 'mulhu': return wrap((uns(v[0], w) * uns(v[1], w)) >> w, w)
    if op == 'mulhrs': return wrap((((v[0] * v[1]) >> 14) + 1) >> 1, w)
    if op == 'packss': return clamp_s(v[0], w)
    if op == 'packus': return wrap(max(0, min((1 << w) - 1, v[0])), w)
    if op == 'fmax': return _fmax(*v)
    if op == 'fmin': return _fmin(*v)
    if op == 'x86max': return v[0] if v[0] > v[1] else v[1]
    if op == 'x86min': return v[0] if v[0] < v[1] else v[1]
    if op == 'bitcast': return frombits(tobits(v[0], sty), ty)
    if op == 'pack':   # concatenation of lanes into an integer, attr = lane types
        r, s = 0, 0
        for x, t in zip(v, attr):
            r |= tobits(x, t) << s
            s += t[1]
        return wrap(r, w)
    if op == 'unpack':  # attr = (bit offset)
        return frombits((uns(v[0], sty[1]) >> attr) & ((1 << ty[1]) - 1), ty)
    if op == 'ipow':
        if v[1] < 0 or v[1] > 4096: raise OverflowError
        return wrap(v[0] ** v[1], w)
    if op == 'fpow_int': return _pow(v[0], v[1])
    if op == 'ceildiv0':   # max(0, ceil(a/b)), b > 0
        return max(0, -((-v[0]) // v[1]))
    if op == 'max0': return max(0, v[0])
    if op in ('frexp_m',):
        return math.frexp(v[0])[0]
    if op == 'isclass':
        x = v[0]
        m = attr
        nan = math.isnan(x)
        inf = math.isinf(x)
        r = 0
        if nan: r = m & 3
        elif inf: r = m & (512 if x > 0 else 4)
        elif x == 0: r = m & (64 if math.copysign(1, x) > 0 else 32)
        else: r = m & (256 if x > 0 else 8)   # denormals are sampled as normals
        return int(bool(r))
    if op.startswith('fn:'):
        f = FUN.get(op[3:])
        if f is None:
            raise Unknown('no interpretation for ' + op)
        if any(math.isnan(x) for x in v if isinstance(x, float)):
            return math.nan
        return float(f(*v))
    raise Unknown('no interpretation for ' + op)

class Undef(Exception):
    """the point is outside the domain of the term (division by zero, conversion overflow, ...)"""

class Point:
    """a valuation of parameters and initial memory"""
    def __init__(self, args, seed=0, memgen=None, limit=200000):
        self.args = args
        self.seed = seed
        self.memgen = memgen
        self.env = {}
        self.memo = {}
        self.kmemo = {}
        self.mem = {}
        self.vmemo = {}
        self.steps = 0
        self.limit = limit
    def load0(self, base, off, ty):
        k = (base, off)
        v = self.mem.get(k)
        if v is None:
            v = self.memgen(self, base, off, ty)
            self.mem[k] = v
        return v

def ev(n, pt):
    """interpret a term at a point; iterative-friendly recursion with memo for closed terms"""
    if not n.fv:
        r = pt.memo.get(n.id)
        if r is not None:
            return r
        r = _ev(n, pt)
        pt.memo[n.id] = r
        return r
    key = (n.id, tuple((x, pt.env.get(x)) for x in sorted(n.fv)))
    r = pt.kmemo.get(key)
    if r is None:
        r = _ev(n, pt)
        if len(pt.kmemo) > 400000:
            pt.kmemo.clear()
        pt.kmemo[key] = r
    return r

def _ev(n, pt):
    pt.steps += 1
    if pt.steps > 4000000:
        raise Unknown('interpretation budget')
    op = n.op
    if op == 'const':
        return cval(n)
    if op in ('k', 'ph'):
        if n.attr not in pt.env:
            raise Unknown(f'unbound {n.attr}')
        return pt.env[n.attr]
    if op == 'arg':
        return pt.args[n.attr]
    if op == 'undef':
        raise Undef('undef value')
    if op == 'load':
        base, ver = n.attr
        off = ev(n.args[0], pt)
        if ver == 0:
            return pt.load0(base, off, n.ty)
        return loadver(base, ver, off, n.ty, pt)
    if op == 'select':
        c = ev(n.args[0], pt)
        return ev(n.args[1] if c else n.args[2], pt)
    if op == 'and' and n.ty == I1:
        return int(bool(ev(n.args[0], pt)) and bool(ev(n.args[1], pt)))
    if op == 'or' and n.ty == I1:
        return int(bool(ev(n.args[0], pt)) or bool(ev(n.args[1], pt)))
    if op in BINDERS:
        return ev_binder(n, pt)
    if op == 'opaque' or op.startswith('call:'):
        vs = tuple(ev(a, pt) for a in n.args)
        h = hashlib.sha256(repr((op, n.attr, vs, pt.seed)).encode()).digest()
        x = int.from_bytes(h[:8], 'little', signed=True)
        return wrap(x, n.ty[1]) if n.ty[0] == 'i' else (x / 2**63) * 2
    vs = [ev(a, pt) for a in n.args]
    try:
        r = ev_op(op, n.ty, n.args[0].ty if n.args else None, vs, n.attr)
    except (ZeroDivisionError, OverflowError, ValueError) as e:
        raise Undef(f'{op}: {e}')
    return r

def withenv(pt, k, v):
    old = pt.env.get(k)
    pt.env[k] = v
    return old

def unenv(pt, k, old):
    if old is None:
        pt.env.pop(k, None)
    else:
        pt.env[k] = old

def ev_binder(n, pt):
    op = n.op
    if op == 'mu':
        k = n.attr
        old = pt.env.get(k)
        try:
            for i in range(100000):
                pt.env[k] = i
                if not ev(n.args[0], pt):
                    return i
        finally:
            unenv(pt, k, old)
        raise NonTerm('a loop is not left after 100000 iterations')
    if op == 'rec':
        k, ph = n.attr
        T = ev(n.args[0], pt)
        if T > pt.limit: raise Unknown('trip count')
        x = ev(n.args[1], pt)
        ok, op_ = pt.env.get(k), pt.env.get(ph)
        try:
            for i in range(T):
                pt.env[k] = i
                pt.env[ph] = x
                x = ev(n.args[2], pt)
        finally:
            unenv(pt, k, ok)
            unenv(pt, ph, op_)
        return x
    k = n.attr
    T = ev(n.args[0], pt)
    if T > pt.limit:
        raise Unknown('trip count')
    old = pt.env.get(k)
    body = n.args[1]
    try:
        if op == 'sum':
            s = 0 if n.ty[0] == 'i' else 0.0
            for i in range(T):
                pt.env[k] = i
                s += ev(body, pt)
            return wrap(s, n.ty[1]) if n.ty[0] == 'i' else s
        if op == 'prod':
            s = 1 if n.ty[0] == 'i' else 1.0
            for i in range(T):
                pt.env[k] = i
                s *= ev(body, pt)
            return wrap(s, n.ty[1]) if n.ty[0] == 'i' else s
        if op in ('maxr', 'minr'):
            unenv(pt, k, old)
            s = ev(n.args[2], pt)
            for i in range(T):
                pt.env[k] = i
                v = ev(body, pt)
                if (v > s) if op == 'maxr' else (v < s):
                    s = v
            return s
        if op == 'exists':
            for i in range(T):
                pt.env[k] = i
                if ev(body, pt):
                    return 1
            return 0
        if op == 'first':     # least k < T with body, else T
            for i in range(T):
                pt.env[k] = i
                if ev(body, pt):
                    return i
            return max(T, 0)
    finally:
        unenv(pt, k, old)
    raise Unknown(op)

def ev_effects(effs, pt, out=None):
    """interpret a sequence of effects: dict (base, off) -> (ty, value)"""
    if out is None:
        out = {}
    for e in effs:
        _eff(e, 0, pt, out)
    return out

def _eff(e, d, pt, out):
    if d == len(e.loops):
        if not ev(e.guard, pt):
            return
        off = ev(e.off, pt)
        if e.kind == 'havoc':
            raise Unknown('havoc')
        pt.steps += 1
        out[(e.base, off)] = (e.ty, ev(e.val, pt))
        return
    k, T = e.loops[d]
    t = ev(T, pt)
    if t > pt.limit:
        raise Unknown('trip count')
    old = pt.env.get(k)
    try:
        for i in range(t):
            pt.env[k] = i
            _eff(e, d + 1, pt, out)
    finally:
        unenv(pt, k, old)

def loadver(base, ver, off, ty, pt):
    effs = VERS[ver]
    fv = VER_FV[ver]
    key = (ver, tuple((x, pt.env.get(x)) for x in sorted(fv)))
    d = pt.vmemo.get(key)
    if d is None:
        d = ev_effects([e for e in effs if e.base == base], pt)
        pt.vmemo[key] = d
    r = d.get((base, off))
    if r is None:
        return pt.load0(base, off, ty)
    if r[0] != ty:
        if r[0][1] == ty[1]:
            return frombits(tobits(r[1], r[0]), ty)
        raise Unknown('mixed-width memory')
    return r[1]

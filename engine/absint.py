"""Abstract interpretation of LLVM IR in the domain (constant integers) x (base, offset pointers) x (polynomial forms for floating point).

Floating-point values are abstracted by polynomials over the symbols of the caller's input data with numeric coefficients; rounding is abstracted away.
Integers and pointers are constant-propagated. Operations outside the polynomials become hash-consed opaque atoms. A branch whose condition is not a
constant of the domain is not followed: the analysis answers Undecided. Memory is a set of sized objects with typed cells; accesses outside an object,
to freed objects, and control flow or results that depend on uninitialised memory are defects of the analysed code (Defect).
"""
import math, struct
from llparse import IRError

class Undecided(Exception):
    pass
class Defect(Exception):
    def __init__(self, msg, loc=()):
        super().__init__(msg)
        self.loc = list(loc)
class Thrown(Exception):
    def __init__(self, what):
        super().__init__(what)
        self.what = what

class _Undef:
    def __repr__(self):
        return 'UNDEF'
UNDEF = _Undef()

K = 1 << 20
SYM = ['?']            # symbol id -> name
_symid = {}
def reset():
    SYM[:] = ['?']
    _symid.clear()
def symid(name):
    i = _symid.get(name)
    if i is None:
        i = len(SYM)
        SYM.append(name)
        _symid[name] = i
    return i
def sym(name):
    return {symid(name): 1.0}
def mono_digits(m):
    d = []
    while m:
        m, r = divmod(m, K)
        d.append(r)
    return d[::-1]
_mm = {}
def mono_mul(a, b):
    if not a: return b
    if not b: return a
    k = (a, b) if a <= b else (b, a)
    r = _mm.get(k)
    if r is None:
        d = sorted(mono_digits(a) + mono_digits(b))
        if len(d) > 6:
            raise Undecided('degree of polynomial form')
        r = 0
        for x in d:
            r = r * K + x
        _mm[k] = r
    return r
def isf(v):
    return type(v) is float
def fadd(a, b, s=1.0):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if type(a) is float and type(b) is float:
        return a + s * b
    if type(b) is float:
        if b == 0.0: return a
        b = {0: b}
    if type(a) is float:
        if a == 0.0 and s == 1.0: return b
        a = {0: a}
    if type(a) is not dict or type(b) is not dict:
        raise Undecided(f'float arithmetic on {type(a).__name__}, {type(b).__name__}')
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = s * c
        else:
            v += s * c
            if v == 0.0: del r[m]
            else: r[m] = v
    return norm(r)
def norm(r):
    if not r: return 0.0
    if len(r) == 1 and 0 in r: return r[0]
    return r
def fmul(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if type(a) is float:
        if type(b) is float: return a * b
        a, b = b, a
    if type(a) is not dict:
        raise Undecided(f'float arithmetic on {type(a).__name__}')
    if type(b) is float:
        if b == 0.0: return 0.0
        if b == 1.0: return a
        return {m: c * b for m, c in a.items()}
    if type(b) is not dict:
        raise Undecided(f'float arithmetic on {type(b).__name__}')
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mono_mul(m, n)
            r[k] = r.get(k, 0.0) + c * d
    return norm({k: v for k, v in r.items() if v != 0.0})
def fneg(a):
    return fmul(a, -1.0)

def key(v):
    if type(v) is float:
        return ('f', float('%.9g' % v))
    if type(v) is dict:
        return ('p',) + tuple(sorted((m, '%.7g' % c) for m, c in v.items() if abs(c) > 1e-9))
    if isinstance(v, int):
        return ('i', v)
    if isinstance(v, Atom):
        return v.k
    if isinstance(v, Part):
        return ('part', key(v.v), v.total, v.start, v.n)
    if isinstance(v, Bits):
        return ('bits',) + tuple((w, key(x)) for w, x in v.p)
    if isinstance(v, list):
        return ('v',) + tuple(key(x) for x in v)
    if v is UNDEF:
        return ('undef',)
    return ('o', repr(v))

class Atom:
    """opaque integer value"""
    __slots__ = ('k',)
    def __init__(self, k):
        self.k = k
    def __eq__(self, o):
        return isinstance(o, Atom) and self.k == o.k
    def __hash__(self):
        return hash(self.k)
    def __repr__(self):
        return f'Atom{self.k}'
def fatom(*a):
    if any(x is UNDEF for x in a):
        return UNDEF
    return {symid(('atom',) + tuple(x if isinstance(x, str) else key(x) for x in a)): 1.0}
def iatom(*a):
    if any(x is UNDEF for x in a):
        return UNDEF
    return Atom(tuple(x if isinstance(x, str) else key(x) for x in a))

class Part:
    """some bytes of a value that is a form or a pointer"""
    __slots__ = ('v', 'total', 'start', 'n')
    def __init__(self, v, total, start, n): self.v, self.total, self.start, self.n = v, total, start, n
class Bits:
    """little-endian concatenation of typed pieces (width in bytes, value)"""
    __slots__ = ('p',)
    def __init__(self, p):
        self.p = p

class Obj:
    __slots__ = ('name', 'size', 'cells', 'zero', 'freed', 'kind', 'written', 'init', 'readonly', 'read')
    def __init__(self, name, size, kind, zero=False):
        self.name, self.size, self.kind = name, size, kind
        self.cells = {}
        self.zero = [(0, size)] if zero else []
        self.freed = False
        self.written = None
        self.readonly = False
        self.read = False
    def __repr__(self):
        return f'<{self.name}>'

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(self, o, off):
        self.o, self.off = o, off
    def __repr__(self):
        return f'{self.o}+{self.off}'
    def __eq__(self, q):
        return isinstance(q, Ptr) and q.o is self.o and q.off == self.off
    def __hash__(self):
        return hash((id(self.o), self.off))
class Fn:
    __slots__ = ('name',)
    def __init__(self, n):
        self.name = n
    def __repr__(self):
        return '@' + self.name

def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v

def tofloat(x, w):
    if w == 32: return struct.unpack('<f', struct.pack('<I', x & 0xffffffff))[0]
    if w == 64: return struct.unpack('<d', struct.pack('<Q', x))[0]
    if w == 16: return struct.unpack('<e', struct.pack('<H', x))[0]
    raise Undecided('float width')
def frombits(v, w):
    if w == 32:
        try: return struct.unpack('<I', struct.pack('<f', v))[0]
        except OverflowError: return 0x7f800000
    if w == 64: return struct.unpack('<Q', struct.pack('<d', v))[0]
    if w == 16: return struct.unpack('<H', struct.pack('<e', v))[0]

import re
EXC = re.compile(r'_ZNSt(9bad_alloc|\d+(runtime|logic|domain|length|range|overflow|underflow|system)_error|12out_of_range|16invalid_argument|9exception)[CD][0-9]E')
MATH1 = {'cos': math.cos, 'sin': math.sin, 'sqrt': math.sqrt, 'exp': math.exp, 'log': math.log, 'log10': math.log10, 'log2': math.log2, 'fabs': abs, 'tan': math.tan,
         'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1), 'rint': round, 'nearbyint': round, 'exp2': lambda x: 2.0 ** x,
         'atan': math.atan, 'asin': math.asin, 'acos': math.acos, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x), 'roundeven': round}
MATH2 = {'pow': lambda a, b: a ** b, 'fmod': math.fmod, 'atan2': math.atan2, 'hypot': math.hypot, 'fmax': max, 'fmin': min, 'maxnum': max, 'minnum': min,
         'maximum': max, 'minimum': min, 'copysign': math.copysign}

class Interp:
    def __init__(self, mod, limit=30_000_000):
        self.mod = mod
        self.limit = limit
        self.steps = 0
        self.gobj = {}
        self.allocs = 0
        self.deletes = 0
        self.events = []
        self.depth = 0
        self.prep = {}
        self.fnseen = set()
        self.cur = None
        self.exc = None
        self.nobj = 0
        self.dom = {}
        self.wr = 0             # count of effects so far
        self.val = None         # when set: decides comparisons of data at one valuation of the symbols

    # ---------------------------------------------------------------- memory
    def new(self, name, size, kind, zero=False):
        self.nobj += 1
        return Obj(name, size, kind, zero)
    def array(self, name, ety, values):
        """object holding an array of scalars"""
        sz = self.mod.size(ety)
        o = self.new(name, sz * len(values), 'arg')
        for i, v in enumerate(values):
            if v is not UNDEF:
                o.cells[i * sz] = (sz, v, None)
        return o
    def where(self, ins=None):
        i = ins or self.cur
        return [l for l in self.mod.loc(i.dbg, 8)] if i is not None and i.dbg else []
    def check(self, p, size, what):
        if not isinstance(p, Ptr):
            if p == 0 or p is UNDEF:
                raise Defect(f'{what} through a null or uninitialised pointer', self.where())
            raise Undecided(f'{what} through {p!r}')
        o = p.o
        if o.freed:
            raise Defect(f'{what} of freed object {o.name}', self.where())
        if p.off < 0 or p.off + size > o.size:
            raise Defect(f'{what} of {size} bytes at offset {p.off} of {o.name} ({o.size} bytes)', self.where())
        return o
    def load_scalar(self, o, off, size, ty):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.retype(c[1], ty)
        pieces = []
        q = off
        end = off + size
        while q < end:
            c = o.cells.get(q)
            if c is not None and q + c[0] <= end:
                pieces.append((c[0], c[1]))
                q += c[0]
                continue
            if c is None:
                # inside a larger cell?
                hit = None
                for back in range(1, 33):
                    d = o.cells.get(q - back)
                    if d is not None:
                        if d[0] > back:
                            hit = (q - back, d)
                        break
                if hit:
                    b, d = hit
                    n = min(b + d[0], end) - q
                    pieces.append((n, self.slice(d[1], d[0], q - b, n)))
                    q += n
                    continue
                if any(a <= q < b for a, b in o.zero):
                    n = 1
                    while q + n < end and (q + n) not in o.cells and any(a <= q + n < b for a, b in o.zero):
                        n += 1
                    pieces.append((n, 0))
                    q += n
                    continue
                n = 1
                while q + n < end and (q + n) not in o.cells and not any(a <= q + n < b for a, b in o.zero):
                    n += 1
                pieces.append((n, UNDEF))
                q += n
                continue
            n = end - q
            pieces.append((n, self.slice(c[1], c[0], 0, n)))
            q = end
        if len(pieces) == 1:
            return self.retype(pieces[0][1], ty)
        return self.retype(self.pack(pieces), ty)
    def pack(self, pieces):
        if any(isinstance(v, Part) for _, v in pieces):
            out = []
            for n, v in pieces:
                l = out[-1][1] if out else None
                if isinstance(v, Part) and isinstance(l, Part) and l.v is v.v and l.start + l.n == v.start:
                    v = Part(l.v, l.total, l.start, l.n + n)
                    n += out.pop()[0]
                if isinstance(v, Part) and v.start == 0 and v.n == v.total:
                    v = v.v
                out.append((n, v))
            pieces = out
            if len(pieces) == 1:
                return pieces[0][1]
        if any(v is UNDEF for _, v in pieces):
            if all(v is UNDEF for _, v in pieces):
                return UNDEF
            return Bits(pieces)
        if all(isinstance(v, int) or isf(v) for _, v in pieces):
            r = 0
            sh = 0
            for n, v in pieces:
                if isf(v):
                    v = frombits(v, n * 8)
                r |= (v & ((1 << n * 8) - 1)) << sh
                sh += n * 8
            return r
        return Bits(pieces)
    def slice(self, v, total, start, n):
        if start == 0 and n == total:
            return v
        if v is UNDEF:
            return UNDEF
        if isf(v):
            v = frombits(v, total * 8)
        if isinstance(v, int):
            return (v >> (8 * start)) & ((1 << (8 * n)) - 1)
        if isinstance(v, Bits):
            out = []
            q = 0
            for w, x in v.p:
                a, b = max(q, start), min(q + w, start + n)
                if a < b:
                    out.append((b - a, self.slice(x, w, a - q, b - a)))
                q += w
            return out[0][1] if len(out) == 1 else self.pack(out)
        if isinstance(v, Atom):
            return iatom('bytes', v, start, n)
        if isinstance(v, Part):
            return Part(v.v, v.total, v.start + start, n)
        if type(v) is dict or isinstance(v, Ptr):
            return Part(v, total, start, n)
        raise Undecided(f'part of a stored value {type(v).__name__}')
    def retype(self, v, ty):
        k = ty[0]
        if k == 'f':
            if type(v) is float or type(v) is dict or v is UNDEF:
                return v
            if isinstance(v, int):
                return tofloat(v, ty[1])
            if isinstance(v, Bits) and len(v.p) == 1:
                return self.retype(v.p[0][1], ty)
            if isinstance(v, Atom):
                return fatom('bitsf', v)
            raise Undecided(f'{type(v).__name__} reinterpreted as float')
        if k == 'i':
            if isinstance(v, int):
                return v & ((1 << ty[1]) - 1)
            if type(v) is float:
                return frombits(v, ty[1])
            return v              # forms, bits and pointers are carried through integers unchanged
        if k == 'ptr':
            if isinstance(v, int):
                if v == 0: return 0
                return v
            return v
        return v
    def load(self, p, ty):
        ty = self.mod.resolve(ty)
        if ty[0] in ('vec', 'arr'):
            es = self.mod.size(ty[2])
            return [self.load(Ptr(p.o, p.off + i * es) if isinstance(p, Ptr) else p, ty[2]) for i in range(ty[1])]
        if ty[0] == 'struct':
            offs, _ = self.mod.offsets(ty)
            return [self.load(Ptr(p.o, p.off + d) if isinstance(p, Ptr) else p, t) for d, t in zip(offs, ty[1])]
        size = (ty[1] + 7) // 8 if ty[0] in 'if' else 8
        o = self.check(p, size, 'read')
        o.read = True
        return self.load_scalar(o, p.off, size, ty)
    def store(self, p, ty, v):
        ty = self.mod.resolve(ty)
        if ty[0] in ('vec', 'arr'):
            es = self.mod.size(ty[2])
            if v is UNDEF: v = [UNDEF] * ty[1]
            if not isinstance(v, list): raise Undecided(f'store of {type(v).__name__} as vector')
            for i in range(ty[1]):
                self.store(Ptr(p.o, p.off + i * es) if isinstance(p, Ptr) else p, ty[2], v[i])
            return
        if ty[0] == 'struct':
            offs, _ = self.mod.offsets(ty)
            if v is UNDEF: v = [UNDEF] * len(ty[1])
            for d, t, e in zip(offs, ty[1], v):
                self.store(Ptr(p.o, p.off + d) if isinstance(p, Ptr) else p, t, e)
            return
        size = (ty[1] + 7) // 8 if ty[0] in 'if' else 8
        o = self.check(p, size, 'write')
        if isinstance(v, Bits):
            q = p.off
            for n, x in v.p:
                self.put(o, q, n, x)
                q += n
            return
        self.put(o, p.off, size, v)
    def put(self, o, off, size, v):
        if o.kind == 'const':
            raise Defect(f'write to constant {o.name}', self.where())
        self.wr += 1
        if o.written is None:
            o.written = self.cur
        if o.kind == 'global':
            self.events.append(('global-write', o.name, self.cur))
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v, self.cur)
            return
        self.clear(o, off, size)
        cells[off] = (size, v, self.cur)
    def clear(self, o, off, size):
        cells = o.cells
        end = off + size
        for q in range(off - 32, off):
            c = cells.get(q)
            if c is not None and q + c[0] > off:
                del cells[q]
                cells[q] = (off - q, self.slice(c[1], c[0], 0, off - q), c[2])
                if q + c[0] > end:
                    cells[end] = (q + c[0] - end, self.slice(c[1], c[0], end - q, q + c[0] - end), c[2])
        if size > 4 * len(cells):
            hits = [q for q in cells if off <= q < end]
        else:
            hits = [q for q in range(off, end) if q in cells]
        for q in hits:
            c = cells.pop(q)
            if q + c[0] > end:
                cells[end] = (q + c[0] - end, self.slice(c[1], c[0], end - q, q + c[0] - end), c[2])
    def memset(self, p, v, n):
        if n == 0: return
        o = self.check(p, n, 'write')
        if o.kind == 'const':
            raise Defect(f'write to constant {o.name}', self.where())
        if o.written is None: o.written = self.cur
        self.clear(o, p.off, n)
        if v == 0:
            o.zero.append((p.off, p.off + n))
        elif isinstance(v, int):
            for i in range(n):
                o.cells[p.off + i] = (1, v & 255, self.cur)
        else:
            raise Undecided('memset with unknown byte')
    def memcpy(self, d, s, n):
        if n == 0: return
        od = self.check(d, n, 'write')
        os_ = self.check(s, n, 'read')
        os_.read = True
        out = []
        q = s.off
        end = s.off + n
        cells = os_.cells
        offs = sorted(x for x in (range(q - 32, end) if n < 4 * len(cells) else cells) if x in cells and x + cells[x][0] > q and x < end)
        for x in offs:
            w, v, _ = cells[x]
            a, b = max(x, q), min(x + w, end)
            out.append((a - q, b - a, self.slice(v, w, a - x, b - a)))
        zs = [(max(a, q) - q, min(b, end) - q) for a, b in os_.zero if a < end and b > q]
        if od.kind == 'const':
            raise Defect(f'write to constant {od.name}', self.where())
        if od.written is None: od.written = self.cur
        if od.kind == 'global':
            self.events.append(('global-write', od.name, self.cur))
        self.clear(od, d.off, n)
        # the destination range takes over zero ranges of the source: remove its own first
        nz = []
        for a, b in od.zero:
            if b <= d.off or a >= d.off + n:
                nz.append((a, b))
            else:
                if a < d.off: nz.append((a, d.off))
                if b > d.off + n: nz.append((d.off + n, b))
        od.zero = nz + [(a + d.off, b + d.off) for a, b in zs]
        for a, w, v in out:
            od.cells[d.off + a] = (w, v, self.cur)

    # ---------------------------------------------------------------- globals and constants
    def global_obj(self, name):
        o = self.gobj.get(name)
        if o is not None:
            return o
        if name in self.mod.funcs or name in self.mod.decls:
            o = Fn(name)
            self.gobj[name] = o
            return o
        g = self.mod.globals.get(name)
        if g is None:
            return Fn(name)
        const, ty, init = g['const'], g['ty'], g['init']
        if ty is None: raise Undecided('global with an initialiser or kind outside the model: ' + name)
        o = self.new('@' + name, self.mod.size(ty), 'const0' if const else 'global')
        self.gobj[name] = o
        if init is not None:
            self.initialise(o, 0, ty, init)
        if const: o.kind = 'const'
        else: o.kind = 'global'
        return o
    def initialise(self, o, off, ty, v):
        ty = self.mod.resolve(ty)
        if v[0] in ('zero', 'null'):
            o.zero.append((off, off + self.mod.size(ty)))
            return
        if v[0] == 'undef':
            return
        if v[0] == 'vec':
            if ty[0] == 'struct':
                offs, _ = self.mod.offsets(ty)
                for d, t, e in zip(offs, ty[1], v[2]):
                    self.initialise(o, off + d, t, e)
            else:
                es = self.mod.size(ty[2])
                for i, e in enumerate(v[2]):
                    self.initialise(o, off + i * es, ty[2], e)
            return
        x = self.const(v)
        size = (ty[1] + 7) // 8 if ty[0] in 'if' else 8
        o.cells[off] = (size, x, None)
    def const(self, v):
        k = v[0]
        if k == 'c':
            t = v[1]
            if t[0] == 'i':
                return v[2] & ((1 << t[1]) - 1)
            return float(v[2])
        if k == 'null':
            return 0
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero_of(v[1])
        if k == 'vec':
            return [self.const(e) for e in v[2]]
        if k == 'g':
            o = self.global_obj(v[1])
            return o if isinstance(o, Fn) else Ptr(o, 0)
        if k == 'ce':
            op = v[1]
            if op == 'getelementptr':
                return self.gep(v[4], [self.const(a) for _, a in v[3]], [t for t, _ in v[3]])
            if op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                return self.const(v[3][0][1])
        raise Undecided(f'constant {v[:2]}')
    def zero_of(self, t):
        t = self.mod.resolve(t)
        if t[0] == 'i': return 0
        if t[0] == 'f': return 0.0
        if t[0] == 'ptr': return 0
        if t[0] in ('vec', 'arr'): return [self.zero_of(t[2])] * t[1]
        if t[0] == 'struct': return [self.zero_of(e) for e in t[1]]
        raise Undecided('zero')
    def gep(self, bt, args, tys=None):
        p = args[0]
        off = 0
        t = bt
        for i, a in enumerate(args[1:]):
            if not isinstance(a, int):
                if a is UNDEF:
                    raise Defect('address computed from uninitialised memory', self.where())
                raise Undecided('address depends on data')
            w = tys[i + 1][1] if tys and tys[i + 1][0] == 'i' else 64
            if i == 0:
                off += sgn(a, w) * self.mod.size(t)
            else:
                t = self.mod.resolve(t)
                if t[0] == 'struct':
                    off += self.mod.offsets(t)[0][a]
                    t = t[1][a]
                else:
                    t = t[2]
                    off += sgn(a, w) * self.mod.size(t)
        if isinstance(p, Ptr):
            return Ptr(p.o, p.off + off)
        if isinstance(p, int):
            return p + off if p + off == 0 else (p + off) & (2**64 - 1)
        if p is UNDEF:
            return UNDEF
        raise Undecided(f'gep on {type(p).__name__}')

    # ---------------------------------------------------------------- execution of a function body
    def prepare(self, fn):
        pr = self.prep.get(fn.name)
        if pr is None:
            blocks = {}
            for b in fn.blocks:
                phis = [i for i in b.ins if i.op == 'phi']
                rest = [i for i in b.ins if i.op != 'phi']
                blocks[b.label] = ([(i.name, {l: v for v, l in zip(i.args, i.x['labels'])}) for i in phis], rest)
            pr = (fn.blocks[0].label, blocks)
            self.prep[fn.name] = pr
        return pr
    def dominates(self, fn, entry, blocks, a, b):
        """every path from the entry to b passes a (so an edge b -> a closes a loop)"""
        k = (fn.name, a, b)
        r = self.dom.get(k)
        if r is None:
            seen, st = set(), [entry] if entry != a else []
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x)
                t = blocks[x][1][-1]
                ts = list(t.x.get('t', ())) + [l for _, l in t.x.get('cases', ())] + [t.x[q] for q in ('normal', 'unwind') if q in t.x]
                st += [y for y in ts if y != a]
            r = self.dom[k] = b not in seen
        return r
    def call(self, name, args):
        fn = self.mod.funcs.get(name)
        if fn is None or not fn.blocks:
            return self.extern(name, args)
        if name == '__clang_call_terminate':
            raise Defect('exception leaves a noexcept function', self.where())
        m = self.model(name, args)
        if m is not None:
            return m[0]
        self.fnseen.add(name)
        self.depth += 1
        if self.depth > 400:
            raise Undecided('call depth')
        try:
            return self.body(fn, args)
        finally:
            self.depth -= 1
    def model(self, name, args):
        return None
    def body(self, fn, args):
        env = {}
        for (nm, ty, at), a in zip(fn.params, args):
            env[nm] = a
        entry, blocks = self.prepare(fn)
        label, prev = entry, None
        locs = []
        seen = {}
        const = self.const
        try:
            while True:
                phis, rest = blocks[label]
                if phis:
                    vals = []
                    for nm, inc in phis:
                        v = inc[prev]
                        vals.append((nm, env[v[1]] if v[0] == 'l' else const(v)))
                    for nm, v in vals:
                        env[nm] = v
                    old = seen.get(label)
                    if old is not None and old[0] == self.wr and old[1] == vals and self.dominates(fn, entry, blocks, label, prev):
                        raise Defect('a loop never ends: it comes back to the same state', self.where())
                    seen[label] = (self.wr, vals)
                self.steps += len(rest)
                if self.steps > self.limit:
                    raise Undecided('step limit')
                nxt = None
                for ins in rest:
                    op = ins.op
                    self.cur = ins
                    h = OPS.get(op)
                    if h is not None:
                        args_ = [env[a[1]] if a[0] == 'l' else const(a) for a in ins.args]
                        r = h(self, ins, args_)
                        if ins.name is not None:
                            env[ins.name] = r
                        continue
                    if op == 'br':
                        t = ins.x['t']
                        if len(t) == 1:
                            nxt = t[0]
                        else:
                            a = ins.args[0]
                            c = env[a[1]] if a[0] == 'l' else const(a)
                            if type(c) is not int:
                                if c is UNDEF:
                                    raise Defect('control flow depends on uninitialised memory', self.where())
                                if self.val is None: raise Undecided('control flow depends on data at ' + ' <- '.join(self.where()[:3]))
                                c = int(self.val(c))
                            nxt = t[0] if c & 1 else t[1]
                        break
                    if op == 'alloca':
                        cnt = 1
                        if ins.args:
                            a = ins.args[0]
                            cnt = env[a[1]] if a[0] == 'l' else const(a)
                        o = self.new(f'local {ins.name} of {fn.name[:60]}', cnt * self.mod.size(ins.x['aty']), 'stack')
                        locs.append(o)
                        env[ins.name] = Ptr(o, 0)
                        continue
                    if op in ('call', 'invoke'):
                        x = ins.x
                        try:
                            r = self.do_call(ins, env)
                        except Thrown as e:
                            if op == 'invoke':
                                self.exc = e
                                nxt = x['unwind']
                                break
                            raise
                        if ins.name is not None:
                            env[ins.name] = r
                        if op == 'invoke':
                            nxt = x['normal']
                            break
                        continue
                    if op == 'ret':
                        if not ins.args: return None
                        a = ins.args[0]
                        return env[a[1]] if a[0] == 'l' else const(a)
                    if op == 'switch':
                        a = ins.args[0]
                        c = env[a[1]] if a[0] == 'l' else const(a)
                        if type(c) is not int:
                            if c is UNDEF:
                                raise Defect('control flow depends on uninitialised memory', self.where())
                            if self.val is None: raise Undecided('switch depends on data at ' + ' <- '.join(self.where()[:3]))
                            c = int(self.val(c))
                        nxt = ins.x['t'][0]
                        for cv, l in ins.x['cases']:
                            if const(cv) == c:
                                nxt = l
                                break
                        break
                    if op == 'landingpad':
                        env[ins.name] = [Ptr(self.new('exception', 8, 'heap'), 0), 0]
                        continue
                    if op == 'unreachable':
                        if ins.x.get('resume'):
                            raise self.exc
                        raise Defect('unreachable code is reached', self.where())
                    raise Undecided('instruction ' + op)
                prev, label = label, nxt
        finally:
            for o in locs:
                o.freed = True
    def do_call(self, ins, env):
        self.wr += 1
        x = ins.x
        cal = x['callee']
        const = self.const
        args = [env[a[1]] if a[0] == 'l' else (None if a[0] == 'undef' and a[1] == ('metadata',) else const(a)) for a in ins.args]
        if cal[0] == 'g':
            name = cal[1]
        elif cal[0] == 'l':
            f = env[cal[1]]
            if not isinstance(f, Fn):
                raise Undecided('indirect call')
            name = f.name
        else:
            raise Undecided('inline assembly')
        # by-value aggregates are copied
        for i, at in enumerate(x.get('attrs') or ()):
            if at and 'byval' in at:
                p = args[i]
                if isinstance(p, Ptr):
                    n = self.mod.size(byval_type(self.mod, at['byval']))
                    o = self.new('byval copy', n, 'stack')
                    self.memcpy(Ptr(o, 0), p, n)
                    args[i] = Ptr(o, 0)
        if name.startswith('llvm.'):
            return self.intrinsic(name, ins, args)
        fn = self.mod.funcs.get(name)
        if fn is not None and fn.blocks:
            r = self.call(name, args)
        else:
            r = self.extern(name, args)
        self.cur = ins
        return r

    # ---------------------------------------------------------------- external functions
    def extern(self, name, args):
        if name in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', 'aligned_alloc'):
            n = args[0] if name != 'aligned_alloc' else args[1]
            if not isinstance(n, int): raise Undecided('allocation size')
            if n > 1 << 40: raise Thrown('std::bad_alloc')
            self.allocs += 1
            o = self.new(f'heap block {self.allocs} ({n} bytes)', n, 'heap')
            self.events.append(('alloc', n, self.cur))
            return Ptr(o, 0)
        if name == 'calloc':
            self.allocs += 1
            self.events.append(('alloc', args[0] * args[1], self.cur))
            return Ptr(self.new(f'heap block {self.allocs}', args[0] * args[1], 'heap', True), 0)
        if name.startswith('_Zdl') or name.startswith('_Zda') or name == 'free':
            p = args[0]
            if p == 0: return None
            if not isinstance(p, Ptr): raise Defect('release of an uninitialised pointer', self.where())
            if p.o.kind == 'exc': return None
            if p.o.freed: raise Defect('double release of ' + p.o.name, self.where())
            if p.off != 0 or p.o.kind != 'heap': raise Defect('release of a pointer that was not allocated', self.where())
            p.o.freed = True
            self.deletes += 1
            self.events.append(('free', p.o.size, self.cur))
            return None
        if name == '__cxa_allocate_exception':
            return Ptr(self.new('exception', args[0], 'exc'), 0)
        if name == '__cxa_free_exception':
            return None
        if name == '__cxa_throw':
            t = args[1]
            raise Thrown(t.o.name if isinstance(t, Ptr) else repr(t))
        if EXC.match(name):
            return None
        if name.startswith('_ZSt') and '__throw_' in name:
            raise Thrown(name)
        if name in ('__clang_call_terminate', '_ZSt9terminatev', 'abort', '_ZSt21__glibcxx_assert_failPKciS0_S0_', '__assert_fail'):
            raise Defect(f'{name} is reached', self.where())
        if name == '__cxa_guard_acquire':
            o = self.check(args[0], 1, 'read')
            return 0 if o.cells.get(args[0].off, (1, 0, None))[1] else 1
        if name == '__cxa_guard_release':
            o = args[0].o
            o.cells[args[0].off] = (1, 1, None)
            return None
        if name in ('__cxa_atexit', '__cxa_guard_abort', '__cxa_end_catch'):
            return 0
        if name in ('memset', 'memcpy', 'memmove'):
            (self.memset if name == 'memset' else self.memcpy)(*args[:3])
            return args[0]
        if name == 'strlen':
            p = args[0]
            n = 0
            while self.load(Ptr(p.o, p.off + n), ('i', 8)) != 0: n += 1
            return n
        if name in ('cexp', 'cexpf', 'clog', 'clogf', 'csqrt', 'csqrtf', 'csin', 'ccos'):
            import cmath
            v = args[0] if isinstance(args[0], list) else args
            fn = getattr(cmath, name[1:].rstrip('f') if name != 'cexpf' else 'exp')
            if isf(v[0]) and isf(v[1]):
                z = fn(complex(v[0], v[1]))
                return [z.real, z.imag]
            return [fatom(name, 're', v[0], v[1]), fatom(name, 'im', v[0], v[1])]
        if name in ('lround', 'lroundf', 'llround', 'llroundf', 'lrint', 'lrintf'):
            if isf(args[0]):
                x = args[0]
                return int(math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)) & (2**64 - 1) if 'lround' in name else round(x) & (2**64 - 1)
            return iatom(name.rstrip('f'), args[0])
        m = self.mathfn(name, args)
        if m is not None:
            return m
        if name in ('_ZNSt6chrono3_V212system_clock3nowEv', '_ZNSt6chrono3_V212steady_clock3nowEv'):
            self.clock = getattr(self, 'clock', 0) + 1000000
            return self.clock
        if name in ('cabsf', 'cabs') and len(args) <= 2:
            a = args[0] if len(args) == 1 else args
            return self.m2('hypot', a[0], a[1])
        raise Undecided('call of ' + name)
    def mathfn(self, name, args):
        base = name
        if base in ('sincos', 'sincosf'):
            raise Undecided('sincos')
        if base in ('__mulsc3', '__muldc3'):
            raise Undecided('complex multiply runtime')
        for cand in (base, base[:-1] if base.endswith('f') or base.endswith('l') else base):
            if cand in MATH1 and len(args) == 1:
                return self.m1(cand, args[0])
            if cand in MATH2 and len(args) == 2:
                return self.m2(cand, args[0], args[1])
            if cand in ('fma',):
                return fadd(fmul(args[0], args[1]), args[2])
        return None
    def m1(self, f, a):
        if isinstance(a, list): return [self.m1(f, x) for x in a]
        if isf(a):
            try: return float(MATH1[f](a))
            except (ValueError, OverflowError): return math.nan
        return fatom(f, a)
    def m2(self, f, a, b):
        if isinstance(a, list): return [self.m2(f, x, y) for x, y in zip(a, b)]
        if isf(a) and isf(b):
            try: return float(MATH2[f](a, b))
            except (ValueError, OverflowError, ZeroDivisionError): return math.nan
        return fatom(f, a, b)
    def intrinsic(self, name, ins, args):
        p = name.split('.')
        k = p[1]
        if k in ('lifetime', 'dbg', 'assume', 'experimental', 'invariant', 'donothing', 'prefetch', 'stackrestore', 'var'):
            return None
        if k == 'stacksave': return 0
        if k in ('memcpy', 'memmove'):
            if not isinstance(args[2], int): raise Undecided('length of a copy')
            self.memcpy(args[0], args[1], args[2]); return None
        if k == 'memset':
            if not isinstance(args[2], int): raise Undecided('length of a fill')
            self.memset(args[0], args[1], args[2]); return None
        if k in ('umax', 'umin', 'smax', 'smin', 'abs', 'ctlz', 'cttz', 'ctpop', 'bswap', 'usub', 'uadd', 'umul', 'sadd', 'ssub', 'smul', 'fshl', 'fshr', 'bitreverse'):
            return self.intint(k, p, ins, args)
        if k in ('expect', 'launder', 'strip', 'ssa', 'annotation', 'ptr'):
            return args[0]
        if k == 'is': return iatom(name, *[a for a in args if a is not None])
        if k == 'objectsize': return (1 << 64) - 1
        if k == 'trap': raise Defect('trap is reached', self.where())
        if k in ('fma', 'fmuladd'):
            if isinstance(args[0], list): return [fadd(fmul(a, b), c) for a, b, c in zip(*args[:3])]
            return fadd(fmul(args[0], args[1]), args[2])
        if k in ('lround', 'llround', 'lrint', 'llrint') and not isinstance(args[0], list): return self.extern(k, args)
        if k in MATH1: return self.m1(k, args[0])
        if k in MATH2: return self.m2(k, args[0], args[1])
        if k == 'powi':
            if isf(args[0]): return args[0] ** sgn(args[1], 32)
        if k == 'eh': return 1
        if k == 'vector' and p[2] == 'reduce':
            if p[3] == 'fadd':
                r = args[0]
                for x in args[1]: r = fadd(r, x)
                return r
        if k == 'x86':
            r = self.x86(name, args)
            if r is not None: return r
        raise Undecided('intrinsic ' + name)
    def x86(self, name, args):
        if 'addsub' in name:
            return [fadd(a, b, 1.0 if i & 1 else -1.0) for i, (a, b) in enumerate(zip(args[0], args[1]))]
        return None
    def intint(self, k, p, ins, args):
        t = ins.ty
        if t[0] == 'vec':
            return [self.intint1(k, p, t[2], [a[i] if isinstance(a, list) else a for a in args]) for i in range(t[1])]
        return self.intint1(k, p, t, args)
    def intint1(self, k, p, t, args):
        if any(a is UNDEF for a in args): return UNDEF
        if not all(isinstance(a, int) for a in args):
            return iatom(k, str(p[2:]), *args)
        if k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and p[2] == 'with':
            w = int(p[-1][1:])
            a, b = args
            f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[k[1:]]
            if k[0] == 'u':
                r = f(a, b)
                return [r & ((1 << w) - 1), int(r < 0 or r >> w != 0)]
            r = f(sgn(a, w), sgn(b, w))
            return [r & ((1 << w) - 1), int(not -(1 << w - 1) <= r < 1 << w - 1)]
        w = t[1]
        M = (1 << w) - 1
        if k in ('uadd', 'usub', 'sadd', 'ssub'):    # saturating
            a, b = args
            if k == 'usub': return max(0, a - b)
            if k == 'uadd': return min(M, a + b)
            r = sgn(a, w) + sgn(b, w) * (1 if k == 'sadd' else -1)
            return max(-(1 << w - 1), min((1 << w - 1) - 1, r)) & M
        a = args[0]
        if k == 'umax': return max(a, args[1])
        if k == 'umin': return min(a, args[1])
        if k == 'smax': return max(a, args[1], key=lambda x: sgn(x, w))
        if k == 'smin': return min(a, args[1], key=lambda x: sgn(x, w))
        if k == 'abs': return abs(sgn(a, w)) & M
        if k == 'ctlz': return w - a.bit_length()
        if k == 'cttz': return w if a == 0 else (a & -a).bit_length() - 1
        if k == 'ctpop': return bin(a).count('1')
        if k == 'bswap': return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
        if k == 'bitreverse': return int(bin(a)[2:].zfill(w)[::-1], 2)
        if k in ('fshl', 'fshr'):
            s = args[2] % w
            c = (a << w) | args[1]
            return ((c << s) >> w) & M if k == 'fshl' else (c >> s) & M
        raise Undecided(k)

def byval_type(mod, toks):
    from llparse import P, tokenize
    s = ' '.join(toks)
    return P(tokenize(s), mod, s).type()

# -------------------------------------------------------------------- instruction semantics
def vecwise(f):
    def g(I, ins, a):
        t = ins.ty
        if t[0] == 'vec':
            n = t[1]
            cols = [x if isinstance(x, list) else [UNDEF] * n if x is UNDEF else None for x in a]
            if any(c is None for c in cols): raise Undecided('vector operand')
            return [f(I, ins, [c[i] for c in cols], t[2]) for i in range(n)]
        return f(I, ins, a, t)
    return g
def iop(op):
    def f(I, ins, a, t):
        x, y = a
        w = t[1]
        M = (1 << w) - 1
        if type(x) is int and type(y) is int:
            if op == 'add': return (x + y) & M
            if op == 'sub': return (x - y) & M
            if op == 'mul': return (x * y) & M
            if op == 'and': return x & y
            if op == 'or': return x | y
            if op == 'xor': return x ^ y
            if op in ('shl', 'lshr', 'ashr') and y >= w: return UNDEF
            if op == 'shl': return (x << y) & M
            if op == 'lshr': return x >> y
            if op == 'ashr': return (sgn(x, w) >> y) & M
            if y == 0: raise Defect('integer division by zero', I.where())
            if op == 'udiv': return x // y
            if op == 'urem': return x % y
            sx, sy = sgn(x, w), sgn(y, w)
            q = abs(sx) // abs(sy)
            if (sx < 0) != (sy < 0): q = -q
            if op == 'sdiv': return q & M
            if op == 'srem': return (sx - q * sy) & M
        if x is UNDEF or y is UNDEF:
            if op == 'and' and (x == 0 or y == 0): return 0
            if op == 'mul' and (x == 0 or y == 0): return 0
            return UNDEF
        if op in ('and', 'or') and type(x) is int: x, y = y, x
        if type(y) is int:
            if y == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return x
            if op == 'and' and y == M: return x
            if op == 'and' and y == 0 or op == 'mul' and y == 0: return 0
        if isinstance(x, Ptr):
            if isinstance(y, Ptr):
                if op == 'sub' and x.o is y.o: return (x.off - y.off) & M
            elif type(y) is int:
                if op == 'add': return Ptr(x.o, x.off + sgn(y, w))
                if op == 'sub': return Ptr(x.o, x.off - sgn(y, w))
                if op == 'and' and y < 16: return x.off & y          # objects are 16-byte aligned
                if op == 'and' and (M - y) < 16: return Ptr(x.o, x.off & ~(M - y))
        if isinstance(y, Ptr) and type(x) is int and op == 'add': return Ptr(y.o, y.off + sgn(x, w))
        if (isinstance(x, (Bits, Part)) or type(x) is dict and op == 'lshr') and type(y) is int and w % 8 == 0:
            if op == 'lshr' and y % 8 == 0:
                n = w // 8
                k = y // 8
                hi = I.slice(x, n, k, n - k)
                pieces = hi.p if isinstance(hi, Bits) else [(n - k, hi)]
                return I.pack(list(pieces) + [(k, 0)])
            if op == 'shl' and y % 8 == 0:
                n = w // 8
                k = y // 8
                lo = I.slice(x, n, 0, n - k)
                pieces = lo.p if isinstance(lo, Bits) else [(n - k, lo)]
                return I.pack([(k, 0)] + list(pieces))
            if op == 'and':
                return iatom(op, x, y)
        if type(x) is dict and type(y) is int and op == 'shl' and y % 8 == 0:
            return iatom(op, x, y)
        if isinstance(x, Bits) and isinstance(y, Bits) and op == 'or':
            r = merge_or(I, x, y)
            if r is not None: return r
        return iatom(op, str(w), x, y)
    return vecwise(f)
def merge_or(I, x, y):
    n = sum(k for k, _ in x.p)
    bounds = sorted({0, n} | set(acc(x.p)) | set(acc(y.p)))
    out = []
    for a, b in zip(bounds, bounds[1:]):
        u, v = I.slice(x, n, a, b - a), I.slice(y, n, a, b - a)
        if u == 0 and type(u) is int: out.append((b - a, v))
        elif v == 0 and type(v) is int: out.append((b - a, u))
        else: return None
    return I.pack(out)
def acc(p):
    q = 0
    for w, _ in p:
        q += w
        yield q
def fop(op):
    def f(I, ins, a, t):
        x, y = a
        if op == 'fadd': return fadd(x, y)
        if op == 'fsub': return fadd(x, y, -1.0)
        if op == 'fmul': return fmul(x, y)
        if x is UNDEF or y is UNDEF: return UNDEF
        if op == 'fdiv':
            if isf(y):
                if y == 0.0:
                    if isf(x): return math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y)
                    return fatom('div0', x)
                return x / y if isf(x) else fmul(x, 1.0 / y)
            if isf(x) and x == 0.0: return 0.0
            return fmul(x, fatom('inv', y))
        if op == 'frem':
            if isf(x) and isf(y): return math.fmod(x, y) if y else math.nan
            return fatom('frem', x, y)
    return vecwise(f)
def op_fneg(I, ins, a, t):
    return fneg(a[0])
ICMP = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'ult': lambda x, y: x < y, 'ule': lambda x, y: x <= y, 'ugt': lambda x, y: x > y, 'uge': lambda x, y: x >= y}
def icmp1(I, pr, x, y, t):
    if x is UNDEF or y is UNDEF: return UNDEF
    if type(x) is int and type(y) is int:
        if pr[0] == 's':
            w = t[1] if t[0] == 'i' else 64
            return int(ICMP['u' + pr[1:]](sgn(x, w), sgn(y, w)))
        return int(ICMP[pr](x, y))
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        if x.o is y.o: return int(ICMP[pr if pr[0] != 's' else 'u' + pr[1:]](x.off, y.off))
        if pr in ('eq', 'ne'): return int(pr == 'ne')
    if isinstance(x, (Ptr, Fn)) and type(y) is int and y == 0:
        return int(pr in ('ne', 'ugt', 'uge'))
    if isinstance(y, (Ptr, Fn)) and type(x) is int and x == 0:
        return int(pr in ('ne', 'ult', 'ule'))
    if isinstance(x, Fn) and isinstance(y, Fn) and pr in ('eq', 'ne'):
        return int((x.name == y.name) == (pr == 'eq'))
    if I.val is not None and t[0] == 'i' and not isinstance(x, Ptr) and not isinstance(y, Ptr):
        a, b = I.val(x), I.val(y)
        if type(a) is int and type(b) is int: return icmp1(I, pr, a & ((1 << t[1]) - 1), b & ((1 << t[1]) - 1), t)
    return iatom('icmp', pr, x, y)
def op_icmp(I, ins, a):
    t = ins.x['src']
    pr = ins.x['pred']
    if t[0] == 'vec': return [icmp1(I, pr, x, y, t[2]) for x, y in zip(*a)]
    return icmp1(I, pr, a[0], a[1], t)
def fcmp1(I, pr, x, y):
    if x is UNDEF or y is UNDEF: return UNDEF
    if pr == 'true': return 1
    if pr == 'false': return 0
    if isf(x) and isf(y):
        un = x != x or y != y
        if pr == 'ord': return int(not un)
        if pr == 'uno': return int(un)
        if un: return int(pr[0] == 'u')
        return int(ICMP[{'eq': 'eq', 'ne': 'ne', 'lt': 'ult', 'le': 'ule', 'gt': 'ugt', 'ge': 'uge'}[pr[1:]]](x, y))
    if pr == 'uno' and key(x) == key(y): return 0
    if pr == 'ord' and key(x) == key(y): return 1
    if I.val is not None: return fcmp1(I, pr, float(I.val(x)), float(I.val(y)))
    return iatom('fcmp', pr, x, y)
def op_fcmp(I, ins, a):
    t = ins.x['src']
    if t[0] == 'vec': return [fcmp1(I, ins.x['pred'], x, y) for x, y in zip(*a)]
    return fcmp1(I, ins.x['pred'], a[0], a[1])
def op_select(I, ins, a):
    c, x, y = a
    if isinstance(c, list): return [sel(I, k, p, q, ins.ty[2]) for k, p, q in zip(c, x, y)]
    return sel(I, c, x, y, ins.ty)
def sel(I, c, x, y, ty):
    if type(c) is int: return x if c & 1 else y
    if c is UNDEF: return UNDEF
    if key(x) == key(y): return x
    if I.val is not None: return x if int(I.val(c)) & 1 else y
    if isinstance(x, list): return [sel(I, c, p, q, ty[2] if ty[0] in ('vec', 'arr') else ('?',)) for p, q in zip(x, y)]
    if isinstance(x, (Ptr, Fn)) or isinstance(y, (Ptr, Fn)): raise Undecided('pointer depends on data')
    if type(x) in (float, dict) or type(y) in (float, dict): return fatom('select', c, x, y)
    return iatom('select', c, x, y)
def cast(op):
    def f(I, ins, a, t):
        x = a[0]
        if x is UNDEF: return UNDEF
        s = ins.x['src']
        if s[0] == 'vec': s = s[2]
        if op in ('zext', 'sext', 'trunc'):
            if type(x) is int:
                if op == 'sext': x = sgn(x, s[1])
                return x & ((1 << t[1]) - 1)
            if isinstance(x, (Bits, Part)) or type(x) is dict:
                n, m = s[1] // 8, t[1] // 8
                if op == 'trunc': return I.slice(x, n, 0, m) if s[1] % 8 == 0 and t[1] % 8 == 0 else iatom(op, x)
                if op == 'zext':
                    return I.pack((list(x.p) if isinstance(x, Bits) else [(n, x)]) + [(m - n, 0)])
            if isinstance(x, Ptr): raise Undecided('narrowed pointer')
            return iatom(op, str(s[1]), str(t[1]), x)
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast'): return x
        if op in ('fpext', 'fptrunc'):
            return x
        if op in ('sitofp', 'uitofp'):
            if type(x) is int: return float(sgn(x, s[1]) if op == 'sitofp' else x)
            return fatom(op, x)
        if op in ('fptosi', 'fptoui'):
            if isf(x):
                if x != x or abs(x) == math.inf: return UNDEF
                v = int(x)
                w = t[1]
                lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if op == 'fptosi' else (0, (1 << w) - 1)
                if not lo <= v <= hi: raise Defect(f'conversion of {x} to a {w}-bit integer overflows', I.where())
                return v & ((1 << w) - 1)
            return iatom(op, str(t[1]), x)
    return vecwise(f)
def op_bitcast(I, ins, a):
    s, t = ins.x['src'], ins.ty
    x = a[0]
    if x is UNDEF: return UNDEF
    if s[0] == 'vec' or t[0] == 'vec':
        es = s[2] if s[0] == 'vec' else s
        pieces = []
        for e in (x if isinstance(x, list) else [x]):
            w = (es[1] if es[0] in 'if' else 64) // 8
            if w == 0: raise Undecided('bit vector cast')
            if isinstance(e, Bits): pieces += e.p
            else: pieces.append((w, e))
        whole = I.pack(pieces)
        n = sum(w for w, _ in pieces)
        et = t[2] if t[0] == 'vec' else t
        w = (et[1] if et[0] in 'if' else 64) // 8
        if w == 0: raise Undecided('bit vector cast')
        r = [I.retype(I.slice(whole, n, i, w), et) for i in range(0, n, w)]
        return r if t[0] == 'vec' else r[0]
    return I.retype(x, t)
def op_load(I, ins, a):
    return I.load(a[0], ins.ty)
def op_store(I, ins, a):
    I.store(a[1], ins.ty, a[0])
def op_gep(I, ins, a):
    return I.gep(ins.x['bt'], a, ins.x['tys'])
def op_extractvalue(I, ins, a):
    v = a[0]
    for i in ins.x['idx']:
        if v is UNDEF: return UNDEF
        v = v[i]
    return v
def op_insertvalue(I, ins, a):
    v, e = a
    def rec(v, idx, t):
        t = I.mod.resolve(t)
        n = len(t[1]) if t[0] == 'struct' else t[1]
        v = [UNDEF] * n if v is UNDEF else list(v)
        if len(idx) == 1: v[idx[0]] = e
        else: v[idx[0]] = rec(v[idx[0]], idx[1:], t[1][idx[0]] if t[0] == 'struct' else t[2])
        return v
    return rec(v, ins.x['idx'], ins.ty)
def op_extractelement(I, ins, a):
    if a[0] is UNDEF: return UNDEF
    if type(a[1]) is not int: raise Undecided('lane depends on data')
    return a[0][a[1]]
def op_insertelement(I, ins, a):
    v = [UNDEF] * ins.ty[1] if a[0] is UNDEF else list(a[0])
    v[a[2]] = a[1]
    return v
def op_shuffle(I, ins, a):
    n = ins.x['src'][1]
    x = a[0] if isinstance(a[0], list) else [UNDEF] * n
    y = a[1] if isinstance(a[1], list) else [UNDEF] * n
    z = x + y
    return [UNDEF if m is None else z[m] for m in ins.x['mask']]
OPS = {k: iop(k) for k in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem')}
OPS.update({k: fop(k) for k in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem')})
OPS.update({k: cast(k) for k in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'addrspacecast', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui')})
OPS.update(fneg=vecwise(op_fneg), icmp=op_icmp, fcmp=op_fcmp, select=op_select, bitcast=op_bitcast, load=op_load, store=op_store, getelementptr=op_gep,
           extractvalue=op_extractvalue, insertvalue=op_insertvalue, extractelement=op_extractelement, insertelement=op_insertelement, shufflevector=op_shuffle,
           freeze=lambda I, ins, a: a[0])

def showform(v, n=6):
    if type(v) is not dict: return repr(v)
    t = sorted(v.items(), key=lambda x: -abs(x[1]))[:n]
    s = ' '.join(f'{c:+.4g}' + (''.join('*' + symname(d) for d in mono_digits(m))) for m, c in t)
    return s + (' ...' if len(v) > n else '')
def symname(d):
    s = SYM[d]
    return s if isinstance(s, str) else 'atom%d' % d
def close(a, b, tol):
    """equality of two forms up to tol per coefficient"""
    if a is UNDEF or b is UNDEF: return False
    if type(a) is float and type(b) is float:
        return abs(a - b) <= tol
    if type(a) not in (float, dict) or type(b) not in (float, dict): return False
    if type(a) is float: a = {0: a}
    if type(b) is float: b = {0: b}
    for m in a.keys() | b.keys():
        d = a.get(m, 0.0) - b.get(m, 0.0)
        if not abs(d) <= tol: return False
    return True

"""Checks that compare the polynomial forms computed by the abstract interpreter (absint) with a specification, case by case."""
import os, re, sys, time, math, cmath, hashlib, traceback, multiprocessing
from concurrent.futures import ProcessPoolExecutor
import build, narrow, absint as A
from absint import Ptr, UNDEF, Undecided, Defect, Thrown, sym, symid, fadd, fmul
from llparse import parse_module, IRError
F32, F64 = ('f', 32), ('f', 64)
I8, I16, I32, I64 = ('i', 8), ('i', 16), ('i', 32), ('i', 64)

KEEP = None     # when set, only the symbols with these indices are present, all other inputs are zero
def sym(name):
    if KEEP is not None:
        m = re.search(r'(\d+)$', name)
        if m and name[:m.start()] not in FREE and int(m.group(1)) not in KEEP: return 0.0
    return A.sym(name)
FREE = ()       # names of arrays KEEP does not apply to
def only(at, f, free=()):
    """the case f with inputs that are zero except at the given indices"""
    at = frozenset(at)
    def g(I):
        global KEEP, FREE
        KEEP, FREE = at, free
        try: f(I)
        finally: KEEP, FREE = None, ()
    return g
def few(n):
    return sorted({1, n // 3, n // 2, n // 2 + 1, n - 2, 2 * n // 3})

def pure(v):
    """no opaque operations: a polynomial in the inputs"""
    return type(v) is float or type(v) is dict and all(isinstance(A.SYM[d], str) for m in v for d in A.mono_digits(m))
class Valuation(dict):
    """generic values of the symbols: no two related (mode 0); some zero, some equal (mode 1)"""
    def __init__(self, seed, mode):
        super().__init__()
        self.seed, self.mode = seed, mode
    def __missing__(self, name):
        h = hashlib.sha256(f'{self.seed} {name}'.encode()).digest()
        x = (int.from_bytes(h[:6], 'little') / 2**48 * 2 + 0.05) * (1 if h[7] & 1 else -1)
        if self.mode and h[8] % 3 == 0: x = 0.0
        elif self.mode and h[8] % 3 == 1: x = 1.0 if h[9] & 1 else 0.5
        self[name] = x
        return x

class Mismatch(Exception):
    def __init__(self, msg, lines=()):
        super().__init__(msg)
        self.lines = list(lines)

class Ctx(A.Interp):
    """one case: inputs are arrays of symbols, outputs are compared with forms"""
    def __init__(self, mod, **kw):
        super().__init__(mod, **kw)
        self.ob = 0
        self.ety = {}
        self.marks = []
        self.verdict = 'proved'
    def arr(self, name, ety, n):
        v = [sym(f'{name}{i}') for i in range(n)] if isinstance(n, int) else list(n)
        o = self.array(name, ety, v)
        self.ety[id(o)] = ety
        o.kind = 'arg'
        return o
    def sparse(self, name, ety, n, at):
        """an input that is zero except for symbols at some positions"""
        at = set(at)
        return self.arr(name, ety, [sym(f'{name}{i}') if i in at else 0.0 for i in range(n)])
    def buf(self, name, ety, n):
        o = self.array(name, ety, [UNDEF] * n)
        self.ety[id(o)] = ety
        return o
    def extern(self, name, args):
        if name == 'mark':
            self.marks.append((args[0], len(self.events)))
            self.events.append(('mark', args[0], None))
            return None
        if name == 'vendor_misuse': raise Defect(f'a vendor function is called with arguments it refuses (stand-in check {args[0]})')
        return super().extern(name, args)
    def at(self, o, i):
        t = self.ety[id(o)]
        s = t[1] // 8
        return self.load_scalar(o, i * s, s, t)
    def call(self, name, args):
        if self.depth == 0:
            args = [Ptr(a, 0) if isinstance(a, A.Obj) else (a & (2**64 - 1) if isinstance(a, int) and a < 0 else a) for a in args]
            fn = self.mod.funcs.get(name)
            if fn is None: raise Undecided('driver function ' + name + ' is missing')
            args = [a & ((1 << p[1][1]) - 1) if isinstance(a, int) and p[1][0] == 'i' else a for a, p in zip(args, fn.params)]
        for rx, stub in self.redirect:
            if re.search(rx, name) and len(self.mod.funcs[stub].params) == len(args): name = stub; break
        return super().call(name, args)
    redirect = ()
    def want(self, o, i, form, tol=1e-5, what=''):
        """element i of object o must equal the form"""
        self.ob += 1
        if isinstance(form, int): form = float(form)
        v = self.at(o, i)
        if isinstance(v, int): v = float(v)
        if not self.agree(v, form, tol):
            c = o.cells.get(i * self.ety[id(o)][1] // 8)
            w = self.where(c[2]) if c and c[2] is not None else []
            got = 'uninitialised' if v is UNDEF else A.showform(v)
            raise Mismatch(f'{what or o.name}[{i}] = {got}, specified {A.showform(form)}', w)
    byvalue = False
    def agree(self, v, form, tol):
        if self.byvalue: return self.agree_at(v, form)
        if A.close(v, form, tol): return True
        if v is UNDEF or form is UNDEF or pure(v) and pure(form) or type(v) not in (float, dict) or type(form) not in (float, dict): return False
        if self.val is None: raise Undecided('the result is not a polynomial in the inputs')
        return self.agree_at(v, form)
    def agree_at(self, v, form):
        if v is UNDEF or form is UNDEF: return False
        x, y = self.val(v), self.val(form)
        return x == y or abs(x - y) <= 1e-3 * (1 + abs(y)) or x != x and y != y
    def wants(self, o, forms, tol=1e-5, what=''):
        for i, f in enumerate(forms):
            self.want(o, i, f, tol, what)
    def unwritten(self, o, what=''):
        self.ob += 1
        if o.written is not None:
            raise Mismatch(f'{what or o.name} is written although it is an input', self.where(o.written))
    def claim(self, c, msg):
        self.ob += 1
        if not c: raise Mismatch(msg)
    def between(self, a, b):
        """events between mark a and mark b"""
        out, on = [], False
        for e in self.events:
            if e[0] == 'mark':
                on = e[1] >= a and e[1] < b
                continue
            if on: out.append(e)
        return out

# ---- specifications
def add(*v):
    r = 0.0
    for x in v: r = fadd(r, x)
    return r
def conv(x, h, n=None):
    """full linear convolution of two lists of forms, first n outputs"""
    m = len(x) + len(h) - 1
    n = m if n is None else n
    hz = [j for j in range(len(h)) if not (type(h[j]) is float and h[j] == 0.0)]
    out = []
    for k in range(n):
        r = {}
        for j in hz:
            if 0 <= k - j < len(x) and type(x[k - j]) is dict:
                for mo, c in A_items(fmul(x[k - j], h[j])):
                    r[mo] = r.get(mo, 0.0) + c
        out.append(A.norm(r) if r else 0.0)
    return out
def A_items(v):
    return v.items() if isinstance(v, dict) else [(0, v)]
def S(name, n):
    return [sym(f'{name}{i}') for i in range(n)]
def Z(name, n, stride=1):
    """interleaved complex symbols"""
    return [(sym(f'{name}{2 * i * stride}'), sym(f'{name}{2 * i * stride + 1}')) for i in range(n)]
def cmulc(z, w):
    return (add(fmul(z[0], w.real), fmul(z[1], -w.imag)), add(fmul(z[0], w.imag), fmul(z[1], w.real)))
def lin(pairs):
    r = {}
    for z, c in pairs:
        if type(z) is float and z == 0.0: continue
        for mo, k in A_items(z):
            r[mo] = r.get(mo, 0.0) + k * c
    return A.norm(r)
_tw = {}
def tw(n):
    t = _tw.get(n)
    if t is None: t = _tw[n] = [cmath.exp(-2j * math.pi * k / n) for k in range(n)]
    return t
def dft(z, dir=1):
    """unnormalised discrete Fourier transform of complex forms (dir -1: backward)"""
    n = len(z)
    w = tw(n) if n else []
    out = []
    nz = [j for j in range(n) if not (z[j][0] == 0.0 and z[j][1] == 0.0)]
    for k in range(n):
        re, im = [], []
        for j in nz:
            c = w[(j * k * dir) % n]
            re += [(z[j][0], c.real), (z[j][1], -c.imag)]
            im += [(z[j][0], c.imag), (z[j][1], c.real)]
        out.append((lin(re), lin(im)))
    return out

# ---- running
WIDTHS = ('csr2.cpp', 'fft.cpp', 'transforms.cpp', 'conv.cpp', 'compressed.cpp')
_CASES = []
_MODS = {}
def run_case(i):
    import check
    return check.run_in_thread(_run_case, i)
BUDGET = 600        # seconds of wall time after which remaining cases are left undecided
_STOP = None
def _run_case(i):
    name, modkey, f = _CASES[i]
    if _STOP is not None and time.time() > _STOP: return dict(name=name, status='unknown', detail='time budget', points=0, instructions=0, loops=0, time=0)
    mod = _MODS[modkey]
    A.reset()
    I = Ctx(mod)
    t = time.time()
    r = dict(name=name)
    try:
        f(I)
        r.update(status=I.verdict, detail='')
    except Mismatch as e:
        r.update(status='refuted', detail=str(e), lines=lines(e.lines))
    except Defect as e:
        r.update(status='refuted', detail=str(e), lines=lines(e.loc))
    except Thrown as e:
        r.update(status='refuted', detail=f'exception {e.what} is thrown', lines=lines(I.where()))
    except (Undecided, IRError) as e:
        r.update(status='unknown', detail=str(e) + ' | ' + ' <- '.join(lines(I.where())[:3]))
    except RecursionError:
        r.update(status='unknown', detail='recursion limit')
    except Exception as e:
        r.update(status='unknown', detail=f'internal: {e!r} {traceback.format_exc()[-500:]}')
    if r['status'] == 'unknown' and 'step limit' not in r['detail'] and not os.environ.get('NOGEN'):
        r2 = generic(name, mod, f)
        if r2 is not None: r.update(r2)
    r['fns'] = (modkey, frozenset(I.fnseen))
    r.update(points=I.ob, instructions=I.steps, loops=0, time=round(time.time() - t, 2))
    return r
def generic(name, mod, f):
    """control flow or results depend on comparisons of data: follow the paths of some valuations of the symbols; along each, the forms must agree
    (as polynomials where the valuation is generic, at the valuation where it is degenerate)"""
    good = 0
    for seed, mode in ((1, 0), (2, 0), (3, 0), (4, 1), (5, 1), (6, 1), (7, 1)):
        if _STOP is not None and time.time() > _STOP: return None
        A.reset()
        I = Ctx(mod)
        env = Valuation(seed, mode)
        I.val = lambda v: value(v, env)
        I.byvalue = bool(mode)
        try:
            f(I)
            good += 1
        except Mismatch as e:
            return dict(status='refuted', detail=str(e) + ' (on the path of one valuation of the data)', lines=lines(e.lines))
        except Defect as e:
            return dict(status='refuted', detail=str(e) + ' (on the path of one valuation of the data)', lines=lines(e.loc))
        except Thrown as e:
            return dict(status='refuted', detail=f'exception {e.what} is thrown (on the path of one valuation of the data)', lines=lines(I.where()))
        except Exception as e:
            if os.environ.get('SHOW') == '2': print(name, 'generic', seed, repr(e)[:200])
            continue
    return dict(status='held', detail='') if good >= 4 else None
def lines(l):
    l2 = [x.replace(build.REPO + '/', '') for x in l if build.REPO in x]
    return l2 or list(l)
def compile_job(k):
    drv, cfg, defs = k
    wd = build.scratch()
    try:
        return build.compile_ll(os.path.join(build.ROOT, 'drivers', drv), cfg, wd, defs, api='d_*', ndebug=False, exceptions=True, inline=2000)
    except build.BuildError as e:
        return e
    finally:
        import shutil
        shutil.rmtree(wd, True)

def run(c, cases, expect=0):
    """cases: [(name, (driver, cfg, defs), function of a Ctx)]; results are added to the check c"""
    global _CASES, _STOP
    if c.tier == 'quick': _STOP = c.t0 + BUDGET
    keys = sorted({k for _, k, _ in cases}, key=repr)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        texts = list(ex.map(compile_job, keys))
    for k, t in zip(keys, texts):
        if isinstance(t, build.BuildError):
            c.add(f'{k[0]}[{k[1]}]', 'broken', str(t))
            continue
        try:
            _MODS[k] = parse_module(t)
        except IRError as e:
            c.add(f'{k[0]}[{k[1]}]', 'broken', 'IR: ' + str(e))
    _CASES = [x for x in cases if x[1] in _MODS and (not c.only or re.search(c.only, x[0]))]
    if os.environ.get('SERIAL'):
        rs = [run_case(i) for i in range(len(_CASES))]
    else:
        with ProcessPoolExecutor(max_workers=8, mp_context=multiprocessing.get_context('fork')) as ex:
            rs = list(ex.map(run_case, range(len(_CASES)), chunksize=max(1, min(8, len(_CASES) // 64))))
    fns = {}
    for r in rs:
        k, s = r.pop('fns', (None, ()))
        if k is not None: fns.setdefault(k, set()).update(s)
    for k in sorted(fns, key=repr):
        if k[0] in WIDTHS: rs += narrow.obligations(_MODS[k], fns[k], build.REPO + '/', f'{k[0]} {k[1]}')
    c.results += rs
    if len(rs) < expect and not c.only:
        c.add('instances', 'broken', f'only {len(rs)} cases, {expect} expected')
    return rs
def thresholds(key, lo=3, hi=1 << 20, rx='.'):
    """constants the analysed code compares integers with, or reduces them by: behaviour may change there, so checks add sizes around them"""
    mod = _MODS.get(key)
    out = set()
    if mod is None: return out
    for fn in mod.funcs.values():
        if not re.search(rx, fn.name): continue
        for b in fn.blocks:
            for i in b.ins:
                if i.op == 'switch': v = [cv[2] for cv, l in i.x['cases'] if cv[0] == 'c']
                elif i.op == 'call' and re.match(r'llvm\.[us](min|max)\.', str(i.x['callee'][1])): v = [a[2] for a in i.args if a[0] == 'c' and len(a) > 2 and isinstance(a[2], int)]
                elif i.op in ('icmp', 'urem', 'srem', 'and'): v = [a[2] + (i.op == 'and') for a in i.args if a[0] == 'c' and len(a) > 2 and isinstance(a[2], int)]
                else: continue
                v = [x for x in v if lo <= x <= hi and (i.op != 'and' or x & (x - 1) == 0)]
                if v and i.dbg and any(build.REPO + '/' in l for l in mod.loc(i.dbg, 8)[:1 if i.op != 'call' else 3]): out.update(v)
    return out
def orders_beyond(key, done, top=14, rx='.', r=2):
    """transform orders above done suggested by thresholds of the code, as a size or as an order"""
    out = set()
    for t in thresholds(key, rx=rx):
        k = 0
        while r ** k < t: k += 1
        out |= {k, k + 1, k + 2, t, t + 1}
    return sorted(o for o in out if done < o <= top)
def around(key, done, top, rx='.', known=()):
    """sizes above done next to thresholds of the code"""
    return sorted({x for t in thresholds(key, rx=rx) if t not in known for x in (t - 1, t, t + 1) if done < x <= top})
def streams_beyond(key, rx='.', known=(), top=(256, 160, 3000)):
    """(block, partitions, blocks) suggested by thresholds of the code: each constant as a block size, as a number of partitions and as a number of blocks"""
    out = []
    for t in sorted(thresholds(key, rx=rx)):
        if t in known: continue
        b = 1 << (t - 1).bit_length()
        for x in sorted({b // 2, b, 2 * b}):
            if 32 <= x <= top[0]: out.append((x, 2, 3) if x <= 512 else (x, 1, 2))
        for r in (t, t + 1):
            if 8 <= r <= top[1]: out.append((2, r, r + 2))
        if 11 <= t <= top[2]: out += [(2, 3, t + 4), (2, 4, t + 4)]
    return sorted(set(out))
EXPL = ('The driver translation unit instantiates the library code; it is compiled to LLVM IR (never linked or run). An abstract interpreter propagates constant integers, '
        '(object, offset) pointers and polynomial forms over the symbols of the input data through the IR; each output cell then carries the exact linear or bilinear form the code '
        'computes from its inputs, which is compared coefficient by coefficient with the form of the specification. One case therefore covers all inputs at one transform/block size; '
        'out-of-bounds or dangling accesses, reads of uninitialised memory that reach a result, failing assertions and unexpected exceptions on the way are violations too.')

# ---- interpretation of a closed abstract value at one valuation of the symbols
def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v
def value(v, env):
    """value of a form / atom / key; env maps symbol names to numbers"""
    if isinstance(v, (float, int)): return v
    return kval(A.key(v), env)
def kval(k, env):
    h = k[0]
    if h in ('f', 'i') and len(k) == 2: return k[1]
    if h == 'p':
        r = 0.0
        for m, c in k[1:]:
            t = float(c)
            for d in A.mono_digits(m): t *= sval(d, env)
            r += t
        return r
    return aval(k, env)
def sval(d, env):
    s = A.SYM[d]
    if isinstance(s, str): return env[s]
    return aval(s[1:], env)
CMP = dict(eq=lambda a, b: a == b, ne=lambda a, b: a != b, lt=lambda a, b: a < b, le=lambda a, b: a <= b, gt=lambda a, b: a > b, ge=lambda a, b: a >= b)
def aval(k, env):
    h = k[0]
    if h == 'sym': return env[k[1]]
    a = [kval(x, env) if isinstance(x, tuple) else x for x in k[1:]]
    if h == 'select': return a[1] if a[0] & 1 else a[2]
    if h == 'fcmp': return int(CMP[a[0][1:]](a[1], a[2])) if a[0] not in ('ord', 'uno') else int(a[0] == 'ord')
    if h in ('lround', 'llround'): return int(math.floor(abs(a[0]) + 0.5) * (1 if a[0] >= 0 else -1))
    if h in ('lrint', 'llrint'): return round(a[0])
    if h in ('round', 'trunc', 'floor', 'ceil', 'rint', 'nearbyint', 'fabs', 'maxnum', 'minnum', 'fmax', 'fmin') and len(k) > 1 and not isinstance(k[1], str):
        if h == 'round': return float(math.floor(abs(a[0]) + 0.5) * (1 if a[0] >= 0 else -1))
        if h in ('rint', 'nearbyint'): return float(round(a[0]))
        if h == 'fabs': return abs(a[0])
        if h in ('maxnum', 'fmax'): return max(a)
        if h in ('minnum', 'fmin'): return min(a)
        return float(getattr(math, h)(a[0]))
    if h in ('fptosi', 'fptoui'):
        w, x = int(a[0]), int(a[1])
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if h == 'fptosi' else (0, (1 << w) - 1)
        if not lo <= x <= hi: raise Defect(f'conversion of {a[1]} to a {w}-bit integer overflows')
        return x
    if h == 'trunc': return sgn(a[2], int(a[1]))
    if h == 'sext': return sgn(a[2], int(a[0]))
    if h == 'zext': return a[2] & ((1 << int(a[0])) - 1)
    if h == 'sitofp': return float(a[0])
    if h == 'bytes':
        return sgn(a[0] >> (8 * a[1]), 8 * a[2])
    if h == 'icmp':
        p, x, y = a
        if p in ('eq', 'ne'): return int(CMP[p](x, y))
        if p[0] == 's': return int(CMP[p[1:]](x, y))
        return int(CMP[p[1:]](x & (2**64 - 1), y & (2**64 - 1)))
    if h in ('smax', 'smin'):
        return (max if h == 'smax' else min)(a[-2:])
    if h in ('add', 'sub', 'mul') and isinstance(a[0], str):
        w = int(a[0])
        return sgn({'add': a[1] + a[2], 'sub': a[1] - a[2], 'mul': a[1] * a[2]}[h], w)
    raise Undecided('interpretation of ' + str(h))
def isym(name):
    """opaque integer symbol"""
    return A.Atom(('sym', name))

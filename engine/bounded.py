"""Second decision procedure for pairs d_<name> / r_<name> whose closed summary could not be computed: both functions are interpreted in the
domain of polynomial forms (absint) for a few sizes, with symbols for all floating-point inputs, and the resulting forms are compared."""
import random
import absint as A, forms
from absint import Ptr, UNDEF, Undecided, Defect, Thrown, sym
import compare
from term import Point, Unknown

class Lazy(A.Obj):
    __slots__ = ('gen', 'ini')

class In(A.Interp):
    def load_scalar(self, o, off, size, ty):
        if isinstance(o, Lazy) and not any(q + o.cells[q][0] > off for q in range(off - 16, off + size) if q in o.cells):
            v = o.gen(off, size, ty)
            o.cells[off] = (size, v, None)
            o.ini[off] = (size, v)
        return super().load_scalar(o, off, size, ty)

def pure(v):
    """no opaque atoms: a polynomial in the inputs"""
    if isinstance(v, list): return all(pure(x) for x in v)
    if type(v) in (int, float): return True
    if type(v) is not dict: return False
    return all(isinstance(A.SYM[d], str) for m in v for d in A.mono_digits(m))

def same(x, y, tol):
    if isinstance(x, list) or isinstance(y, list):
        if not (isinstance(x, list) and isinstance(y, list) and len(x) == len(y)): raise Undecided('shape of the result')
        return all(same(a, b, tol) for a, b in zip(x, y))
    if x is None and y is None: return True
    if not (pure(x) and pure(y)):
        if x is UNDEF and pure(y): return False
        if A.key(x) == A.key(y): return True
        raise Undecided('opaque operations')
    if type(x) is int and type(y) is int: return x == y
    if type(x) is int or type(y) is int: raise Undecided('mixed result')
    if type(x) is float and type(y) is float and (x != x or y != y): return x != x and y != y
    if type(x) is float and type(y) is float and x == y: return True
    return A.close(x, y, tol)

def run(mod, fn, args, pt, spec, ini, env=None):
    I = In(mod, limit=400_000)
    if env is not None:
        I.val = lambda v: forms.value(v, env)
    objs, av = {}, []
    for nm, ty, at in fn.params:
        if ty[0] == 'ptr':
            o = Lazy(nm, 1 << 24, 'arg')
            e = spec.get('ext', {}).get(nm)
            o.ini = {}
            def gen(off, size, t, nm=nm):
                if t[0] == 'f':
                    if env is not None: env[f'{nm}@{off}'] = pt.load0(nm, off, t)
                    return sym(f'{nm}@{off}')
                if t[0] == 'i': return pt.load0(nm, off, t) & ((1 << t[1]) - 1)
                raise Undecided('pointer in memory')
            o.gen = gen
            for q, (s, v) in ini.get(nm, {}).items():
                o.cells[q] = (s, v, None)
                o.ini[q] = (s, v)
            objs[nm] = o
            av.append(Ptr(o, 0))
        elif ty[0] == 'i':
            av.append(args[nm] & ((1 << ty[1]) - 1))
        elif ty[0] == 'f':
            if env is not None: env['arg ' + nm] = args[nm]
            av.append(sym('arg ' + nm))
        elif ty[0] == 'vec' and ty[2][0] == 'f':
            if env is not None: env.update({f'arg {nm}.{j}': args[f'{nm}.{j}'] for j in range(ty[1])})
            av.append([sym(f'arg {nm}.{j}') for j in range(ty[1])])
        else:
            raise Undecided('parameter type')
    r = I.call(fn.name, av)
    return I, r, objs

def decide(mod, name, params, spec, seed, npts=24):
    """None if undecided"""
    fd, fr = mod.funcs['d_' + name], mod.funcs['r_' + name]
    if [t for _, t, _ in fd.params] != [t for _, t, _ in fr.params]: return None
    rng = random.Random(seed)
    pts = [p for p in compare.sample_points(params, spec, rng, 1) if not spec.get('pre') or spec['pre'](p)]
    if not spec.get('sizes') and not any(t[0] == 'i' for _, t in params): pts = pts[:1]     # all inputs are symbols
    rng.shuffle(pts)
    pts = sorted(pts[:npts], key=lambda p: sum(abs(v) for k, v in p.items() if k in spec.get('sizes', {})))
    pts += [p for p in compare.size_points(params, spec, spec.get('near', ())) if all(abs(v) <= 2000 for k, v in p.items() if type(v) is int) and (not spec.get('pre') or spec['pre'](p))][:24]
    tol = spec.get('tol') or 1e-4
    n = 0
    for i, args in enumerate(pts):
        A.reset()
        A._mm.clear()
        mg = compare.MemGen(spec.get('modes', {}), {}, None)
        pt = Point(args, seed * 1000 + i, mg)
        try:
            I, rr, ro = run(mod, fr, args, pt, spec, {})
        except (Undecided, Defect, Thrown, Unknown):
            continue
        what = compare.fmt_args(args)
        try:
            J, rd, do = run(mod, fd, args, pt, spec, {k: o.ini for k, o in ro.items()})
        except Defect as e:
            if 'uninitialised' in str(e) or 'unreachable' in str(e): continue
            return dict(status='refuted', detail=f'at {what}: {e}', points=n, at=getattr(e, 'where', None))
        except (Undecided, Thrown, Unknown):
            continue
        try:
            if not same(rd, rr, tol):
                return dict(status='refuted', detail=f'at {what}: returns {show(rd)}, specified {show(rr)}', points=n)
            for b in ro:
                x, y = do[b], ro[b]
                for off in sorted(set(x.cells) | set(y.cells)):
                    cy, cx = y.cells.get(off), x.cells.get(off)
                    if cy is None:
                        k = x.ini.get(off)
                        if k is None or k[0] != cx[0]:
                            # d writes something r neither reads nor writes
                            k = (cx[0], None)
                            if cx[2] is None: continue
                            if not any(q < off + cx[0] and off < q + c[0] for q, c in y.cells.items()):
                                if cx[1] is UNDEF: raise Undecided('undefined write')
                                return dict(status='refuted', detail=f'at {what}: writes {b}[byte {off}] = {show(cx[1])}, which must stay untouched', points=n, at=J.where(cx[2]))
                            continue
                        if not same(cx[1], k[1], 0.0):
                            return dict(status='refuted', detail=f'at {what}: writes {b}[byte {off}] = {show(cx[1])}, which must stay untouched', points=n, at=J.where(cx[2]) if cx[2] is not None else None)
                        continue
                    s, vy = cy[0], cy[1]
                    ty = ('f', 8 * s) if type(vy) in (float, dict) else ('i', 8 * s)
                    vx = J.load_scalar(x, off, s, ty)
                    if not same(vx, vy, tol):
                        return dict(status='refuted', detail=f'at {what}: {b}[byte {off}] = {show(vx)}, specified {show(vy)}', points=n, at=J.where(cx[2]) if cx is not None and cx[2] is not None else None)
        except Undecided:
            continue
        n += 1
    return dict(status='held', points=n, by='bounded forms', detail=None) if n >= min(3, len(pts)) and n else None

def agrees(mod, name, args, ptseed, mined, spec):
    """Do both functions, interpreted in the domain of forms along the path of this valuation, agree at it? None if that cannot be said.
    A refutation by the summaries that the forms contradict is not reported: one of the two readings of the code is wrong."""
    import math
    fd, fr = mod.funcs['d_' + name], mod.funcs['r_' + name]
    if [t for _, t, _ in fd.params] != [t for _, t, _ in fr.params]: return None
    A.reset()
    A._mm.clear()
    env = {}
    pt = Point(args, ptseed, compare.MemGen(spec.get('modes', {}), {}, None, mined))
    try:
        _, rr, ro = run(mod, fr, args, pt, spec, {}, env)
        J, rd, do = run(mod, fd, args, pt, spec, {k: o.ini for k, o in ro.items()}, env)
        if any(type(v) is float and not abs(v) < 1e15 or type(v) is float and 0 < abs(v) < 1e-15 for v in env.values()): return None
        def eq(x, y, ty):
            if isinstance(x, list) or isinstance(y, list): return isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and all(eq(a, b, ty) for a, b in zip(x, y))
            if x is None or y is None: return x is y
            if x is UNDEF or y is UNDEF: return x is y
            if A.key(x) == A.key(y): return True
            a, b = forms.value(x, env), forms.value(y, env)
            if type(a) is int and type(b) is int:
                return a == b
            if not (math.isfinite(a) and math.isfinite(b)): raise Undecided('not finite')
            return compare.close(float(a), float(b), ('f', 32), spec.get('tol') if spec.get('tol') != 0.0 else None)
        if not eq(rd, rr, None): return False
        for b in ro:
            x, y = do[b], ro[b]
            for off in sorted(set(x.cells) | set(y.cells)):
                cy, cx = y.cells.get(off), x.cells.get(off)
                if cy is None:
                    k = x.ini.get(off)
                    if k is None or k[0] != cx[0]:
                        if cx[2] is None: continue
                        return None
                    if not eq(cx[1], k[1], None): return False
                    continue
                ty = ('f', 8 * cy[0]) if type(cy[1]) in (float, dict) else ('i', 8 * cy[0])
                if not eq(J.load_scalar(x, off, cy[0], ty), cy[1], ty): return False
    except (Undecided, Defect, Thrown, Unknown, KeyError, ValueError, OverflowError, ZeroDivisionError, TypeError, RecursionError):
        return None
    return True

def show(v):
    return '[' + ', '.join(show(x) for x in v) + ']' if isinstance(v, list) else 'uninitialised' if v is UNDEF else A.showform(v)

import math
from lib import *
c = Check('C12', 'other', EXPL, 'allmatch/allclose are true exactly if the predicate / |l - r| <= tolerance holds for every element; default tolerance 1e-5 (float) and 1e-9')
def near(tol):
    def g(base):
        def f(pt, off, ty):
            a, b = compare.hval(pt.seed, 'v', off)
            v = round((b / 2**64) * 8 - 4) / 4.0
            if base == 'x': return v
            k = pt.seed % 10
            w = off // (ty[1] // 8)
            if k == 0: return v
            if k == 1: return v + (tol * 40 if a % 9 == 0 else 0.0)
            if k == 2: return v + tol * 0.7 * (1 if a & 1 else -1)
            if k == 3: return v + (tol * 3 if w == 0 else 0.0)
            if k == 4: return v - (tol * 3 if w == pt.seed // 10 % 36 else 0.0)
            if k == 5: return v + (tol * 3 if w == (pt.args.get('n', 1) - 1) or w == pt.args.get('rows', 1) * pt.args.get('cols', 1) - 1 else 0.0)
            if k == 6: return v + (tol * 1.2 if w == pt.args.get('n', 1) // 2 else 0.0)
            if k == 8: return math.nan if w == (pt.seed // 10) % max(1, pt.args.get('n', pt.args.get('rows', 1) * pt.args.get('cols', 1))) else v
            return v + tol * 0.9 * (0 if w % 3 else 1)
        return f
    return g
T = lambda t: dict(modes={'x_f': near(t)('x'), 'y_f': near(t)('y'), 'x_d': near(t)('x'), 'y_d': near(t)('y')})
def less(pt, off, ty):
    a, b = compare.hval(pt.seed, 'v', off)
    return (b / 2**64)
def more(pt, off, ty):
    a, b = compare.hval(pt.seed, 'v', off)
    k = pt.seed % 3
    w = off // (ty[1] // 8)
    return (b / 2**64) + (1.0 if k == 0 else 0.0 if k == 1 and w % 5 == 4 else 1.0 if w % 7 else -1.0)
tl = lambda rng, d: rng.choice([0.0, 1e-3, 1e-3, 0.0011])
sp = [(r'^acl', dict(T(1e-3), sizes={'n': list(range(0, 20))}, npts=16)), (r'^acl', dict()),
      (r'^acd.*f32', dict(T(1e-5), npts=16)), (r'^acd.*f64', dict(T(1e-9), npts=16)),
      (r'^am_', dict(modes={'x_f': less, 'y_f': more, 'x_d': less, 'y_d': more}, npts=6)),
      (r'^amu_', dict(modes={'x_f': more, 'x_d': more, 'lim': lambda rng, d: rng.choice([0.0, 0.5, -2.0, 1.0])}, npts=6))]
sp[1] = (r'^acl', dict(modes=dict(T(1e-3)['modes'], tol=f32v(tl))))
c.only = c.only or r'^a'
c.pairs([('norm.cpp', 'avx2', ())], sp, expect=28, shards=4)
done(c)

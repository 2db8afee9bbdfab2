from lib import *
import math
c = Check('C02', 'other', EXPL, 'fixed-point scalar operations equal the saturated exact integer result; comparisons follow the stored integers; conversions saturate and truncate')
def xs(F, w, wide=False):
    def g(rng, d):
        s = float(1 << F)
        k = rng.randrange(8)
        H = float(1 << (w - 1))
        if k == 0: v = (H - 1 + rng.choice([-1.0, -0.5, 0.0, 0.25, 0.5, 0.75, 1.0, 1.5])) / s
        elif k == 1: v = (-H + rng.choice([-1.5, -1.0, -0.5, 0.0, 0.25, 0.5, 1.0])) / s
        elif k == 2: v = rng.choice([1.0, -1.0]) * rng.choice([1e3, 1e6, 3e9, 1e12, 1e30])
        elif k == 3: v = rng.randrange(-int(H), int(H)) / s + rng.choice([0.25, 0.5, 0.75, -0.25, -0.5, 0.0]) / s
        elif k == 4: v = rng.choice([0.0, -0.0, 1e-9, -1e-9, 1e-38, 0.5 / s, -0.5 / s, 0.999 / s, -0.999 / s, 1 / s, -1 / s])
        else: v = (rng.random() * 2.4 - 1.2) * H / s
        if wide and rng.randrange(3) == 0: v = math.nextafter(v, rng.choice((-1e308, 1e308))) if rng.randrange(4) else rng.choice((1e300, -1e300, 1e39, -1e39, 1e-300, v * (1 - 2.0 ** -40)))
        return v
    return g if wide else f32v(g)
sp = []
for s, F, w in (('q7', 7, 8), ('q15', 15, 16), ('q8_4', 4, 8), ('q8_0', 0, 8), ('q16_8', 8, 16), ('q16_14', 14, 16), ('q16_1', 1, 16)):
    sp.append((rf'^fx_fromf_{s}$', dict(modes={'x': xs(F, w)}, npts=3000, exact=True)))
    sp.append((rf'^fx_fromd_{s}$', dict(modes={'x': xs(F, w, True)}, npts=3000, exact=True)))
    sp.append((rf'^fx_to(float|double)_{s}$|^fx_castfloat_{s}$', dict(tol=1e-7)))
jobs = [('fixed.cpp', 'avx2', ())]
if c.deep:
    jobs += [('fixed.cpp', x, ()) for x in ('sse2', 'avx512')]
c.pairs(jobs, sp, expect=147, shards=4)
done(c)

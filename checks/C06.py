from lib import *
c = Check('C06', 'other', EXPL, 'unit conversions, weighting curves, windows and bin frequencies equal their defining formula')
G = f32v(lograng(1e-30, 1e30))
G2 = lograng(1e-200, 1e200)
def gain(base, fl):
    def g(rng, d):
        k = rng.randrange(10)
        if k == 0: return rng.choice([0.0, -0.0, -1.0, -1e-30, 1.0, 10.0, 0.1, 1e-7, -1e30])
        if k < 6: return f32v(lograng(1e-9, 1e4))(rng, d)
        return base(rng, d)
    return g
FL = f32v(lambda rng, d: rng.choice([-144.0, -100.0, -60.0, -96.0, -200.0, -20.0, -300.0, -0.5, 0.0, 6.0]))
sp = [(r'^db', dict(modes={'g': gain(G, 0), 'fl': FL}, npts=2000, tol=(1e-5, 1e-4))),
      (r'^db(f|acc)?_f64', dict(modes={'g': gain(G2, 0), 'fl': FL}, npts=2000, tol=(1e-12, 1e-11))),
      (r'^dbest', dict(tol=(1e-5, 2e-3))),
      (r'^flog2', dict(modes={'x': f32v(lograng(1.2e-38, 3e38))}, npts=4000, tol=(1e-6, 2e-4))),
      (r'^flog10', dict(modes={'x': f32v(lograng(1.2e-38, 3e38))}, npts=4000, tol=(1e-6, 6e-5))),
      (r'^aw_f32', dict(modes={'fr': f32v(lograng(0.5, 2e5))}, npts=1500, tol=(1e-5, 2e-3))),
      (r'^aw_f64', dict(modes={'fr': lograng(0.01, 1e6)}, npts=1500, tol=(1e-10, 1e-8)))]
I = lambda rng, d: rng.randrange(0, 5000)
IX = lambda rng, d: rng.randrange(0, 64)
SZ = lambda rng, d: rng.choice([2, 3, 4, 5, 8, 63, 64, 65, 128, 1000])
sp2 = [(r'^(h2m)', dict(modes={'hz': lograng(1, 1e5)}, tol=(1e-4, 1e-3))),
       (r'^(m2h)', dict(modes={'mel': lograng(1, 5e3)}, tol=(1e-4, 1e-3))),
       (r'^melf', dict(modes={'lo': lograng(1, 500), 'hi': lograng(600, 3e4)}, tol=(2e-4, 2e-3))),
       (r'^(whann|whamm|wrect)', dict(modes={'i': IX, 'size': SZ}, npts=600, tol=(1e-4, 1e-5), pre=lambda a: a['i'] < a['size'])),
       (r'^(wfill|wgen)', dict(sizes={'n': [0] + list(range(2, 40)) + [64, 127, 256]}, tol=(1e-4, 1e-5))),
       (r'^freq_', dict(modes={'i': I, 'size': lambda rng, d: rng.randrange(1, 5000), 'inv': lograng(1e-6, 1)}, tol=(1e-4, 1e-5))),
       (r'^freqs', dict(modes={'inv': lograng(1e-6, 1)}, tol=(1e-4, 1e-5)))]
c.pairs([('units.cpp', 'avx2', ())], sp, expect=12)
c.pairs([('units2.cpp', 'avx2', ())], sp2, expect=28)
done(c)

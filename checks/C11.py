from lib import *
c = Check('C11', 'other', EXPL, 'normalisation scales every element by the one factor 1/sqrt(energy), 1/peak or the smallest channel factor, and by 1 for silence')
def quiet(pt, off, ty):
    # silence, a single non-zero element, huge/small data and mixed data
    a, b = compare.hval(pt.seed, 'x', off)
    k = pt.seed % 7
    if k == 0: return 0.0
    if k == 1: return 0.0 if a % 5 else (b / 2**64) * 2 - 1
    if k == 2: return -(b / 2**64) - 0.1
    if k == 3: return ((b / 2**64) * 2 - 1) * 1e-3
    if k == 4: return ((b / 2**64) * 2 - 1) * 100
    return (b / 2**64) * 2 - 1
sp = [(r'', dict(modes={'x_f': quiet, 'x_d': quiet}, npts=7))]
c.only = c.only or r'^n'
c.pairs([('norm.cpp', 'avx2', ())], sp, expect=24, shards=4)
done(c)

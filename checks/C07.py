from lib import *
c = Check('C07', 'other', EXPL, 'each math customization point calls the member function, else the function found by argument-dependent lookup, else the standard function')
c.pairs([('cpo.cpp', 'avx2', ())], [(r'log2', dict(pre=lambda a: all(v > 0 for v in a.values()))), (r'polar', dict(tol=(1e-5, 1e-6))), (r'^cp_[zs]?eq_f', dict(npts=600, modes={k: [0.0, -0.0, 1.0, -1.0, 2.5, math.nan, math.inf, -math.inf] for k in 'xyuv'}))], expect=50)
done(c)

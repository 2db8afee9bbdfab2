from lib import *
c = Check('C01', 'other', EXPL, 'every complex operation of a scalar complex number equals the field operation on (re, im)')
jobs = [('complex.cpp', 'avx2', ())]
if c.deep:
    jobs += [('complex.cpp', x, ()) for x in ('sse2', 'sse41', 'avx512', 'avx2-noxsimd')]
sp = [(r'^cx_divr', dict(pre=lambda a: a['s'] != 0))]  # the quotient by zero is not specified
c.pairs(jobs, sp, expect=107)
done(c)

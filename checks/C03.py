from lib import *
c = Check('C03', 'other', EXPL, 'element i of the result is the saturated scalar operation on element i of the operands, nothing else is read or written')
jobs = [('fixedarr.cpp', x, ()) for x in ('avx2', 'sse2', 'sse41', 'avx512', 'neon')]
sp = [(r'^fa_', dict(ext={'x_b': 'n', 'y_b': 'n', 'x_h': 'n', 'y_h': 'n'})), (r'^fai_|^far_', dict(ext={'x_b': 'n', 'x_h': 'n', 'y_b': 'n', 'y_h': 'n', 'o_b': 'n', 'o_h': 'n'}))]
sp.append((r'^fr_bcast', dict(npts=20)))
sp.append((r'^fa', dict(npts=4 if c.deep else 2)))
c.pairs(jobs, sp, expect=290, shards=2)
done(c)

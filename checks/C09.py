from lib import *
c = Check('C09', 'other', EXPL, 'multiply_add writes out[i] = x[i] * y[i] + z[i] for every i, on the vector path, in its tail and on the generic path')
c.pairs([('madd.cpp', k, ()) for k in ('avx2', 'avx2-noxsimd', 'sse2', 'avx512', 'neon')], [], expect=160, shards=2)
done(c)

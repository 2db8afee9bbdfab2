from lib import *
c = Check('C08', 'other', EXPL, 'add, multiply, scale, fill and copy write out[i] = f(in[i]) at every index of the view, and nothing else, in every layout')
c.pairs([('dense.cpp', 'avx2', ())], [], expect=116, shards=8)
done(c)

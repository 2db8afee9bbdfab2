from lib import *
c = Check('C10', 'other', EXPL, 'mean, variance, standard deviation and (root) mean squared error equal their definition over all elements; empty/too small objects give no value')
c.pairs([('stats.cpp', 'avx2', ())], [], expect=60, shards=8)
done(c)

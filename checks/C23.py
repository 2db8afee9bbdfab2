from lib import *
c = Check('C23', 'other', forms.EXPL, 'the overlap stages present to the callback the real DFT of the zero-padded block (add) or of the last transform-size samples (save), and a callback that multiplies with the DFT of a filter of the declared size yields the linear convolution')
K_ = ('conv.cpp', 'avx2', ())
E = dict(f=F32, d=F64)
def f_ov(t, s, B, F, blocks):
    def f(I):
        T = 1
        while T < B + F - 1: T *= 2
        nb = T // 2 + 1
        g = S('g', F)
        w = [q for re, im in dft([(g[i], 0.0) if i < F else (0.0, 0.0) for i in range(T)])[:nb] for q in (re, im)]
        x, wo, sp, e = I.arr('x', E[s], B * blocks), I.arr('w', E[s], w), I.buf('spectrum', E[s], 2 * nb * blocks), I.buf('sizes', I64, 4)
        I.call(f'd_ov_{t}_{s}', [x, wo, sp, B, F, blocks, e])
        I.wants(e, (B, F, T, nb), what='size')
        X = S('x', B * blocks)
        for b in range(blocks):
            if t == 'add': z = X[b * B:b * B + B] + [0.0] * (T - B)
            else: z = ([0.0] * T + X[:b * B + B])[-T:]
            for k, (re, im) in enumerate(dft([(v, 0.0) for v in z])[:nb]):
                I.want(sp, 2 * (b * nb + k), re, what=f'block {b} bin {k} re'); I.want(sp, 2 * (b * nb + k) + 1, im, what=f'block {b} bin {k} im')
        I.wants(x, conv(X, g, B * blocks), what='output')
    return f
cases = []
for t in ('add', 'save'):
    for s in E:
        for B, F, blocks in ((2, 2, 4), (2, 3, 4), (4, 4, 3), (4, 5, 4), (4, 1, 3), (4, 2, 3), (2, 5, 5), (3, 3, 4), (3, 4, 4), (5, 4, 4), (6, 3, 3), (4, 9, 5), (8, 8, 3), (8, 3, 3), (7, 10, 4), (3, 12, 6)) + (((16, 16, 3), (12, 21, 4)) if c.deep else ()):
            cases.append((f'overlap_{t}_{s} block {B} filter {F}, {blocks} blocks', K_, f_ov(t, s, B, F, blocks)))
for t in ('add', 'save'):
    for s in E:
        for B, F, blocks in ((64, 64, 3), (100, 30, 3), (30, 100, 5), (128, 129, 3)): cases.append((f'overlap_{t}_{s} block {B} filter {F}, {blocks} blocks (sparse input)', K_, only((1, F - 1, B - 1), f_ov(t, s, B, F, blocks))))
    cases.append((f'overlap_{t}_f block 2 filter 3, 400 blocks', K_, f_ov(t, 'f', 2, 3, 400)))
    cases.append((f'overlap_{t}_d block 3 filter 2, 270 blocks', K_, f_ov(t, 'd', 3, 2, 270)))
    cases.append((f'overlap_{t}_f block 8 filter 300, 42 blocks (sparse input)', K_, only((0, 2, 299), f_ov(t, 'f', 8, 300, 42))))
forms.run(c, cases, expect=40)
more = []
for B, rows, blocks in forms.streams_beyond(K_, known=(27, 256, 65536), top=(8192, 300, 1100)):
    for t in ('add', 'save'): more.append((f'overlap_{t}_f block {B} filter {B * rows // 2 + 1}, {blocks} blocks (sparse input)', K_, only((0, 1, B * rows // 2, B * blocks // 2), f_ov(t, 'f', B, B * rows // 2 + 1, blocks))))
if more: forms.run(c, more)
c.assumptions.append('block sizes 2 to 8, filters up to 12 taps with every sample present; up to 128 samples, 300 taps, 400 blocks with a few samples present; rounding is abstracted')
done(c)

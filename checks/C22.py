from lib import *
c = Check('C22', 'other', forms.EXPL, 'block-wise streaming through a partitioned convolver gives the linear convolution of the stream with the filter, for every convolver type; a new filter starts a new stream; copies are independent')
K_ = ('conv.cpp', 'avx2', ())
E = dict(f=F32, d=F64)
TYPES = ('upols', 'upola', 'upola2', 'split_upola', 'split_upols', 'sparse_upols', 'sparse_upola')
TOL = 1e-5
def f_st(t, s, B, rows, blocks):
    def f(I):
        x, h = I.arr('x', E[s], B * blocks), I.arr('h', E[s], B * rows)
        I.call(f'd_st_{t}_{s}', [x, h, B, rows, blocks])
        I.wants(x, conv(S('x', B * blocks), S('h', B * rows), B * blocks), TOL, 'output')
        I.unwritten(h)
    return f
def f_rp(t, s, B, rows, rows2, blocks, more, B2):
    def f(I):
        n = B * blocks
        x, h, g = I.arr('x', E[s], n + B2 * more), I.arr('h', E[s], B * rows), I.arr('g', E[s], B2 * rows2)
        I.call(f'd_rp_{t}_{s}', [x, h, g, B, rows, rows2, blocks, more, B2])
        xs = S('x', n + B2 * more)
        I.wants(x, conv(xs[:n], S('h', B * rows), n) + conv(xs[n:], S('g', B2 * rows2), B2 * more), TOL, 'output')
    return f
def f_cp(t, s, B, rows, blocks, more):
    def f(I):
        n, m = B * blocks, B * more
        x, y, z = I.arr('x', E[s], n + m), I.arr('y', E[s], n + m), I.arr('z', E[s], 2 * m)
        h, g = I.arr('h', E[s], B * rows), I.arr('g', E[s], B * rows)
        I.call(f'd_cp_{t}_{s}', [x, y, z, h, g, B, rows, blocks, more])
        X, Y, H, G = S('x', n + m), S('y', n + m), S('h', B * rows), S('g', B * rows)
        I.wants(x, conv(X, H, n + m), TOL, 'first')
        I.wants(y, conv(Y, G, n + m), TOL, 'second')
        I.wants(z, conv(X[:n] + S('z', 2 * m), H, n + 2 * m)[n:], TOL, 'copy')
    return f
def f_any(B, rows, lens):
    def f(I):
        n = sum(lens)
        x, h, l = I.arr('x', F32, n), I.arr('h', F32, B * rows), I.arr('lens', I64, list(lens))
        I.call('d_any_f', [x, h, B, rows, l, len(lens)])
        I.wants(x, conv(S('x', n), S('h', B * rows), n), TOL, 'output')
    return f
def f_anyrp(B, rows, B2, rows2, lens, lens2):
    def f(I):
        n, m = sum(lens), sum(lens2)
        x, h, g = I.arr('x', F32, n + m), I.arr('h', F32, B * rows), I.arr('g', F32, B2 * rows2)
        I.call('d_anyrp_f', [x, h, g, B, rows, B2, rows2, I.arr('lens', I64, list(lens)), len(lens), I.arr('lens2', I64, list(lens2)), len(lens2)])
        X = S('x', n + m)
        I.wants(x, conv(X[:n], S('h', B * rows), n) + conv(X[n:], S('g', B2 * rows2), m), TOL, 'output')
    return f
cases = []
for t in TYPES:
    for s in E:
        for B, rows, blocks in ((2, 1, 4), (2, 2, 6), (2, 3, 8), (2, 4, 10), (2, 7, 16), (4, 1, 3), (4, 2, 5), (4, 3, 8), (8, 1, 3), (8, 2, 4), (8, 3, 5), (16, 2, 3)) + (((16, 3, 5), (32, 2, 3)) if c.deep else ()):
            cases.append((f'{t}_{s} block {B} x {rows}, {blocks} blocks', K_, f_st(t, s, B, rows, blocks)))
    for B, rows, rows2, blocks, more, B2 in ((2, 3, 3, 4, 5, 2), (2, 3, 2, 5, 5, 2), (2, 2, 4, 5, 6, 2), (4, 2, 2, 3, 4, 2), (2, 2, 2, 3, 4, 4)):
        cases.append((f'{t}_f filter {rows}x{B} replaced by {rows2}x{B2} after {blocks}', K_, f_rp(t, 'f', B, rows, rows2, blocks, more, B2)))
    for B, rows, blocks, more in ((2, 1, 2, 3), (2, 3, 4, 5), (4, 2, 1, 3)):
        cases.append((f'{t}_d copies {B}x{rows} after {blocks}', K_, f_cp(t, 'd', B, rows, blocks, more)))
for B, rows, lens in ((2, 2, (2, 3, 2, 4, 5)), (2, 3, (5, 5, 2, 2, 3)), (4, 2, (4, 5, 6, 7)), (4, 3, (9, 11, 4, 4, 5)), (2, 1, (3, 3, 3)), (8, 2, (8, 9, 15, 10))):
    cases.append((f'upola2_f block {B} x {rows} calls {lens}', K_, f_any(B, rows, lens)))
for B, rows, rows2, lens, lens2 in ((2, 2, 2, (3,), (2, 3, 2)), (4, 2, 3, (4, 5), (4, 6, 5)), (4, 3, 1, (7, 4), (4, 4))):
    cases.append((f'upola2_f block {B} calls {lens}, new filter, calls {lens2}', K_, f_anyrp(B, rows, B, rows2, lens, lens2)))
for B, rows, B2, rows2, lens, lens2 in ((8, 2, 2, 3, (13,), (5, 2)), (8, 1, 4, 2, (8, 15), (4, 7)), (2, 3, 8, 2, (3,), (9, 8)), (16, 1, 8, 1, (24,), (8, 9))):
    cases.append((f'upola2_f block {B} calls {lens}, new filter with block {B2}, calls {lens2}', K_, f_anyrp(B, rows, B2, rows2, lens, lens2)))
for t in TYPES:
    for s in E:
        for B, rows, blocks in ((32, 2, 3), (64, 3, 4), (128, 2, 3), (8, 20, 22), (4, 33, 35)) + (((256, 2, 3), (2, 100, 110)) if c.deep else ()):
            if s == 'd' and B < 64: continue
            cases.append((f'{t}_{s} block {B} x {rows}, {blocks} blocks (sparse input)', K_, only((0, B - 1, B * rows - 2), f_st(t, s, B, rows, blocks))))
for t in TYPES:     # long streams
    cases.append((f'{t}_f block 2 x 3, 600 blocks (sparse filter)', K_, only((0, 3, 5), f_st(t, 'f', 2, 3, 600), ('x',))))
    cases.append((f'{t}_f block 2 x 130, 135 blocks (sparse input)', K_, only((0, 1, 64, 259), f_st(t, 'f', 2, 130, 135))))
forms.run(c, cases, expect=200)
more = []
for B, rows, blocks in forms.streams_beyond(K_, known=(27, 256, 65536), top=(2048, 160, 3000)):
    n = B * blocks
    for t in TYPES: more.append((f'{t}_f block {B} x {rows}, {blocks} blocks (sparse input)', K_, only((0, 1, B * rows - 2, n // 2, n - 3), f_st(t, 'f', B, rows, blocks), ('x',) if B * rows < 20 else ())))
if more: forms.run(c, more)
c.assumptions.append('block sizes 2 to 16, up to 7 partitions with every input present; up to 128 samples, 130 partitions and 600 blocks (and sizes around constants the code compares with) with a few input samples present; rounding is abstracted')
done(c)

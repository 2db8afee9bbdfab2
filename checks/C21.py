from lib import *
c = Check('C21', 'other', forms.EXPL, 'a spectral filter acts as the sum over partitions of (spectrum of the block r steps ago) * (row r), every coefficient once; coefficients a sparse filter drops act as zeros')
K_ = ('conv.cpp', 'avx2', ())
def cm(a, b):
    return (add(fmul(a[0], b[0]), fmul(fmul(a[1], b[1]), -1.0)), add(fmul(a[0], b[1]), fmul(a[1], b[0])))
def spec(ola, X, W, keep, B, rows, blocks):
    """W[r][k]: complex forms; X: list of samples"""
    T, nb = 2 * B, B + 1
    hist, out, tail = [], [], [0.0] * B
    for b in range(blocks):
        z = X[b * B:b * B + B] + [0.0] * B if ola else ([0.0] * T + X[:b * B + B])[-T:]
        hist.insert(0, dft([(v, 0.0) for v in z])[:nb])
        Y = []
        for k in range(nb):
            re = im = 0.0
            for r in range(min(rows, len(hist))):
                if keep[r][k]:
                    p = cm(hist[r][k], W[r][k]); re, im = add(re, p[0]), add(im, p[1])
            Y.append((re, im))
        full = Y + [(re, fmul(im, -1.0)) for re, im in Y[-2:0:-1]]
        y = [fmul(re, 1.0 / T) for re, im in dft(full, -1)]
        if ola:
            out += [add(y[i], tail[i]) for i in range(B)]
            tail = y[B:]
        else:
            out += y[B:]
    return out
def filt(B, rows):
    w, W = [], []
    for r in range(rows):
        W.append([])
        for k in range(B + 1):
            z = (sym(f'w{2 * (r * (B + 1) + k)}'), sym(f'w{2 * (r * (B + 1) + k) + 1}') if 0 < k < B else 0.0)
            W[-1].append(z); w += z
    return w, W
def f_mask(fn, ola, B, rows, blocks, pat):
    def f(I):
        w, W = filt(B, rows)
        keep = [[pat(r, k) for k in range(B + 1)] for r in range(rows)]
        x, wo, ko = I.arr('x', F32, B * blocks), I.arr('w', F32, w), I.arr('keep', I8, [int(v) for r in keep for v in r])
        I.call(fn, [x, wo, ko, B, rows, blocks])
        I.wants(x, spec(ola, S('x', B * blocks), W, keep, B, rows, blocks), what='output'); I.unwritten(wo)
    return f
def f_sp(fn, ola, B, rows, blocks):
    def f(I):
        w, W = filt(B, rows)
        n = B * blocks
        x, wo = I.arr('x', F32, 2 * n), I.arr('w', F32, w)
        I.call(fn, [x, wo, B, rows, blocks])
        want = spec(ola, S('x', 2 * n)[::2], W, [[True] * (B + 1)] * rows, B, rows, blocks)
        for i in range(n):
            I.want(x, 2 * i, want[i], what='output'); I.want(x, 2 * i + 1, sym(f'x{2 * i + 1}'), what='between')
        I.unwritten(wo)
    return f
def f_filt(t, s, g1, g2):
    (rows, bins, r), (rows2, bins2, r2) = g1, g2
    e = F32 if s == 'f' else F64
    def f(I):
        w, w2 = I.arr('w', e, 2 * rows * bins), I.arr('u', e, 2 * rows2 * bins2)
        n = max(bins, bins2)
        x, a, b = I.arr('x', e, 2 * n), I.arr('a', e, 2 * bins), I.arr('b', e, 2 * bins2)
        I.call(f'd_filt_{t}_{s}', [w, rows, bins, r, w2, rows2, bins2, r2, x, a, b])
        for o, nm, wn, row, m in ((a, 'a', 'w', r, bins), (b, 'b', 'u', r2, bins2)):
            ix = (lambda k: (k, m + k)) if t == 'split' else (lambda k: (2 * k, 2 * k + 1))
            for k in range(m):
                i, j = ix(k)
                p = cm((sym(f'x{i}'), sym(f'x{j}')), (sym(f'{wn}{2 * (row * m + k)}'), sym(f'{wn}{2 * (row * m + k) + 1}')))
                I.want(o, i, add(sym(f'{nm}{i}'), p[0]), what='accumulator'); I.want(o, j, add(sym(f'{nm}{j}'), p[1]), what='accumulator')
        for q in (w, w2, x): I.unwritten(q)
    return f
PAT = dict(all=lambda r, k: True, none=lambda r, k: False, even=lambda r, k: k % 2 == 0, odd=lambda r, k: k % 2 == 1, row0=lambda r, k: r == 0, notrow0=lambda r, k: r != 0, low=lambda r, k: k < 2,
           high=lambda r, k: k > 1, mix=lambda r, k: (3 * r + 5 * k) % 4 != 0, tail=lambda r, k: k > 0 or r == 1, single=lambda r, k: r == 1 and k == 1)
cases = []
for B, rows, blocks in ((2, 1, 3), (2, 3, 5), (4, 2, 4), (4, 3, 5), (8, 2, 3)):
    for p in PAT:
        for fn, ola in (('d_mask_f', False), ('d_zmask_f', True)):
            cases.append((f'{"sparse_upola" if ola else "sparse_upols"} {rows}x{B} keep {p}', K_, f_mask(fn, ola, B, rows, blocks, PAT[p])))
    for fn, ola in (('d_sp_upols', False), ('d_sp_upola', True), ('d_sp_split', False)):
        cases.append((f'{fn[5:]} spectral filter {rows}x{B} strided block', K_, f_sp(fn, ola, B, rows, blocks)))
G = (((1, 1, 0), (1, 1, 0)), ((7, 3, 6), (9, 5, 8)), ((6, 1, 5), (2, 3, 1)), ((3, 5, 1), (3, 5, 1)), ((3, 5, 0), (3, 5, 2)), ((2, 9, 1), (4, 9, 3)), ((4, 9, 3), (2, 9, 0)), ((2, 17, 1), (2, 5, 1)), ((1, 3, 0), (5, 8, 4)), ((2, 8, 0), (2, 8, 0)), ((3, 33, 2), (3, 33, 2)))
G += (((300, 2, 299), (2, 300, 1)), ((2, 257, 0), (260, 1, 256)))
for t in ('dense', 'split', 'sparse'):
    for s in 'fd':
        for g in G: cases.append((f'{t}_filter_{s} {g[0][0]}x{g[0][1]} row {g[0][2]}, replaced by {g[1][0]}x{g[1][1]} row {g[1][2]}', K_, f_filt(t, s, *g)))
forms.run(c, cases, expect=170)
more = []
for n in forms.around(K_, 8, 3000, known=(27, 256, 65536)):
    for t in ('dense', 'split', 'sparse'): more += [(f'{t}_filter_f {n}x2 row {n - 1}', K_, f_filt(t, 'f', (n, 2, n - 1), (2, n, 1))), (f'{t}_filter_f {n + 1}x1 row {n // 2}', K_, f_filt(t, 'f', (n + 1, 1, n), (1, n + 1, 0)))]
if more: forms.run(c, more)
c.assumptions.append('block sizes 2 to 8, up to 3 partitions; DC and Nyquist coefficients real')
done(c)

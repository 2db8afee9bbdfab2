from lib import *
c = Check('C14', 'other', forms.EXPL, 'direct and FFT convolution produce y[k] = sum_j x[j] h[k-j] for 0 <= k < n+m-1 and report extent n+m-1; a convolver object can be used again')
K_ = ('conv.cpp', 'avx2', ())
E = dict(f=F32, d=F64)
def f_direct(s, n, m):
    def f(I):
        x, h, y = I.arr('x', E[s], n), I.arr('h', E[s], m), I.buf('out', E[s], n + m - 1)
        I.call(f'd_direct_{s}', [x, h, y, n, m])
        I.wants(y, conv(S('x', n), S('h', m))); I.unwritten(x); I.unwritten(h)
    return f
def f_directs(s, n, m):
    def f(I):
        x, h, y = I.arr('x', E[s], 2 * n), I.arr('h', E[s], 3 * m), I.arr('y', E[s], 2 * (n + m - 1))
        I.call(f'd_directs_{s}', [x, h, y, n, m])
        for k, w in enumerate(conv(S('x', 2 * n)[::2], S('h', 3 * m)[::3])):
            I.want(y, 2 * k, w); I.want(y, 2 * k + 1, sym(f'y{2 * k + 1}'))
    return f
def f_ret(fn, s, n, m):
    def f(I):
        x, h, y, e = I.arr('x', E[s], n), I.arr('h', E[s], m), I.buf('out', E[s], max(1, n + m - 1)), I.buf('extent', I64, 1)
        I.call(f'{fn}_{s}', [x, h, y, n, m, e])
        I.want(e, 0, n + m - 1 if n and m else 0)
        if n and m: I.wants(y, conv(S('x', n), S('h', m)))
        I.unwritten(x); I.unwritten(h)
    return f
def f_obj(s, n, m):
    def f(I):
        x, h, y = I.arr('x', E[s], n), I.arr('h', E[s], m), I.buf('out', E[s], n + m - 1)
        u, v, z, e = I.arr('u', E[s], n), I.arr('v', E[s], m), I.buf('second', E[s], n + m - 1), I.buf('sizes', I64, 3)
        I.call(f'd_fftp_{s}', [x, h, y, u, v, z, n, m, e])
        I.wants(e, (n, m, n + m - 1))
        I.wants(y, conv(S('x', n), S('h', m))); I.wants(z, conv(S('u', n), S('v', m)))
        for o in (x, h, u, v): I.unwritten(o)
    return f
cases = []
N = 20 if c.deep else 13
for s in E:
    for n in range(1, N):
        for m in range(1, N):
            cases.append((f'direct_convolve_{s} {n} * {m}', K_, f_direct(s, n, m)))
            if (n + m) % 3 == 0:
                cases.append((f'direct_convolve_{s} strided {n} * {m}', K_, f_directs(s, n, m)))
                cases.append((f'direct_convolve_{s} returning {n} * {m}', K_, f_ret('d_directr', s, n, m)))
    for n, m in [(n, m) for n in range(2, 11) for m in range(2, 11)] + [(16, 16), (17, 16), (16, 17), (33, 5), (5, 33), (31, 2)]:
        if n < 6 or (n + m) % 2 == 0 or n > 10:
            cases.append((f'fft_convolve_{s} {n} * {m}', K_, f_ret('d_fftc', s, n, m)))
            if n < 8 and m < 8 or n > 10: cases.append((f'fft_convolver_{s} {n} * {m}', K_, f_obj(s, n, m)))
    for n, m in ((0, 0), (0, 3), (3, 0)): cases.append((f'fft_convolve_{s} empty {n} * {m}', K_, f_ret('d_fftc', s, n, m)))
for s in E:
    for n, m in ((64, 64), (65, 40), (40, 65), (100, 3), (3, 100), (127, 130), (200, 57)) + (((300, 300), (513, 2), (2, 511)) if c.deep else ()):
        at = few(min(n, m)) + [max(n, m) - 1]
        cases.append((f'direct_convolve_{s} {n} * {m} (sparse input)', K_, only(at, f_direct(s, n, m))))
        cases.append((f'fft_convolver_{s} {n} * {m} (sparse input)', K_, only(at, f_obj(s, n, m))))
for s in E:
    for n, m in ((1500, 3), (3, 1500), (4100, 2)): cases.append((f'direct_convolve_{s} {n} * {m} (sparse input)', K_, only((0, 1, 2, 700, 1499), f_direct(s, n, m))))
    for n, m in ((600, 500), (5, 1500), (2000, 49)): cases.append((f'fft_convolver_{s} {n} * {m} (sparse input)', K_, only((0, 2, 48, 499), f_obj(s, n, m))))
forms.run(c, cases, expect=400)
more = []
for n in forms.around(K_, 4, 2100, known=(27, 256, 65536)):
    for s in E:
        for a, b in ((n, 3), (3, n)) + (((n, n), (n, n + 1)) if n < 200 else ()): more.append((f'direct_convolve_{s} {a} * {b} (sparse input)', K_, only((0, 1, 2, n // 2, n - 1), f_direct(s, a, b))))
        for a, b in ((n, n), (n, 3), (2, n), (n // 2, n - n // 2 + 1)): more.append((f'fft_convolver_{s} {a} * {b} (sparse input)', K_, only((0, 1, n // 2, n - 1), f_obj(s, a, b))))
if more: forms.run(c, more)
c.assumptions.append('signal lengths up to 33 with every sample present, up to 4100 (and next to constants the code compares with) with a few samples present; rounding is abstracted')
done(c)

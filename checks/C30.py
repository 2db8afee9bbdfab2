from lib import *
c = Check('C30', 'other', forms.EXPL, 'transforms on separate real and imaginary arrays, and on flat interleaved arrays, equal the DFT in both directions, in place and out of place')
K_ = ('transforms.cpp', 'avx2', ())
E = dict(f=F32, d=F64)
ri = lambda a, b, n, st=1: [(sym(f'{a}{i * st}'), sym(f'{b}{i * st}')) for i in range(n)]
def sw(I, re, im, w, st=1):
    for k, (a, b) in enumerate(w):
        I.want(re, k * st, a); I.want(im, k * st, b)
def f_split(s, o, d):
    n = 1 << o
    def f(I):
        x, y, u, v = (I.arr(q, E[s], n) for q in 'xyuv')
        I.call(f'd_split_{s}', [x, y, u, v, o, d])
        sw(I, x, y, dft(ri('x', 'y', n), d)); sw(I, u, v, dft(ri('u', 'v', n), -d))
    return f
def f_split2(s, o):
    n = 1 << o
    def f(I):
        x, y = I.arr('x', E[s], n), I.arr('y', E[s], n)
        b = [I.buf(q, E[s], n) for q in ('re', 'im', 'bre', 'bim')]
        I.call(f'd_split2_{s}', [x, y] + b + [o])
        sw(I, b[0], b[1], dft(ri('x', 'y', n), 1)); sw(I, b[2], b[3], dft(ri('x', 'y', n), -1)); I.unwritten(x); I.unwritten(y)
    return f
def f_split1(s, o):
    n = 1 << o
    def f(I):
        x, y, u, v = I.arr('x', E[s], n), I.arr('y', E[s], n), I.arr('u', E[s], 2 * n), I.arr('v', E[s], 2 * n)
        I.call(f'd_split1_{s}', [x, y, u, v, o])
        sw(I, x, y, dft(ri('x', 'y', n), 1)); sw(I, u, v, dft(ri('u', 'v', n, 2), -1), 2)
        for i in range(1, 2 * n, 2): I.want(u, i, sym(f'u{i}')); I.want(v, i, sym(f'v{i}'))
    return f
def f_split3(s, o, which):
    """out of place with one of the two arrays shared between input and output, or both"""
    n = 1 << o
    def f(I):
        if which == 5:
            x, y, u, v = (I.arr(q, E[s], n) for q in 'xyuv')
            I.call(f'd_split5_{s}', [x, y, u, v, o])
            sw(I, x, y, dft(ri('x', 'y', n), 1)); sw(I, u, v, dft(ri('u', 'v', n), -1)); return
        x, y, u, v = (I.arr(q, E[s], n) for q in 'xyuv')
        w, z = I.buf('w', E[s], n), I.buf('z', E[s], n)
        I.call(f'd_split{which}_{s}', [x, y, w, u, v, z, o])
        if which == 3: sw(I, x, w, dft(ri('x', 'y', n), 1)); sw(I, z, v, dft(ri('u', 'v', n), -1)); I.unwritten(y); I.unwritten(u)
        else: sw(I, w, y, dft(ri('x', 'y', n), 1)); sw(I, u, z, dft(ri('u', 'v', n), -1)); I.unwritten(x); I.unwritten(v)
    return f
def f_expc(s, o, d):
    n = 1 << o
    def f(I):
        x, y = I.arr('x', E[s], 2 * n), I.arr('y', E[s], 2 * n)
        I.call(f'd_expc_{s}', [x, y, o, d])
        for q, nm, dd in ((x, 'x', d), (y, 'y', -d)):
            for k, (a, b) in enumerate(dft(Z(nm, n), dd)): I.want(q, 2 * k, a); I.want(q, 2 * k + 1, b)
    return f
def f_api(s, o, two):
    fn = 'd_fft3' if two == 2 else 'd_fft1'
    n = 1 << o
    e = F32 if s.endswith('f') else F64
    def f(I):
        if two == 1:
            x, y, z = I.arr('x', e, 2 * n), I.buf('y', e, 2 * n), I.buf('z', e, 2 * n)
            I.call(f'd_fft2_{s}', [x, y, z, o])
            for k, (a, b) in enumerate(dft(Z('x', n), 1)): I.want(y, 2 * k, a); I.want(y, 2 * k + 1, b)
            for k, (a, b) in enumerate(Z('x', n)): I.want(z, 2 * k, fmul(a, float(n)), 1e-4); I.want(z, 2 * k + 1, fmul(b, float(n)), 1e-4)
            I.unwritten(x)
        else:
            x, y = I.arr('x', e, 2 * n), I.arr('y', e, 2 * n)
            I.call(f'{fn}_{s}', [x, y, o])
            for q, nm, dd in ((x, 'x', 1), (y, 'y', -1)):
                for k, (a, b) in enumerate(dft(Z(nm, n), dd)): I.want(q, 2 * k, a); I.want(q, 2 * k + 1, b)
    return f
cases = []
top = 9 if c.deep else 8
for s in E:
    for o in range(0, top):
        for d in (1, -1):
            cases.append((f'split_{s} order {o} dir {d}', K_, f_split(s, o, d)))
            if o >= 1 and o < 7: cases.append((f'flat_{s} order {o} dir {d}', K_, f_expc(s, o, d)))
        if o < 7:
            cases.append((f'split_out_of_place_{s} order {o}', K_, f_split2(s, o)))
            for q, nm in ((3, 'shared real then imaginary array'), (4, 'shared imaginary then real array'), (5, 'same arrays')): cases.append((f'split_out_of_place_{s} order {o} {nm}', K_, f_split3(s, o, q)))
            cases.append((f'split_strided_{s} order {o}', K_, f_split1(s, o)))
for s in ('zf', 'zd', 'nd'):
    for o in range(0, 7):
        for two in (0, 1, 2): cases.append((f'fft_function_{s} order {o} {("in", "out of", "out of, same buffer, in")[two]} place', K_, f_api(s, o, two)))
for s in E:
    for o in (top, top + 1, top + 2):
        cases.append((f'split_{s} order {o} (sparse input)', K_, only(few(1 << o), f_split(s, o, 1 - o % 2 * 2))))
        cases.append((f'flat_{s} order {o} (sparse input)', K_, only(few(2 << o), f_expc(s, o, 1 - o % 2 * 2))))
for s in ('zf', 'zd', 'nd'):
    for o in (8, 10): cases.append((f'fft_function_{s} order {o} (sparse input)', K_, only(few(2 << o), f_api(s, o, int(o == 8)))))
forms.run(c, cases, expect=160)
more = []
for o in forms.orders_beyond(K_, 10, 15):
    for s in E:
        more.append((f'split_{s} order {o} (sparse input)', K_, only(few(1 << o), f_split(s, o, 1 - o % 2 * 2))))
        more.append((f'flat_{s} order {o} (sparse input)', K_, only(few(2 << o), f_expc(s, o, 1 - o % 2 * 2))))
    for s in ('zf', 'zd', 'nd'): more.append((f'fft_function_{s} order {o} (sparse input)', K_, only(few(2 << o), f_api(s, o, o % 2))))
if more: forms.run(c, more)
done(c)

from lib import *
c = Check('C17', 'other', forms.EXPL, 'forward real transforms write bins 0..n/2 of the DFT, inverse real transforms the n real samples of the conjugate-symmetric spectrum; deinterleaving separates two real spectra; the packed in-place real transform holds X[0], X[n/2] and then the remaining bins')
K_ = ('transforms.cpp', 'avx2', ())
E = dict(zf=F32, zd=F64, nd=F64)
def f_rfft(s, order, full):
    n = 1 << order
    m = n // 2 + 1
    outn = n if full and n >= m else m
    def f(I):
        x, y, z = I.arr('x', E[s], n), I.buf('spectrum', E[s], 2 * outn), I.buf('back', E[s], n)
        I.call(f'd_rfft_{s}', [x, y, z, order, outn])
        w = dft([(sym(f'x{i}'), 0.0) for i in range(n)], 1)
        for k in range(m):
            I.want(y, 2 * k, w[k][0]); I.want(y, 2 * k + 1, w[k][1])
        for i in range(n): I.want(z, i, fmul(sym(f'x{i}'), float(n)), 1e-6 * max(n, 100))
        I.unwritten(x)
    return f
def f_irfft(s, order, full):
    n = 1 << order
    m = n // 2 + 1
    inn = n if full and n >= m else m
    def f(I):
        x, y, z = I.arr('x', E[s], 2 * inn), I.buf('out', E[s], n), I.buf('strided', E[s], 2 * n)
        I.call(f'd_irfft_{s}', [x, y, z, order, inn])
        X = Z('x', inn)[:m]
        full_ = [X[k] if k < m else (X[n - k][0], fmul(X[n - k][1], -1.0)) for k in range(n)]
        w = dft(full_, -1)
        for i in range(n):
            I.want(y, i, w[i][0]); I.want(z, 2 * i, w[i][0])
        I.unwritten(x)
    return f
def f_deint(s, n):
    def f(I):
        x, y, z = I.arr('x', E[s], 2 * n), I.buf('first', E[s], 2 * (n // 2 + 1)), I.buf('second', E[s], 2 * (n // 2 + 1))
        I.call(f'd_deint_{s}', [x, y, z, n])
        X = Z('x', n)
        for k in range(n // 2 + 1):
            a, b = X[k], X[-k % n]
            I.want(y, 2 * k, lin([(a[0], .5), (b[0], .5)])); I.want(y, 2 * k + 1, lin([(a[1], .5), (b[1], -.5)]))
            # (Z[k] - conj Z[n-k]) / 2i
            I.want(z, 2 * k, lin([(a[1], .5), (b[1], .5)])); I.want(z, 2 * k + 1, lin([(a[0], -.5), (b[0], .5)]))
        I.unwritten(x)
    return f
cases = []
for s in E:
    for o in range(0, 9 if c.deep else 8):
        for full in (0, 1):
            cases.append((f'rfft_{s} order {o} full={full}', K_, f_rfft(s, o, full)))
            cases.append((f'irfft_{s} order {o} full={full}', K_, f_irfft(s, o, full)))
    for n in list(range(1, 20)) + [32, 64, 65]:
        cases.append((f'deinterleave_{s} n={n}', K_, f_deint(s, n)))
for s in E:
    for o in range(9 if c.deep else 8, 12 if c.deep else 11):
        cases.append((f'rfft_{s} order {o} (sparse input)', K_, only(few(1 << o), f_rfft(s, o, 0))))
        cases.append((f'irfft_{s} order {o} (sparse input)', K_, only(few(1 << o), f_irfft(s, o, 0))))
    for n in (100, 127, 256, 1000): cases.append((f'deinterleave_{s} n={n} (sparse input)', K_, only(few(n), f_deint(s, n))))
def f_expr(s, o):
    e, n = E['z' + s], 1 << o
    def f(I):
        x, y = I.arr('x', e, n), I.arr('y', e, n)
        I.call(f'd_expr_{s}', [x, y, o])
        w = dft([(sym(f'x{i}'), 0.0) for i in range(n)], 1)
        I.want(x, 0, w[0][0]); I.want(x, 1, w[n // 2][0])
        for k in range(1, n // 2): I.want(x, 2 * k, w[k][0]); I.want(x, 2 * k + 1, w[k][1])
        for i in range(n): I.want(y, i, fmul(sym(f'y{i}'), n / 2), 1e-6 * max(n, 100))
    return f
for s in 'fd':
    for o in range(2, 8): cases.append((f'packed_rfft_{s} order {o}', K_, f_expr(s, o)))
    for o in (8, 9, 10): cases.append((f'packed_rfft_{s} order {o} (sparse input)', K_, only(few(1 << o), f_expr(s, o))))
forms.run(c, cases, expect=150)
more = []
for o in forms.orders_beyond(K_, 10, 15, 'd_.*rfft|_ZN'):
    for s in E:
        more.append((f'rfft_{s} order {o} (sparse input)', K_, only(few(1 << o), f_rfft(s, o, 0))))
        more.append((f'irfft_{s} order {o} (sparse input)', K_, only(few(1 << o), f_irfft(s, o, 0))))
    for s in 'fd': more.append((f'packed_rfft_{s} order {o} (sparse input)', K_, only(few(1 << o), f_expr(s, o))))
if more: forms.run(c, more)
c.assumptions.append('transform orders up to %d; rounding is abstracted; an inverse real transform reads the imaginary parts of bins 0 and n/2 as given' % (8 if c.deep else 7))
done(c)

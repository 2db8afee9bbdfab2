from lib import *
c = Check('C18', 'other', forms.EXPL, 'bit and digit reversal move element i to the position with the reversed base-r digits of i, for interleaved, pairwise and split data, and touch nothing else')
K_ = ('transforms.cpp', 'avx2', ())
E = dict(zf=F32, zd=F64, nd=F64)
def rev(i, r, digits):
    o = 0
    for _ in range(digits):
        o = o * r + i % r
        i //= r
    return o
def f_bit(s, order, fn='bitrev'):
    n = 1 << order
    def f(I):
        x, y = I.arr('x', E[s], 2 * n), I.arr('y', E[s], 2 * n)
        I.call(f'd_{fn}_{s}', [x, y, order])
        for i in range(n):
            j = rev(i, 2, order)
            for b in (0, 1):
                I.want(x, 2 * i + b, sym(f'x{2 * j + b}')); I.want(y, 2 * i + b, sym(f'y{2 * j + b}'))
    return f
def f_bits(s, order):
    n = 1 << order
    def f(I):
        x = I.arr('x', E[s], 2 * n)
        I.call(f'd_bitrevs_{s}', [x, order])
        for i in range(n):
            j = rev(i, 2, order)
            I.want(x, i, sym(f'x{j}')); I.want(x, n + i, sym(f'x{n + j}'))
    return f
def f_dig(s, r, k):
    n = r ** k
    def f(I):
        x = I.arr('x', E[s], 2 * n)
        I.call(f'd_digit{r}_{s}', [x, n])
        for i in range(n):
            j = rev(i, r, k)
            for b in (0, 1): I.want(x, 2 * i + b, sym(f'x{2 * j + b}'))
    return f
def f_tw(s, n, d):
    def f(I):
        x = I.buf('table', E[s], n + 2)
        I.call(f'd_tw_{s}', [x, n, d])
        I.want(x, 2 * (n // 2), float(n // 2), what='table length')
        for i in range(n // 2):
            w = forms.tw(n)[(i * d) % n]
            I.want(x, 2 * i, w.real, 1e-6); I.want(x, 2 * i + 1, w.imag, 1e-6)
    return f
cases = []
for s in E:
    for o in range(0, 11):
        cases.append((f'bitrev_{s} order {o}', K_, f_bit(s, o)))
        cases.append((f'bitrev_function_{s} order {o}', K_, f_bit(s, o, 'bitrevf')))
        cases.append((f'bitrev_split_{s} order {o}', K_, f_bits(s, o)))
    for r, ks in ((2, range(0, 9)), (3, range(0, 7)), (4, range(0, 6)), (5, range(0, 5))):
        for k in ks:
            if r ** k >= 1: cases.append((f'digitrev{r}_{s} n={r ** k}', K_, f_dig(s, r, k)))
    for n in [0, 2, 4, 6, 8, 10, 12, 14, 16, 24, 32, 64, 128, 256, 512, 1024]:
        for d in (1, -1): cases.append((f'twiddle_{s} n={n} dir={d}', K_, f_tw(s, n, d)))
for s in ('zf', 'nd'):
    for o in (11, 12, 13): cases += [(f'bitrev_{s} order {o}', K_, f_bit(s, o)), (f'bitrev_split_{s} order {o}', K_, f_bits(s, o)), (f'bitrev_function_{s} order {o}', K_, f_bit(s, o, 'bitrevf'))]
    for n in (2048, 4096, 8192):
        for d in (1, -1): cases.append((f'twiddle_{s} n={n} dir={d}', K_, f_tw(s, n, d)))
forms.run(c, cases, expect=150)
more = []
for o in forms.orders_beyond(K_, 13, 16):
    more += [(f'bitrev_zf order {o}', K_, f_bit('zf', o)), (f'bitrev_split_zf order {o}', K_, f_bits('zf', o)), (f'bitrev_function_zf order {o}', K_, f_bit('zf', o, 'bitrevf')), (f'twiddle_zd n={1 << o} dir=1', K_, f_tw('zd', 1 << o, 1))]
if more: forms.run(c, more)
done(c)

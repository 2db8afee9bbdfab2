from lib import *
c = Check('C15', 'other', forms.EXPL, 'a plan of order k applied to x leaves sum_j x[j] exp(-+2 pi i j k / n) in x[k], n = radix^k, forward and backward, contiguous or strided, every time it is used')
K_ = ('fft.cpp', 'avx2', ())
RAD = dict(dit4=4, dif4=4, dif3=3, dif5=5, stock3=3, stock4=4, stock5=5, stock8=8, stockt4=4)
PLANS = [(p, s) for p in ('fft', 'dit4', 'dif4', 'dif3', 'dif5', 'stock2r', 'stock2i', 'stock3', 'stock4', 'stock5', 'stock8', 'stockt4') for s in ('zd', 'nf')] + \
        [(f'dit2v{i}', s) for i in (1, 2, 3, 4) for s in ('zf', 'nd')]
def case(p, s, var, order, d):
    n = RAD.get(p, 2) ** order
    st = 3 if var == '_str' else 1
    ety = F64 if s.endswith('d') else F32
    def f(I):
        x = I.arr('x', ety, 2 * ((n - 1) * st + 1))
        y = I.arr('y', ety, 2 * n)
        z = Z('x', n, st)
        if var == '_two':
            I.call(f'd_{p}_{s}_two', [x, y, order, d])
            for k, (re, im) in enumerate(z):
                I.want(x, 2 * k, fmul(re, float(n)), 1e-4 * n); I.want(x, 2 * k + 1, fmul(im, float(n)), 1e-4 * n)
            z, x, dd = Z('y', n), y, -d
        else:
            I.call(f'd_{p}_{s}{var}', [x, order, d])
            dd = d
        want = dft(z, dd)
        for k, (re, im) in enumerate(want):
            I.want(x, 2 * k * st, re); I.want(x, 2 * k * st + 1, im)
        if st > 1:
            for i in range(2 * ((n - 1) * st + 1)):
                if i // 2 % st: I.want(x, i, sym(f'x{i}'))
    return (f'{p}_{s}{var} order {order} dir {d}', K_, f)
cases = []
for p, s in PLANS:
    cap = 256 if not c.deep else 1024
    o = 0
    while RAD.get(p, 2) ** o <= cap:
        n = RAD.get(p, 2) ** o
        for d in (1, -1):
            cases.append(case(p, s, '', o, d))
            if n <= 64: cases.append(case(p, s, '_str', o, d))
            if n <= 32: cases.append(case(p, s, '_two', o, d))
        o += 1
TOP = 16384 if c.deep else 4096
# larger transforms: inputs that vanish except at a few positions (the transform is linear, and every output still passes every stage)
def large(p, s, order, d):
    n = RAD.get(p, 2) ** order
    ety = F64 if s.endswith('d') else F32
    js = sorted({1, n // 3, n // 2 + 1, n - 1})
    def f(I):
        x = I.sparse('x', ety, 2 * n, [2 * j + (i & 1) for i, j in enumerate(js)])
        I.call(f'd_{p}_{s}', [x, order, d])
        w = forms.tw(n)
        for k in range(n):
            re, im = [], []
            for i, j in enumerate(js):
                t = w[(j * k * d) % n] * (1j if i & 1 else 1)
                v = sym(f'x{2 * j + (i & 1)}')
                re.append((v, t.real)); im.append((v, t.imag))
            I.want(x, 2 * k, lin(re), 1e-4); I.want(x, 2 * k + 1, lin(im), 1e-4)
    return (f'{p}_{s} order {order} dir {d} (sparse input)', K_, f)
for p, s in PLANS:
    o = 0
    while RAD.get(p, 2) ** o <= TOP:
        if RAD.get(p, 2) ** o > cap: cases.append(large(p, s, o, 1 if (o + len(p)) % 2 else -1))
        if RAD.get(p, 2) ** o > cap and c.deep: cases.append(large(p, s, o, -1 if (o + len(p)) % 2 else 1))
        o += 1
cases.sort(key=lambda x: -int(re.search(r'order (\d+)', x[0]).group(1)))
forms.run(c, cases, expect=300)
more = []
for p, s in PLANS:
    r = RAD.get(p, 2)
    for o in forms.orders_beyond(K_, int(math.log(TOP, r) + 1e-9), int(math.log(40000, r) + 1e-9), r=r): more.append(large(p, s, o, 1 if (o + len(p)) % 2 else -1))
if more: forms.run(c, more)
c.assumptions.append('transform sizes up to %d points with every input present, up to %d with a few inputs present (beyond, sizes next to constants the code compares with); rounding is abstracted' % (cap, TOP))
done(c)

from lib import *
c = Check('C16', 'other', forms.EXPL, 'dft(in, out) and the plan for arbitrary sizes leave sum_j x[j] exp(-+2 pi i j k / n) in out[k] for every n, in both directions, however often the plan is used')
K_ = ('transforms.cpp', 'avx2', ())
E = dict(zf=F32, zd=F64)
def cwant(I, o, w, st=1, tol=1e-5):
    for k, (re, im) in enumerate(w):
        I.want(o, 2 * k * st, re, tol); I.want(o, 2 * k * st + 1, im, tol)
def f_dft(s, n):
    def f(I):
        x, y, z = I.arr('x', E[s], 2 * n), I.buf('forward', E[s], 2 * n), I.buf('backward', E[s], 2 * n)
        I.call(f'd_dft_{s}', [x, y, z, n])
        t = 1e-5 * max(1, n / 4)
        cwant(I, y, dft(Z('x', n), 1), tol=t); cwant(I, z, dft(Z('x', n), -1), tol=t); I.unwritten(x)
    return f
def f_dfts(s, n, d):
    def f(I):
        x, y = I.arr('x', E[s], 4 * n), I.buf('out', E[s], 6 * n)
        I.call(f'd_dfts_{s}', [x, y, n, d])
        cwant(I, y, dft(Z('x', n, 2), d), 3); I.unwritten(x)
        I.claim(all(i // 2 % 3 == 0 for i in (o // (E[s][1] // 8) for o in y.cells)), 'elements between the strided outputs are written')
    return f
def f_blue(s, n, d):
    def f(I):
        x, y = I.arr('x', E[s], 2 * n), I.arr('y', E[s], 2 * n)
        I.call(f'd_blue_{s}', [x, y, n, d])
        cwant(I, y, dft(Z('y', n), -d), tol=1e-5 * max(1, n / 32))
        cwant(I, x, [(fmul(a, float(n)), fmul(b, float(n))) for a, b in dft(Z('x', n), d)], tol=1e-4 * max(n, 1))
    return f
def f_bluef(s, n):
    def f(I):
        x, y, z, w, v = I.arr('x', E[s], 2 * n), I.buf('y', E[s], 2 * n), I.buf('z', E[s], 2 * n), I.arr('w', E[s], 2 * n), I.arr('v', E[s], 4 * n)
        I.call(f'd_bluef_{s}', [x, y, z, w, v, n])
        I.unwritten(x)
        cwant(I, y, dft(Z('x', n), 1)); cwant(I, z, dft(Z('x', n), -1)); cwant(I, w, dft(Z('w', n), 1)); cwant(I, v, dft(Z('v', n, 2), -1), 2)
    return f
cases = []
for s in E:
    for n in list(range(0, 21)) + [24, 31, 32, 33, 48] + ([64, 97, 100, 128] if c.deep else []):
        cases.append((f'dft_{s} n={n}', K_, f_dft(s, n)))
        if n:
            for d in (1, -1): cases.append((f'dft_plan_{s} n={n} dir={d}', K_, f_blue(s, n, d)))
            if n <= 17: cases.append((f'dft_plan_api_{s} n={n}', K_, f_bluef(s, n)))
        if n <= 12:
            for d in (1, -1): cases.append((f'dft_strided_{s} n={n} dir={d}', K_, f_dfts(s, n, d)))
for s in E:
    for n in (64, 97, 100, 127, 128, 129, 255, 256, 360, 500) + ((511, 512, 600, 1000, 1024) if c.deep else ()):
        at = few(2 * n)
        if n < 260 or c.deep: cases.append((f'dft_{s} n={n} (sparse input)', K_, only(at, f_dft(s, n))))
        cases.append((f'dft_plan_{s} n={n} dir={1 - n % 2 * 2} (sparse input)', K_, only(at, f_blue(s, n, 1 - n % 2 * 2))))
cases.sort(key=lambda x: -int(re.search(r'n=(\d+)', x[0]).group(1)))
forms.run(c, cases, expect=200)
more = []
for n in forms.around(K_, 48, 1100, rx='dft|blue', known=(64, 256, 128, 512, 1024)):
    for s in E:
        if n < 300: more.append((f'dft_{s} n={n} (sparse input)', K_, only(few(2 * n), f_dft(s, n))))
        for d in (1, -1): more.append((f'dft_plan_{s} n={n} dir={d} (sparse input)', K_, only(few(2 * n), f_blue(s, n, d))))
if more: forms.run(c, more)
c.assumptions.append('the listed transform sizes; rounding is abstracted')
done(c)

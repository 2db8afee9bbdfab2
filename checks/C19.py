from lib import *
c = Check('C19', 'other', forms.EXPL, 'a plan built from order k reports order k and size radix^k; unsupported orders of the default plan are rejected with an exception; max_size is radix^max_order; copies, moved-to and assigned plans transform like their source, without it')
K_ = ('transforms.cpp', 'avx2', ())
RAD = dict(dit4=4, dif4=4, dif3=3, dif5=5, stock3=3, stock4=4, stock5=5, stock8=8, stockt4=4)
def geo(p, o):
    def f(I):
        r = I.buf('result', I64, 2)
        I.call(f'd_geo_{p}', [r, o])
        I.want(r, 0, o, what='order'); I.want(r, 1, RAD.get(p, 2) ** o, what='size')
    return f
def mx(p):
    def f(I):
        r = I.buf('result', I64, 2)
        I.call(f'd_max_{p}', [r])
        I.claim(I.at(r, 1) == RAD.get(p, 2) ** I.at(r, 0), f'max_size {I.at(r, 1)} is not radix^max_order')
        I.claim(I.at(r, 0) >= 9, f'max_order is only {I.at(r, 0)}')
    return f
def rej(o):
    def f(I):
        r = I.buf('result', I64, 2)
        I.limit = 200000
        try:
            I.call('d_geo_fft', [r, o])
        except Thrown as e:
            I.claim('_ZTISt' in e.what, f'order {o} is not rejected by the plan: ' + e.what)
            return
        except Undecided as e:
            if str(e) != 'step limit': raise
        I.claim(False, f'plan of order {o} beyond max_order is accepted')
    return f
def dftn(n):
    def f(I):
        r = I.buf('result', I64, 1)
        I.call('d_geo_dftplan', [r, n])
        I.want(r, 0, n, what='size')
    return f
ALL = ['fft', 'dit4', 'dif4', 'dif3', 'dif5', 'stock2r', 'stock2i', 'stock3', 'stock4', 'stock5', 'stock8', 'stockt4']
cases = []
for p in ALL + ['rfft', 'split', 'dct']:
    o = 0
    while RAD.get(p, 2) ** o <= 1024:
        cases.append((f'{p} order {o}', K_, geo(p, o))); o += 1
for p in ALL: cases.append((f'{p} max', K_, mx(p)))
for n in list(range(1, 40)) + [100, 257]: cases.append((f'dft_plan n={n}', K_, dftn(n)))
for o in (28, 29, 31, 32, 33, 40, 63, 64, 65, 127, 1 << 20, 1 << 32, (1 << 32) + 3, (1 << 63), (1 << 64) - 1): cases.append((f'fft rejects order {o}', K_, rej(o)))
# plans are values: the original, a copy moved on after the original is gone, and one assigned over a used plan of another size
K_L = ('life.cpp', 'avx2', ())
def life(p, o):
    n = o if p in ('dft', 'fftconv', 'stft') else {**RAD, 'v1': 2}.get(p, 2) ** o
    def f(I):
        big = {'dit4': 8, 'dif4': 8, 'stock4': 8, 'stockt4': 8, 'stock8': 16, 'dif5': 10, 'stock5': 10}.get(p, 6) * n + 32
        a = [I.arr(q, F32, 4 * n + 16) for q in 'xyz']; b = [I.buf(q, F32, 4 * n + 16) for q in 'uvw']
        s, r = I.arr('s', F32, [0.0] * big), I.buf('o', I64, 4)
        I.call(f'd_life_{p}', a + b + [s, r, o])
        if p not in ('fftconv', 'stft'):
            for i in (0, 1): I.want(r, i, n, what='size')
            if p != 'dft':
                for i in (2, 3): I.want(r, i, o, what='order')
        for q, src, out in zip(('original', 'copy', 'assigned plan'), 'xyz', b):
            X = lambda i: sym(f'{src}{i}')
            if p == 'fftconv': w = forms.conv([X(i) for i in range(n)], [X(n + i) for i in range(4)], n + 3)
            elif p == 'stft': w = [v for fr in (0, 1) for z in dft([(X(fr * n + i), 0.0) for i in range(n)], 1)[:n // 2 + 1] for v in z]
            elif p == 'rfft': w = [v for z in dft([(X(i), 0.0) for i in range(n)], 1)[:n // 2 + 1] for v in z]
            elif p == 'irfft':
                h = [(X(2 * i), X(2 * i + 1) if 0 < i < n // 2 else 0.0) for i in range(n // 2 + 1)]
                h += [(h[n - i][0], fmul(h[n - i][1], -1.0)) for i in range(n // 2 + 1, n)]
                w = [z[0] for z in dft(h[:n], -1)]
            elif p == 'split':
                d_ = dft([(X(i), X(n + i)) for i in range(n)], 1); w = [z[0] for z in d_] + [z[1] for z in d_]
            elif p == 'dct': w = [lin([(X(j), 2 * math.cos(math.pi * k * (2 * j + 1) / (2 * n))) for j in range(n)]) for k in range(n)]
            else: w = [v for z in dft([(X(2 * i), X(2 * i + 1)) for i in range(n)], 1) for v in z]
            for i, v in enumerate(w): I.want(out, i, v, 1e-4, what=q)
    return f
for p in ALL + ['v1', 'rfft', 'irfft', 'split', 'dct', 'expc']:
    for o in ((2, 4) if p in ('fft', 'v1', 'stock2r', 'stock2i', 'rfft', 'irfft', 'split', 'dct', 'expc') else (1, 2)): cases.append((f'{p} order {o} used, copied, assigned and moved', K_L, life(p, o)))
for o in (4, 5, 9): cases.append((f'dft_plan n={o} used, copied, assigned and moved', K_L, life('dft', o)))
for o in (3, 8): cases.append((f'fft_convolver of {o} used, copied, assigned and moved', K_L, life('fftconv', o)))
cases.append(('stft_plan of 8 used, copied, assigned and moved', K_L, life('stft', 8)))
forms.run(c, cases, expect=100)
done(c)

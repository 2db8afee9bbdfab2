from lib import *
import random
c = Check('C31', 'other', forms.EXPL + ' Quantisation is a closed expression of one input; that expression is interpreted at sampled values of the input.',
          'a coefficient read back from the compressed delay line is clamp(round(x * max), min, max) / max of the value inserted last at that position; the accessor returns q / max at the mapped position')
K_ = ('compressed.cpp', 'avx2', ())
T = dict(f8=(F32, 8), f16=(F32, 16), s16=(F32, 16), d16=(F64, 16), d8=(F64, 8))
def points(bits, seed):
    r = random.Random(seed)
    m = 2 ** (bits - 1) - 1
    for q in (0, 1, -1, 2, -2, m, -m, m - 1, 1 - m, m // 2, -m // 3): 
        for fr in (0.0, 0.2, -0.2, 0.4, -0.4): yield (q + fr) / m
    for _ in range(200): yield (r.randrange(-m, m) + r.choice((0.1, 0.3, 0.4, 0.6, 0.8))) / m
    for v in (1.0, 1.5, 2.0, 3.0, 100.0, 32768.0, 1e6, 1e9): yield v; yield -v
def quant(x, bits):
    m = 2 ** (bits - 1) - 1
    q = x * m
    q = math.floor(abs(q) + 0.5) * (1 if q >= 0 else -1)
    return max(-m - 1, min(m, q)) / m
def f_one(t):
    ety, bits = T[t]
    def f(I):
        I.verdict = 'held'
        x, y = I.arr('x', ety, 2), I.buf('stored', ety, 2)
        I.call(f'd_one_{t}', [x, y])
        for i in (0, 1):
            v = I.at(y, i)
            for p in points(bits, 7):
                got = forms.value(v, {f'x{i}': p, f'x{1 - i}': 0.77})
                I.claim(abs(got - quant(p, bits)) < 0.02 / 2 ** bits, f'{"re" if not i else "im"} = {p} is read back as {got}, specified {quant(p, bits)}')
    return f
def f_fdl(t, rows, bins, where):
    ety, bits = T[t]
    def f(I):
        I.verdict = 'held'
        n = 2 * bins * len(where)
        x, y, w = I.arr('x', ety, n), I.buf('rows', ety, 2 * rows * bins), I.arr('where', I64, list(where))
        I.call(f'd_cfdl_{t}', [x, y, rows, bins, w, len(where)])
        last = {r: i for i, r in enumerate(where)}
        r_ = random.Random(3)
        m = 2 ** (bits - 1) - 1
        env = {f'x{i}': (r_.randrange(-m, m) + 0.3) / m for i in range(n)}
        for r in range(rows):
            for k in range(2 * bins):
                got = forms.value(I.at(y, 2 * r * bins + k), env)
                want = quant(env[f'x{2 * last[r] * bins + k}'], bits) if r in last else 0.0
                I.claim(abs(got - want) < 0.02 / 2 ** bits, f'row {r} element {k} is read back as {got}, inserted {want}')
        I.unwritten(x)
    return f
def f_acc(t, ity, fty, bits, cx, rows, cols, r0):
    def f(I):
        I.verdict = 'held'
        m = 2 ** (bits - 1) - 1
        n = rows * cols * (2 if cx else 1)
        p, y = I.arr('q', ity, [forms.isym(f'q{i}') for i in range(n)]), I.buf('out', fty, (rows * cols + cols - 1) * (2 if cx else 1))
        I.call(f'd_acc_{t}', [p, y, rows, cols, r0])
        s = 2 if cx else 1
        order = list(range(n)) + [s * (r0 * cols + k) + j for k in range(1, cols) for j in range(s)]
        for seed in range(4):
            r_ = random.Random(seed)
            env = {f'q{i}': r_.choice((r_.randrange(-m - 1, m + 1), m, -m - 1)) for i in range(n)}
            for i, q in enumerate(order):
                got = forms.value(I.at(y, i), env)
                I.claim(abs(got - env[f'q{q}'] / m) < 1e-6, f'element {i}: {env[f"q{q}"]} is read as {got}')
        I.unwritten(p)
    return f
cases = []
for t in T:
    cases.append((f'compressed_fdl_{t} quantisation', K_, f_one(t)))
    for rows, bins, where in ((1, 1, ()), (3, 2, (0, 1, 2)), (3, 5, (2, 0, 2)), (4, 9, (3, 2, 1, 0, 3, 1)), (2, 8, (1,))):
        cases.append((f'compressed_fdl_{t} {rows}x{bins} insert {where}', K_, f_fdl(t, rows, bins, where)))
for t, ity, fty, bits, cx in (('f8', I8, F32, 8, 0), ('f16', I16, F32, 16, 0), ('d8', I8, F64, 8, 0), ('d16', I16, F64, 16, 0), ('cf8', I8, F32, 8, 1), ('cf16', I16, F32, 16, 1), ('cd16', I16, F64, 16, 1)):
    for rows, cols, r0 in ((1, 1, 0), (2, 3, 1), (4, 5, 2)):
        cases.append((f'compressed_accessor_{t} {rows}x{cols}', K_, f_acc(t, ity, fty, bits, cx, rows, cols, r0)))
    for rows, cols, r0 in ((2, 300, 1), (300, 2, 299)): cases.append((f'compressed_accessor_{t} {rows}x{cols}', K_, f_acc(t, ity, fty, bits, cx, rows, cols, r0)))
for t in T:
    for rows, bins, where in ((2, 300, (1, 0)), (300, 2, (299, 0, 256, 255, 128))): cases.append((f'compressed_fdl_{t} {rows}x{bins} insert {where}', K_, f_fdl(t, rows, bins, where)))
forms.run(c, cases, expect=40)
c.assumptions.append('the quantiser is interpreted at sampled values away from rounding ties; delay lines up to 4 x 9')
done(c)

from lib import *
import build
c = Check('C33', 'other', forms.EXPL, 'the exported Python functions return the transform of the cropped or padded input in the requested normalisation and the full linear convolution, whatever the strides; other requests raise; no Python object is used without the interpreter lock')
K_ = ('python.cpp', 'avx2', (f'NEO_PYTHON_MAIN="{build.REPO}/extra/python/src/main.cpp"',))
E = dict(f=F32, d=F64)
def locked(I):
    held = True
    for e in I.events:
        if e[0] != 'mark': continue
        if e[1] == 1: held = False
        elif e[1] == 2: held = True
        elif e[1] == 3: I.claim(held, 'a Python object is created while the interpreter lock is released')
    I.claim(held, 'the interpreter lock is not taken back')
def ix(i, n, step): return i * step if step > 0 else (i - n + 1) * step
def f_fft(s, ln, step, n, norm, inv, nd=1):
    N = ln if n is None else n
    def f(I):
        x = I.arr('x', E[s], 2 * ln * abs(step))
        y, e = I.buf('y', E[s], 2 * N), I.buf('e', I64, 4)
        args = [x, y, ln, step, nd, -1 if n is None else n, norm, inv, e]
        if nd != 1 or N < 1 or N & (N - 1):
            try: I.call(f'd_py_fft_{s}', args)
            except Thrown: I.claim(True, ''); return
            I.claim(False, f'length {ln}, n {n}, {nd} dimensions is accepted')
        I.call(f'd_py_fft_{s}', args)
        I.claim(I.at(e, 0) == 1, f'{I.at(e, 0)} functions are registered under this name and type')
        I.claim(I.at(e, 1) == N and I.at(e, 3) == 1, f'result has {I.at(e, 1)} elements')
        z = ([(sym(f'x{2 * ix(i, ln, step)}'), sym(f'x{2 * ix(i, ln, step) + 1}')) for i in range(ln)] + [(0.0, 0.0)] * N)[:N]
        g = {0: 1.0 / N if inv else 1.0, 1: 1.0 / math.sqrt(N), 2: 1.0 if inv else 1.0 / N}[norm]
        for k, (a, b) in enumerate(dft(z, -1 if inv else 1)): I.want(y, 2 * k, fmul(a, g), what='re'); I.want(y, 2 * k + 1, fmul(b, g), what='im')
        I.unwritten(x); locked(I)
    return f
def f_conv(s, n, sx, m, sh, mode, via, dx=1, dh=1):
    def f(I):
        x, h = I.arr('x', E[s], n * abs(sx)), I.arr('h', E[s], m * abs(sh))
        y, e = I.buf('y', E[s], n + m - 1), I.buf('e', I64, 3)
        args = [x, h, y, n, sx, dx, m, sh, dh, mode, via, e]
        if dx != 1 or dh != 1 or mode:
            try: I.call(f'd_py_conv_{s}', args)
            except Thrown: I.claim(True, ''); return
            I.claim(False, f'mode {mode}, {dx} and {dh} dimensions is accepted')
        I.call(f'd_py_conv_{s}', args)
        I.claim(I.at(e, 0) == 1 and I.at(e, 1) == n + m - 1 and I.at(e, 2) == 1, f'{I.at(e, 0)} functions, {I.at(e, 1)} elements')
        I.wants(y, conv([sym(f'x{ix(i, n, sx)}') for i in range(n)], [sym(f'h{ix(i, m, sh)}') for i in range(m)]), what='out'); I.unwritten(x); I.unwritten(h); locked(I)
    return f
def f_enum(en, v, i):
    def f(I):
        a, b = I.arr('en', I8, [ord(q) for q in en + '\0']), I.arr('v', I8, [ord(q) for q in v + '\0'])
        e, l = I.buf('e', I64, 2), I.buf('lib', I64, 13)
        I.call('d_py_enum', [a, b, e]); I.call('d_lib_enum', [l])
        I.claim(I.at(e, 0) == 1, f'{en}.{v} is registered {I.at(e, 0)} times'); I.claim(I.at(e, 1) == I.at(l, i), f'{en}.{v} stands for value {I.at(e, 1)}, the library value is {I.at(l, i)}')
    return f
def f_freq(n, d):
    def f(I):
        y, e = I.buf('y', F64, n), I.buf('e', I64, 2)
        I.call('d_py_freq', [n, d, y, e])
        I.claim(I.at(e, 0) == 1 and I.at(e, 1) == n, f'{I.at(e, 0)} functions, {I.at(e, 1)} elements')
        for k in range(n): I.want(y, k, float(k) / (n * d), what='frequency')
        locked(I)
    return f
REF = [lambda x: 20 * math.log10(x) if x > 0 else -144.0, None, None, None, None]
def f_scalar(i, x):
    def f(I):
        y, z, e = I.buf('y', F64, 1), I.buf('z', F32, 1), I.buf('e', I64, 2)
        I.call('d_py_scalar', [i, float(x), float(x), y, z, e])
        dbl = 0 if i >= 3 else 1
        I.claim(I.at(e, 0) == dbl and I.at(e, 1) == 1, f'{I.at(e, 0)} double and {I.at(e, 1)} float functions')
        want = (max(20 * math.log10(x), -144.0), None, aw(x), math.log2(x), math.log10(x))[i]
        for b, on in ((y, dbl), (z, 1)):
            if not on: continue
            v = I.at(b, 0)
            I.claim(isinstance(v, float), 'the value does not evaluate to a constant')
            w = want if want is not None else max(20 * math.log10(x), -144.0)
            tol = {0: 1e-3, 1: 0.1, 2: 1e-2, 3: 0.02, 4: 0.02}[i]
            I.claim(abs(v - w) <= tol * max(1.0, abs(w) if i == 0 else 1.0), f'f({x}) = {v}, specified {w}')
    return f
def aw(f):
    f2 = f * f
    return 2.0 + 20 * (math.log10(12194.0**2) + 2 * math.log10(f2) - math.log10(f2 + 20.6**2) - math.log10(f2 + 12194.0**2) - 0.5 * math.log10(f2 + 107.7**2) - 0.5 * math.log10(f2 + 737.9**2))
cases = []
for s in E:
    for inv in (0, 1):
        for norm in (0, 1, 2):
            nm = f'{"ifft" if inv else "fft"}_{s} norm {("backward", "ortho", "forward")[norm]}'
            for ln, step, n in ((1, 1, None), (2, 1, None), (4, 1, None), (8, 1, None), (8, 2, None), (4, 3, None), (4, 1, 4), (4, 1, 8), (8, 1, 4), (5, 1, 8), (3, 2, 4), (7, 1, 2), (1, 1, 4), (4, 1, 1), (16, 1, None), (6, 2, 8), (9, 1, 8), (8, -1, None), (5, -2, 4), (3, -1, 8)):
                cases.append((f'{nm} {ln} samples step {step} n {n}', K_, f_fft(s, ln, step, n, norm, inv)))
            for ln, n, nd in ((3, None, 1), (4, 3, 1), (4, 0, 1), (4, None, 2), (6, None, 1), (4, None, 3)):
                cases.append((f'{nm} {ln} samples n {n} {nd} dimensions', K_, f_fft(s, ln, 1, n, norm, inv, nd)))
    for via in (0, 1):
        nm = f'{("direct", "fft")[via]}_convolve_{s}'
        for n, sx, m, sh in ((2, 1, 2, 1), (4, 1, 3, 1), (3, 1, 4, 1), (5, 2, 3, 1), (5, 1, 3, 2), (8, 3, 8, 2), (7, 1, 9, 1), (16, 1, 2, 1), (4, -1, 3, 1), (4, 1, 3, -1), (5, -2, 4, -1)):
            cases.append((f'{nm} {n} step {sx}, {m} step {sh}', K_, f_conv(s, n, sx, m, sh, 0, via)))
        for mode, dx, dh in ((1, 1, 1), (2, 1, 1), (0, 2, 1), (0, 1, 2), (0, 2, 2), (0, 0, 1), (0, 1, 0)):
            cases.append((f'{nm} mode {mode} dimensions {dx} {dh}', K_, f_conv(s, 4, 1, 3, 1, mode, via, dx, dh)))
for i, (en, v) in enumerate([('norm', x) for x in ('backward', 'ortho', 'forward')] + [('convolution_mode', x) for x in ('full', 'valid', 'same')] + [('convolution_method', x) for x in ('automatic', 'direct', 'fft', 'ola', 'ols', 'upola', 'upols')]):
    cases.append((f'{en}.{v}', K_, f_enum(en, v, i)))
for n, d in ((1, 1.0), (4, 0.5), (8, 1 / 44100), (5, 2.0)): cases.append((f'rfftfreq {n} {d}', K_, f_freq(n, d)))
for i in range(5):
    for x in ((1.0, 0.5, 2.0, 0.001, 100.0) if i != 2 else (20.0, 100.0, 1000.0, 10000.0)): cases.append((f'scalar function {i} at {x}', K_, f_scalar(i, x)))
forms.run(c, cases, expect=200)
# the Python wrappers, from their syntax trees: which extension function is called with what
import pyeval as PE
X, Y, N, D = (PE.T(('sym', q)) for q in ('arg_x', 'arg_y', 'arg_n', 'arg_d'))
ext = lambda n: PE.T(('attr', PE.T(('sym', '_neo')), n))
call = lambda f, *a: PE.T(('call', ext(f), tuple(a), ()))
NORM = {k: PE.T(('attr', ext('norm'), k)) for k in ('backward', 'ortho', 'forward')}
MODE = {k: PE.T(('attr', ext('convolution_mode'), k)) for k in ('full', 'valid', 'same')}
def wrapper(path, rows):
    try: m = PE.Module(os.path.join(build.REPO, path), path)
    except (PE.Unsupported, SyntaxError, OSError) as e: c.add(path, 'unknown', str(e)); return
    for fn, args, kw, want in rows:
        nm = f'{path} {fn}({", ".join([PE.show(a) for a in args] + [f"{k}={PE.show(v)}" for k, v in kw.items()])})'
        f = m.env.get(fn)
        try:
            got = m.call(f, list(args), dict(kw)) if isinstance(f, PE.Func) else PE.T(('call', f, tuple(args), tuple(sorted(kw.items())))) if isinstance(f, PE.T) else None
        except PE.Raised as e: got = 'raises'
        except PE.Unsupported as e: c.add(nm, 'unknown', str(e)); continue
        r = PE.decide(got, want)
        if r is True: c.add(nm, 'proved', points=1)
        elif r is None: c.add(nm, 'unknown', f'evaluates to {PE.show(got)}, specified {PE.show(want)}')
        else: c.add(nm, 'refuted', f'evaluates to {PE.show(got)}, specified {PE.show(want)}', lines=[f'{path}:{f.node.lineno}' if isinstance(f, PE.Func) else path])
rows = []
for fn in ('fft', 'ifft'):
    rows += [(fn, (X,), {}, call(fn, X, None, NORM['backward'])), (fn, (X, N), {}, call(fn, X, N, NORM['backward'])), (fn, (X,), dict(n=N), call(fn, X, N, NORM['backward'])), (fn, (X,), dict(norm='nonsense'), 'raises')]
    rows += [(fn, (X, N, k), {}, call(fn, X, N, v)) for k, v in NORM.items()] + [(fn, (X,), dict(norm=k), call(fn, X, None, v)) for k, v in NORM.items()]
rows += [('rfftfreq', (N,), {}, call('rfftfreq', N, 1.0)), ('rfftfreq', (N, D), {}, call('rfftfreq', N, D)), ('rfftfreq', (N,), dict(d=D), call('rfftfreq', N, D))]
wrapper('extra/python/src/neo/fft/__init__.py', rows)
rows = [('amplitude_to_db', (X,), {}, call('amplitude_to_db', X)), ('amplitude_to_db', (X, 'accurate'), {}, call('amplitude_to_db', X)), ('amplitude_to_db', (X, 'estimate'), {}, call('amplitude_to_db_estimate', X)),
        ('amplitude_to_db', (X,), dict(precision='estimate'), call('amplitude_to_db_estimate', X)), ('convolve', (X, Y), {}, call('direct_convolve', X, Y, MODE['full'])), ('convolve', (X, Y), dict(mode='nonsense'), 'raises')]
rows += [('convolve', (X, Y, k), {}, call('direct_convolve', X, Y, v)) for k, v in MODE.items()]
rows += [('convolve', (X, Y), dict(mode=k, method='fft'), call('fft_convolve', X, Y, v)) for k, v in MODE.items()] + [('convolve', (X, Y), dict(mode=k, method=q), call('direct_convolve', X, Y, v)) for k, v in MODE.items() for q in ('auto', 'direct')]
rows += [(f, (X,), {}, call(f, X)) for f in ('a_weighting', 'fast_log2', 'fast_log10')]
wrapper('extra/python/src/neo/__init__.py', rows)
done(c)

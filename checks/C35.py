from lib import *
import build
c = Check('C35', 'other', forms.EXPL, 'with a vendor library selected (stand-ins with its documented behaviour), plans, real, split and arbitrary-size transforms, scaling and multiply-add give the same results as specified for the portable code, and every vendor handle is released exactly once')
S = (f'-I{build.ROOT}/shim_vendor',)
KS = dict(ipp=('vendor.cpp', 'avx2', ('NEO_HAS_INTEL_IPP=1',) + S), mkl=('vendor.cpp', 'avx2', ('NEO_HAS_INTEL_MKL=1',) + S), vdsp=('vendor.cpp', 'avx2', ('NEO_HAS_APPLE_ACCELERATE=1',) + S),
          vdsp13=('vendor.cpp', 'avx2', ('NEO_HAS_APPLE_ACCELERATE=1', '__MAC_OS_X_VERSION_MIN_REQUIRED=130300') + S))
E = dict(zf=F32, zd=F64, nf=F32, nd=F64, f=F32, d=F64)
def fsub(a, b): return fadd(a, fmul(b, -1.0))
def end(I):
    r = I.call('d_live', [])
    I.claim(r == 0, f'{r} vendor handles are never released')
def zst(nm, n, st): return [(sym(f'{nm}{2 * i * st}'), sym(f'{nm}{2 * i * st + 1}')) for i in range(n)]
def cw(I, p, w, st=1):
    for k, (a, b) in enumerate(w): I.want(p, 2 * k * st, a); I.want(p, 2 * k * st + 1, b)
def keepz(I, p, nm, n, st):
    for k in range(n):
        for q in range(2, 2 * st): I.want(p, 2 * k * st + q, sym(f'{nm}{2 * k * st + q}'), what='element outside the view')
def f_fft(s, o, d, st):
    n = 1 << o
    def f(I):
        sx, sy = (3, 2) if st else (1, 1)
        x, y = I.arr('x', E[s], 2 * n * sx), I.arr('y', E[s], 2 * n * sy)
        I.call(f'd_fft{"str" if st else ""}_{s}', [x, y, o, d])
        cw(I, x, dft(zst('x', n, sx), d), sx); cw(I, y, dft(zst('y', n, sy), -d), sy)
        keepz(I, x, 'x', n, sx); keepz(I, y, 'y', n, sy); end(I)
    return f
def f_out(fn, s, n, arg, st):
    def f(I):
        si, so = (2, 3) if st else (1, 1)
        x, y, z = I.arr('x', E[s], 2 * n * si), I.buf('y', E[s], 2 * n), I.buf('z', E[s], 2 * n * so)
        I.call(f'd_{fn}{"outs" if st else "out"}_{s}', [x, y, z, arg])
        cw(I, y, dft(zst('x', n, si), 1)); cw(I, z, dft(zst('x', n, si), -1), so); I.unwritten(x); end(I)
    return f
def f_move(fn, s, n, arg, other):
    def f(I):
        x, y, o = I.arr('x', E[s], 2 * n), I.arr('y', E[s], 4 * n), I.buf('o', I64, 4)
        I.call(f'd_{fn}move_{s}', [x, y, o, arg, other])
        for i, v in enumerate([arg, n, arg, n] if fn == 'fft' else [n]): I.want(o, i, v, what='geometry of the moved plan')
        cw(I, x, dft(zst('x', n, 1), 1)); cw(I, y, dft(zst('y', n, 2), -1), 2); end(I)
    return f
def f_dft(s, n, d):
    def f(I):
        x, y = I.arr('x', E[s], 2 * n), I.arr('y', E[s], 2 * n)
        I.call(f'd_dft_{s}', [x, y, n, d])
        cw(I, x, dft(zst('x', n, 1), d)); cw(I, y, dft(zst('y', n, 1), -d)); end(I)
    return f
def f_rfft(s, o, st):
    n = 1 << o; m = n // 2 + 1
    def f(I):
        si, sc, so = (2, 3, 2) if st else (1, 1, 1)
        x, y, z = I.arr('x', E[s], n * si), I.buf('y', E[s], 2 * m * sc), I.buf('z', E[s], n * so)
        I.call(f'd_rfft{"s" if st else ""}_{s}', [x, y, z, o])
        cw(I, y, dft([(sym(f'x{i * si}'), 0.0) for i in range(n)], 1)[:m], sc)
        for i in range(n): I.want(z, i * so, fmul(sym(f'x{i * si}'), float(n)), 1e-6 * max(n, 100))
        I.unwritten(x); end(I)
    return f
def f_irfft(s, o):
    n = 1 << o; m = n // 2 + 1
    def f(I):
        x, y, z = I.arr('x', E[s], 2 * m), I.buf('y', E[s], n), I.buf('z', E[s], 2 * n)
        I.call(f'd_irfft_{s}', [x, y, z, o])
        X = zst('x', m, 1)
        w = dft([X[k] if k < m else (X[n - k][0], fmul(X[n - k][1], -1.0)) for k in range(n)], -1)
        for i in range(n): I.want(y, i, w[i][0]); I.want(z, 2 * i, w[i][0])
        I.unwritten(x); end(I)
    return f
def f_rmove(s, o, other):
    n = 1 << o; m = n // 2 + 1
    def f(I):
        x, y, g = I.arr('x', E[s], n), I.buf('y', E[s], 2 * m), I.buf('o', I64, 2)
        I.call(f'd_rmove_{s}', [x, y, g, o, other])
        I.want(g, 0, o); I.want(g, 1, n); cw(I, y, dft([(sym(f'x{i}'), 0.0) for i in range(n)], 1)[:m]); end(I)
    return f
def ri(a, b, n, st=1): return [(sym(f'{a}{i * st}'), sym(f'{b}{i * st}')) for i in range(n)]
def sw(I, re, im, w, st=1):
    for k, (a, b) in enumerate(w): I.want(re, k * st, a); I.want(im, k * st, b)
def f_split(s, o, d):
    n = 1 << o
    def f(I):
        x, y, u, v = (I.arr(q, E[s], n) for q in 'xyuv')
        I.call(f'd_split_{s}', [x, y, u, v, o, d]); sw(I, x, y, dft(ri('x', 'y', n), d)); sw(I, u, v, dft(ri('u', 'v', n), -d)); end(I)
    return f
def f_splitout(s, o, st):
    n = 1 << o
    def f(I):
        si, so = (2, 3) if st else (1, 1)
        x, y = I.arr('x', E[s], n * si), I.arr('y', E[s], n * si)
        b = [I.buf(q, E[s], n * (so if i > 1 else 1)) for i, q in enumerate(('re', 'im', 'bre', 'bim'))]
        I.call(f'd_splitout{"s" if st else ""}_{s}', [x, y] + b + [o])
        sw(I, b[0], b[1], dft(ri('x', 'y', n, si), 1)); sw(I, b[2], b[3], dft(ri('x', 'y', n, si), -1), so); I.unwritten(x); I.unwritten(y); end(I)
    return f
def f_splitstr(s, o, d):
    n = 1 << o
    def f(I):
        x, y = I.arr('x', E[s], 2 * n), I.arr('y', E[s], 2 * n)
        I.call(f'd_splitstr_{s}', [x, y, o, d]); sw(I, x, y, dft(ri('x', 'y', n, 2), d), 2)
        for i in range(1, 2 * n, 2): I.want(x, i, sym(f'x{i}')); I.want(y, i, sym(f'y{i}'))
        end(I)
    return f
def f_splitmove(s, o, other):
    n = 1 << o
    def f(I):
        x, y, g = I.arr('x', E[s], n), I.arr('y', E[s], n), I.buf('o', I64, 2)
        I.call(f'd_splitmove_{s}', [x, y, g, o, other]); I.want(g, 0, o); I.want(g, 1, n); sw(I, x, y, dft(ri('x', 'y', n), 1)); end(I)
    return f
def f_dct(s, o, kind):
    n = 1 << o
    def spec(nm, st):
        def cf(t, k): return math.sqrt((1 if k == 0 else 2) / n) * math.cos(math.pi * k * (2 * t + 1) / (2 * n))
        return [lin([(sym(f'{nm}{j * st}'), cf(j, k) if kind == 2 else cf(k, j)) for j in range(n)]) for k in range(n)]
    def f(I):
        x, y = I.arr('x', E[s], n), I.arr('y', E[s], 2 * n)
        I.call(f'd_dct{kind}_{s}', [x, y, o]); I.wants(x, spec('x', 1))
        w = spec('y', 2)
        for i in range(2 * n): I.want(y, i, sym(f'y{i}') if i % 2 else w[i // 2])
        end(I)
    return f
def f_scale(s, n, kind):
    def f(I):
        a, b = sym('a'), sym('b')
        if kind == 'r': x = I.arr('x', E[s], n); I.call(f'd_scale_{s}', [x, a, n]); I.wants(x, [fmul(sym(f'x{i}'), a) for i in range(n)])
        elif kind == 's':
            x = I.arr('x', E[s], 2 * n); I.call(f'd_scales_{s}', [x, a, n]); I.wants(x, [fmul(sym(f'x{i}'), a) if i % 2 == 0 else sym(f'x{i}') for i in range(2 * n)])
        elif kind == 'm': x = I.arr('x', E[s], n * (n + 1)); I.call(f'd_scalem_{s}', [x, a, n, n + 1]); I.wants(x, [fmul(sym(f'x{i}'), a) for i in range(n * (n + 1))])
        elif kind == 'z':
            x = I.arr('x', E[s], 2 * n); I.call(f'd_scalez_{s}', [x, a, b, n])
            cw(I, x, [(fsub(fmul(re, a), fmul(im, b)), fadd(fmul(re, b), fmul(im, a))) for re, im in zst('x', n, 1)])
        else: x = I.arr('x', E[s], 2 * n); I.call(f'd_scale{kind}_{s}', [x, a, n]); I.wants(x, [fmul(sym(f'x{i}'), a) for i in range(2 * n)])
    return f
def f_madd(s, n, inp):
    def f(I):
        q = [I.arr(k, E[s], n) for k in ('abcd' if inp else 'abcdef')]
        o, p = (I.arr(k, E[s], n) if inp else I.buf(k, E[s], n) for k in 'op')
        I.call(f'd_madd{"in" if inp else ""}_{s}', q + [o, p, n])
        z = 'op' if inp else 'ef'
        for i in range(n):
            a, b, cc, dd, e, g = (sym(f'{k}{i}') for k in 'abcd' + z)
            I.want(o, i, fadd(fsub(fmul(a, cc), fmul(b, dd)), e)); I.want(p, i, fadd(fadd(fmul(a, dd), fmul(b, cc)), g))
        for k in q: I.unwritten(k)
    return f
def conv(x, h, i): 
    t = 0.0
    for j in range(len(h)):
        if 0 <= i - j < len(x): t = fadd(t, fmul(x[i - j], h[j]))
    return t
HV = [0.5, -0.25, 0.125, 1.0, -0.75, 0.375, 2.0, 0.0625, -1.5, 0.25, -2.0, -0.5]
def f_fconv(s, n, m):
    def f(I):
        x, h, y = I.arr('x', E[s], n), I.arr('h', E[s], HV[:m]), I.buf('y', E[s], n + m - 1)
        I.call(f'd_fconv_{s}', [x, h, y, n, m]); I.wants(y, [conv([sym(f'x{i}') for i in range(n)], HV[:m], k) for k in range(n + m - 1)]); end(I)
    return f
def f_stream(k, s, block, rows, blocks):
    def f(I):
        x, h = I.arr('x', E[s], block * blocks), I.arr('h', E[s], HV[:block * rows])
        I.call(f'd_{k}_{s}', [x, h, block, rows, blocks]); I.wants(x, [conv([sym(f'x{i}') for i in range(block * blocks)], HV[:block * rows], i) for i in range(block * blocks)]); end(I)
    return f
def f_geo(s, o):
    def f(I):
        r = I.buf('r', I64, 2); I.call(f'd_fftgeo_{s}', [r, o]); I.want(r, 0, o); I.want(r, 1, 1 << o); end(I)
    return f
def f_max(s):
    def f(I):
        r = I.buf('r', I64, 2); I.call(f'd_fftmax_{s}', [r])
        I.claim(I.at(r, 1) == 1 << I.at(r, 0), f'max_size {I.at(r, 1)} is not 2^max_order')
    return f
def f_rej(s, o):
    def f(I):
        r = I.buf('r', I64, 2); I.limit = 200000
        try: I.call(f'd_fftgeo_{s}', [r, o])
        except Thrown as e: I.claim('_ZTISt' in e.what, f'order {o} is not rejected by the plan: ' + e.what); return
        except Undecided as e:
            if str(e) != 'step limit': raise
        I.claim(False, f'plan of order {o} beyond max_order is accepted')
    return f
cases = []
top = 7 if c.deep else 6
for b, K in KS.items():
    add = lambda nm, f: cases.append((f'{b}: {nm}', K, f))
    if b != 'vdsp13':
        for s in ('zf', 'zd', 'nf', 'nd'):
            for o in range(top):
                for d in (1, -1): add(f'fft_{s} order {o} dir {d}', f_fft(s, o, d, 0))
                if o < 5:
                    add(f'fft_strided_{s} order {o}', f_fft(s, o, 1 - o % 2 * 2, 1))
                    for st in (0, 1): add(f'fft_out_of_place_{s} order {o} strided {st}', f_out('fft', s, 1 << o, o, st))
            for o, p in ((3, 1), (1, 3), (2, 2), (0, 4)): add(f'moved fft_{s} order {o} over order {p}', f_move('fft', s, 1 << o, o, p))
            add(f'fft_{s} max', f_max(s))
            for o in (29, 31, 32, 63, 64, (1 << 32) + 3, (1 << 63), (1 << 64) - 1): add(f'fft_{s} rejects order {o}', f_rej(s, o))
    if b != 'mkl' and b != 'vdsp13':
        for s in 'fd':
            for o in range(top):
                for d in (1, -1): add(f'split_{s} order {o} dir {d}', f_split(s, o, d))
                if o < 5:
                    add(f'split_strided_{s} order {o}', f_splitstr(s, o, 1 - o % 2 * 2))
                    for st in (0, 1): add(f'split_out_of_place_{s} order {o} strided {st}', f_splitout(s, o, st))
            for o, p in ((3, 1), (1, 3), (2, 2)): add(f'moved split_{s} order {o} over order {p}', f_splitmove(s, o, p))
    if b == 'ipp':
        for s in ('zf', 'zd', 'nd'):
            for o in range(top):
                for st in (0, 1): add(f'rfft_{s} order {o} strided {st}', f_rfft(s, o, st))
                add(f'irfft_{s} order {o}', f_irfft(s, o))
            for o, p in ((3, 1), (1, 3)): add(f'moved rfft_{s} order {o} over order {p}', f_rmove(s, o, p))
        for s in ('zf', 'zd'):
            for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 20) + ((25, 30, 31) if c.deep else ()):
                for d in (1, -1): add(f'dft_plan_{s} n={n} dir {d}', f_dft(s, n, d))
                for st in (0, 1): add(f'dft_out_of_place_{s} n={n} strided {st}', f_out('dft', s, n, n, st))
            for n, p in ((6, 4), (4, 9), (5, 5)): add(f'moved dft_plan_{s} n={n} over {p}', f_move('dft', s, n, n, p))
        for s in 'fd':
            for o in range(top):
                for k in (2, 3): add(f'dct{k}_{s} order {o}', f_dct(s, o, k))
    if b in ('mkl', 'vdsp13'):
        for s in 'fd':
            for n in (0, 1, 2, 3, 7, 8):
                for k in ('r', 's', 'm', 'z', 'zr', 'n'): add(f'scale {k} {s} n={n}', f_scale(s, n, k))
    if b == 'vdsp':
        for s in 'fd':
            for n in (0, 1, 3, 4, 8, 9): add(f'multiply_add split {s} n={n}', f_madd(s, n, 0)); add(f'multiply_add split in place {s} n={n}', f_madd(s, n, 1))
    if b != 'vdsp13':
        for s in 'fd':
            for n, m in ((2, 2), (5, 3), (3, 6), (8, 8)): add(f'fft_convolver {s} {n}x{m}', f_fconv(s, n, m))
            for k in ('upols', 'supola'):
                for bl, r, bs in ((2, 1, 4), (2, 3, 6), (4, 2, 5)): add(f'{k} {s} block {bl} rows {r}', f_stream(k, s, bl, r, bs))
forms.run(c, cases, expect=400)
done(c)

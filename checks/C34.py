from lib import *
import build
c = Check('C34', 'other', forms.EXPL, 'the plugin signal path: overlap-add framing delays by frame size - 1 with gain 2 for every partition of the stream, the convolvers convolve with the (resampled) impulse, files and buffers keep channels, frames and rate')
K_ = ('plugin.cpp', 'avx2', (f'-I{build.ROOT}/shim_juce', f'-I{build.REPO}/extra/plugin/src'))
F = 1 << 0
def calls_of(n, cs):
    out, at, i = [], 0, 0
    while at < n: m = min(cs[i % len(cs)], n - at); out.append(m); at += m; i += 1
    return out
def X(k, n, nm='x'): return [sym(f'{nm}{k * n + i}') for i in range(n)]
def f_cola(ch, n, f, h, maxb, cs, weigh, hist):
    fr, hop = 1 << f, (1 << f) >> h
    def g(I):
        x, y, z, e = I.arr('x', F32, ch * n), I.buf('y', F32, ch * n), I.buf('z', F32, ch * n), I.buf('e', I64, 3)
        I.call('d_pl_cola', [x, y, z, ch, n, f, h, maxb, I.arr('calls', I64, cs), len(cs), weigh, hist, e])
        I.claim(I.at(e, 0) == fr * 100 + ch, f'prepareFrame gets {I.at(e, 0)}'); I.claim(I.at(e, 2) == (hist & 1), f'resetFrame is called {I.at(e, 2)} times')
        nf = 0 if n < fr else (n - fr) // hop + 1
        I.claim(I.at(e, 1) == nf, f'{I.at(e, 1)} frames of {fr} in {n} samples, hop {hop}: specified {nf}')
        gain = 2.0 * hop / fr
        for k in range(ch):
            s = X(k, n); tot = [0.0] * (n + 2 * fr)
            for j in range(nf):
                for i in range(fr): tot[j * hop + i] = fadd(tot[j * hop + i], fmul(s[j * hop + i], gain * ((j + 1) if weigh else 1)))
            for i in range(n): I.want(y, k * n + i, tot[i - fr + 1] if i >= fr - 1 else 0.0, what=f'channel {k}')
        I.unwritten(x)
    return g
HV = [0.5, -0.25, 0.125, 1.0, -0.75, 0.375, 0.0, 0.0625, -1.5, 0.25, 2.0, -0.5, 0.8125, 0.3125, -0.125, 0.625]
def imp(ch, m): return [[HV[(5 * k + 3 * i) % 16] * (k + 1) for i in range(m)] for k in range(ch)]
def norm_(h): return min(1.0 / math.sqrt(sum(v * v for v in r)) if any(r) else 1.0 for r in h)
def resampled(h, a, b):
    if a == b: return h
    r = a / b; n = round(max(1.0, len(h[0]) / r))
    return [[q[int(i * r)] if int(i * r) < len(q) else 0.0 for i in range(n)] for q in h]
def f_dense(ch, n, m, block, maxb, cs, mode, rate=44100.0, frate=44100.0):
    fr = 1
    while fr < block: fr *= 2
    def g(I):
        h = imp(ch, m)
        x, hh, y = I.arr('x', F32, ch * n), I.arr('h', F32, [v for r in h for v in r]), I.buf('y', F32, ch * n)
        I.call('d_pl_dense', [x, hh, y, ch, n, m, rate, frate, block, maxb, I.arr('calls', I64, cs), len(cs), mode])
        hr = resampled(h, frate, rate) if mode else [[1.0]] * ch
        q = 2.0 * (norm_(hr) if mode else 1.0)
        for k in range(ch):
            s = X(k, n)[:n // fr * fr]
            w = [0.0] * (fr - 1) + conv(s, [v * q for v in hr[k]], n)
            # only whole frames have been processed
            for i in range(n): I.want(y, k * n + i, w[i], 1e-4, what=f'channel {k}')
        I.unwritten(x)
    return g
def f_dconv(which, ch, n, m, B, low=None):
    def g(I):
        h = imp(ch, m)
        x, hh, y, e = I.arr('x', F32, ch * n), I.arr('h', F32, [v for r in h for v in r]), I.buf('y', F32, ch * n), I.buf('e', I64, 2)
        if which < 2: I.call('d_pl_denseconv', [x, hh, y, ch, n, m, B, which, e])
        else: I.call('d_pl_sparseconv', [x, hh, y, ch, n, m, B, 44100.0, -1e9, low, e])
        I.claim((I.at(e, 0), I.at(e, 1)) == (ch, n), f'{I.at(e, 0)} x {I.at(e, 1)}')
        q = norm_(h)
        for k in range(ch):
            for i, w in enumerate(conv(X(k, n), [v * q for v in h[k]], n)): I.want(y, k * n + i, w, 1e-4, what=f'channel {k}')
        I.unwritten(x)
    return g
def f_conv(ch, n, m, maxb, cs, order, replace, rate=44100.0, frate=44100.0):
    def g(I):
        x, hh, y = I.arr('x', F32, ch * n), I.arr('h', F32, 2 * m), I.buf('y', F32, ch * n)
        I.call('d_pl_conv', [x, hh, y, ch, n, m, rate, frate, maxb, I.arr('calls', I64, cs), len(cs), order, replace])
        h = resampled([X(k, m, 'h') for k in range(2)], frate, rate)
        for k in range(ch):
            s = X(k, n)
            if order in (2, 3) or len(cs) == 1 and cs[0] != maxb: w = s
            else: w = conv(s, h[k], n)
            full = n // maxb * maxb
            for i in range(n): I.want(y, k * n + i, w[i] if i < full else s[i], what=f'channel {k}')
        I.unwritten(x); I.unwritten(hh)
    return g
def f_res(ch, n, a, b, load):
    def g(I):
        x, e, sr = I.arr('x', F32, ch * n), I.buf('e', I64, 2), I.buf('sr', F64, 1)
        want = resampled([X(k, n) for k in range(ch)], a, b) if load < 2 else [X(k, n) for k in range(ch)]
        y = I.buf('y', F32, ch * len(want[0]))
        I.call('d_pl_resample', [x, y, ch, n, a, b, load, e, sr])
        I.claim((I.at(e, 0), I.at(e, 1)) == (ch, len(want[0])), f'{I.at(e, 0)} x {I.at(e, 1)}, specified {ch} x {len(want[0])}'); I.want(sr, 0, b if load < 2 else a, what='rate')
        for k in range(ch):
            for i, v in enumerate(want[k]): I.want(y, k * len(want[0]) + i, v, what='sample')
        I.unwritten(x)
    return g
def f_bad(ok, reg):
    def g(I):
        x, e, sr = I.arr('x', F32, 6), I.buf('e', I64, 2), I.buf('sr', F64, 1)
        I.call('d_pl_badload', [x, 2, 3, 44100.0, ok, reg, e, sr])
        I.claim(I.at(e, 0) == 0 or I.at(e, 1) == 0, 'an unreadable file yields samples'); I.want(sr, 0, 0.0, what='rate')
    return g
def f_write(ch, n, rate, bits, refuse):
    def g(I):
        x, y, e, sr = I.arr('x', F32, ch * n), I.buf('y', F32, ch * n), I.buf('e', I64, 6), I.buf('sr', F64, 1)
        I.call('d_pl_write', [x, y, ch, n, rate, bits, refuse, e, sr])
        I.claim(I.at(e, 5) == 1 and I.at(e, 4) == 0, f'{I.at(e, 5)} streams are opened, {I.at(e, 4)} stay open')
        if refuse: I.claim(I.at(e, 3) == 0, 'something is written'); return
        I.claim([I.at(e, i) for i in range(4)] == [ch, bits, n, 1], f'channels {I.at(e, 0)}, bits {I.at(e, 1)}, frames {I.at(e, 2)}, writes {I.at(e, 3)}'); I.want(sr, 0, rate, what='rate')
        for i in range(ch * n): I.want(y, i, sym(f'x{i}'), what='sample')
    return g
def f_blocks(ch, n, B):
    def g(I):
        sizes = [min(B, n - i) for i in range(0, n, B)]
        x, y, e = I.arr('x', F32, ch * n), I.buf('y', F32, ch * n), I.arr('e', I64, [0] * (len(sizes) + 4))
        I.call('d_pl_blocks', [x, y, ch, n, B, 44100.0, e])
        want = [1000000 + B * 100 + ch] + [3000000 + s * 101 for s in sizes] + [2000000, 0, 0]
        got = [I.at(e, i) for i in range(len(want))]
        I.claim(got == want, f'calls {got}, specified {want}')
        for k in range(ch):
            for i in range(n): I.want(y, k * n + i, fmul(sym(f'x{k * n + i}'), float(i // B + 2)), what='sample')
    return g
cases = []
for ch, n, f, h, maxb, cs in ((1, 20, 2, 1, 4, [4]), (1, 21, 2, 1, 4, [3]), (1, 20, 2, 0, 4, [4]), (2, 19, 2, 1, 5, [1, 5, 2]), (1, 30, 3, 1, 8, [8]), (1, 30, 3, 2, 8, [5]), (1, 33, 3, 0, 16, [16, 3]), (1, 40, 3, 3, 8, [7, 8]), (2, 26, 2, 2, 16, [16]), (1, 18, 3, 1, 1, [1]),
                              (1, 50, 2, 1, 32, [32, 1]), (1, 17, 4, 1, 4, [4]), (1, 40, 4, 2, 4, [3, 4]), (1, 12, 1, 0, 3, [3]), (1, 12, 1, 1, 3, [2]), (1, 3, 3, 1, 4, [3]), (1, 24, 3, 0, 8, [8]), (1, 29, 3, 0, 6, [6, 5])):
    for weigh in (0, 1):
        for hist in (0, 1, 2, 4): cases.append((f'framing {ch} x {n}, frame {1 << f} hop {(1 << f) >> h}, at most {maxb} per call, calls {cs}, {"weighted" if weigh else "identity"}, history {hist}', K_, f_cola(ch, n, f, h, maxb, cs, weigh, hist)))
for ch, n, m, B, maxb, cs in ((1, 20, 3, 4, 4, [4]), (1, 22, 7, 4, 4, [3, 1]), (2, 17, 9, 4, 8, [8, 5]), (1, 26, 5, 7, 7, [7]), (2, 14, 4, 2, 2, [2, 1]), (1, 25, 20, 8, 16, [16])):
    for mode in (0, 1, 2, 3, 4, 5): cases.append((f'DenseConvolution {ch} x {n}, {m} taps, block {B}, calls {cs}, impulse {("none", "before prepare", "after prepare", "twice", "prepared otherwise before", "another one before")[mode]}', K_, f_dense(ch, n, m, B, maxb, cs, mode)))
cases.append(('DenseConvolution with an impulse of twice the rate', K_, f_dense(1, 20, 9, 4, 4, [4], 1, 44100.0, 88200.0))); cases.append(('DenseConvolution with an impulse of half the rate', K_, f_dense(1, 20, 4, 4, 4, [4], 2, 96000.0, 48000.0)))
for which in (0, 1, 2):
    for ch, n, m, B in ((1, 8, 4, 4), (1, 9, 8, 4), (1, 3, 5, 4), (2, 10, 7, 4), (2, 16, 9, 8), (3, 5, 3, 2), (1, 1, 1, 4)):
        cases.append((f'{("dense_convolve upola", "dense_convolve upols", "sparse_convolve keeping all")[which]} {ch} x {n}, {m} taps, blocks of {B}', K_, f_dconv(which, ch, n, m, B, 1)))
for ch, n, m, maxb, cs in ((1, 12, 3, 4, [4]), (2, 16, 9, 4, [4]), (2, 10, 5, 4, [4]), (2, 12, 8, 4, [2]), (1, 16, 12, 8, [8]), (2, 8, 3, 2, [2])):
    for order in range(8):
        for rep in (0, 1): cases.append((f'Convolution {ch} x {n}, {m} taps, calls {cs} of {maxb}, {("prepared, loaded", "loaded, prepared", "reset", "unreadable", "reset and prepared", "prepared otherwise before", "another impulse before", "unreadable one after")[order]}, {"replacing" if rep else "separate"}', K_, f_conv(ch, n, m, maxb, cs, order, rep)))
cases.append(('Convolution with an impulse of twice the rate', K_, f_conv(2, 16, 9, 4, [4], 1, 0, 44100.0, 88200.0)))
for ch, n, a, b in ((1, 5, 44100.0, 44100.0), (2, 8, 88200.0, 44100.0), (2, 7, 44100.0, 88200.0), (1, 9, 48000.0, 44100.0), (1, 1, 96000.0, 8000.0)):
    for load in (0, 1, 2): cases.append((f'resample {ch} x {n} from {a} to {b} {("", "from a file", "load only")[load]}', K_, f_res(ch, n, a, b, load)))
for ok, reg in ((0, 1), (2, 1), (1, 0)): cases.append((f'load ok {ok} formats {reg}', K_, f_bad(ok, reg)))
for ch, n, rate, bits in ((1, 4, 44100.0, 16), (2, 5, 48000.0, 24), (3, 1, 8000.0, 32)):
    for refuse in (0, 1): cases.append((f'write {ch} x {n} at {rate} {bits} bits refuse {refuse}', K_, f_write(ch, n, rate, bits, refuse)))
for ch, n, B in ((1, 8, 4), (2, 9, 4), (1, 3, 8), (3, 5, 1), (1, 16, 16)): cases.append((f'processBlocks {ch} x {n} by {B}', K_, f_blocks(ch, n, B)))
forms.run(c, cases, expect=150)
done(c)

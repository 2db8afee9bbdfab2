from lib import *
c = Check('C24', 'other', forms.EXPL, 'frame f of the short-time transform is the real DFT of window * x[f*hop .. f*hop+frame) zero-padded to the transform size; ceil(length/hop) frames per channel')
K_ = ('transforms.cpp', 'avx2', ())
E = dict(f=F32, d=F64)
def pow2(n):
    k = 1
    while k < n: k *= 2
    return k
WIN = {0: lambda i, n: 1.0, 1: lambda i, n: 0.5 * (1 - math.cos(2 * math.pi * i / (n - 1))), 2: lambda i, n: 0.54 - 0.46 * math.cos(2 * math.pi * i / (n - 1))}
def spec(I, at, ch, ln, frame, tr, ov, win, o, e):
    T = pow2(tr)
    hop = frame - ov
    nf, nb = -(-ln // hop), T // 2 + 1
    for i, v in enumerate((ch, nf, nb)): I.want(e, i, v, what='extent')
    k = 0
    w = [WIN[win](i, T) for i in range(T)]
    for q in range(ch):
        for f in range(nf):
            z = [(fmul(at(q, f * hop + i), w[i]) if i < frame and f * hop + i < ln else 0.0, 0.0) for i in range(T)]
            for b, (re, im) in enumerate(dft(z, 1)[:nb]):
                I.want(o, k, re, what=f'channel {q} frame {f} bin {b} re'); I.want(o, k + 1, im, what=f'channel {q} frame {f} bin {b} im'); k += 2
def size(ch, ln, frame, tr, ov):
    return 2 * ch * -(-ln // (frame - ov)) * (pow2(tr) // 2 + 1)
def f_stft(s, ch, ln, frame, tr, ov, win):
    def f(I):
        x, o, e = I.arr('x', E[s], ch * ln), I.buf('out', E[s], size(ch, ln, frame, tr, ov)), I.buf('extents', I64, 3)
        I.call(f'd_stft_{s}', [x, o, e, ch, ln, frame, tr, ov, win])
        spec(I, lambda q, i: sym(f'x{q * ln + i}'), ch, ln, frame, tr, ov, win, o, e); I.unwritten(x)
    return f
def f_stftd(s, ch, ln, n):
    def f(I):
        x, o, e = I.arr('x', E[s], ch * ln), I.buf('out', E[s], size(ch, ln, n, n, n // 2)), I.buf('extents', I64, 3)
        I.call(f'd_stftd_{s}', [x, o, e, ch, ln, n])
        spec(I, lambda q, i: sym(f'x{i * ch + q}'), ch, ln, n, n, n // 2, 1, o, e); I.unwritten(x)
    return f
def f_stftr(s, l1, l2, n):
    def f(I):
        x, y = I.arr('x', E[s], l1), I.arr('y', E[s], 2 * l2)
        o, u, e, g = I.buf('out', E[s], size(1, l1, n, n, n // 2)), I.buf('second', E[s], size(2, l2, n, n, n // 2)), I.buf('extents', I64, 3), I.buf('extents', I64, 3)
        I.call(f'd_stftr_{s}', [x, y, o, u, e, g, l1, l2, n])
        spec(I, lambda q, i: sym(f'x{i}'), 1, l1, n, n, n // 2, 1, o, e)
        spec(I, lambda q, i: sym(f'y{q * l2 + i}'), 2, l2, n, n, n // 2, 1, u, g)
    return f
def f_part(s, ch, ln, B):
    def f(I):
        x, o, e = I.arr('x', E[s], ch * ln), I.buf('out', E[s], size(ch, ln, B, 2 * B, 0)), I.buf('extents', I64, 3)
        I.call(f'd_part_{s}', [x, o, e, ch, ln, B])
        spec(I, lambda q, i: sym(f'x{q * ln + i}'), ch, ln, B, 2 * B, 0, 0, o, e); I.unwritten(x)
    return f
cases = []
for s in E:
    for ch, ln in ((1, 1), (1, 5), (2, 8), (1, 16), (3, 17), (2, 31)):
        for frame, tr, ov in ((8, 8, 4), (8, 8, 0), (8, 16, 2), (4, 16, 3), (5, 8, 1), (6, 12, 3), (2, 2, 1), (2, 4, 0), (7, 7, 2)):
            for win in (0, 1, 2):
                if s == 'd' and win == 1 and ch > 1: continue
                cases.append((f'stft_{s} {ch}x{ln} frame {frame} transform {tr} overlap {ov} window {win}', K_, f_stft(s, ch, ln, frame, tr, ov, win)))
        for n in (2, 4, 8, 16): cases.append((f'stft_default_{s} {ch}x{ln} n={n}', K_, f_stftd(s, ch, ln, n)))
        for B in (1, 2, 4, 8, 16): cases.append((f'uniform_partition_{s} {ch}x{ln} block {B}', K_, f_part(s, ch, ln, B)))
    for l1, l2, n in ((16, 3, 8), (3, 16, 8), (9, 9, 4)): cases.append((f'stft_plan_reuse_{s} {l1},{l2} n={n}', K_, f_stftr(s, l1, l2, n)))
for s in E:
    for ch, ln, frame, tr, ov, win in ((2, 1000, 256, 256, 128, 1), (1, 700, 200, 512, 50, 2), (1, 1025, 512, 512, 0, 0)): cases.append((f'stft_{s} {ch}x{ln} frame {frame} transform {tr} overlap {ov} window {win} (sparse input)', K_, only(few(ln), f_stft(s, ch, ln, frame, tr, ov, win))))
    for ch, ln, B in ((2, 300, 64), (1, 1000, 256)): cases.append((f'uniform_partition_{s} {ch}x{ln} block {B} (sparse input)', K_, only(few(ln), f_part(s, ch, ln, B))))
    for ch, ln, frame, tr, ov, win in ((1, 1300, 4, 4, 2, 1), (1, 520, 2, 4, 1, 0), (20, 9, 4, 8, 1, 2), (1, 300, 4, 64, 3, 2)): cases.append((f'stft_{s} {ch}x{ln} frame {frame} transform {tr} overlap {ov} window {win} (sparse input)', K_, only(few(ch * ln) + [ch * ln - 3], f_stft(s, ch, ln, frame, tr, ov, win))))
    for ch, ln, B in ((1, 1100, 4), (20, 9, 2), (2, 600, 2)): cases.append((f'uniform_partition_{s} {ch}x{ln} block {B} (sparse input)', K_, only(few(ch * ln) + [ch * ln - 3], f_part(s, ch, ln, B))))
forms.run(c, cases, expect=200)
more = []
for n in forms.around(K_, 8, 1100, rx='stft|part', known=(27, 256, 65536)):
    b = 1 << (n - 1).bit_length()
    for ch, ln, B in ((1, n, 4), (1, 2 * n + 1, 2)) + (((n, 3, 2),) if n < 70 else ()) + (((1, 2 * b + 1, b),) if b < 1025 else ()):
        more.append((f'uniform_partition_f {ch}x{ln} block {B} (sparse input)', K_, only(few(ch * ln) + [ch * ln - 3], f_part('f', ch, ln, B))))
        more.append((f'stft_f {ch}x{ln} frame {B} transform {B} overlap {B // 2} window 1 (sparse input)', K_, only(few(ch * ln) + [ch * ln - 3], f_stft('f', ch, ln, B, B, B // 2, 1))))
if more: forms.run(c, more)
done(c)

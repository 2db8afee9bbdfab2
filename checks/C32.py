from lib import *
import itertools
import build
c = Check('C32', 'other', forms.EXPL, 'the command line convolver writes, per channel, the first samples of the linear convolution with the energy-normalised impulse; loading and writing keep channels, frames and rate; bad input is refused and files are closed')
K_ = ('cli.cpp', 'avx2', (f'NEO_CLI_MAIN="{build.REPO}/extra/cli/src/convolver.cpp"', f'-I{build.ROOT}/shim_cli'))
OUT = '2'
def f_load(ch, n, rate, ok, readable, dbl):
    def f(I):
        d, e, sr = I.arr('d', F32, ch * n), I.arr('e', I64, [0] * 14 + [ord(OUT)]), I.buf('sr', F64, 1)
        out = I.buf('out', F64 if dbl else F32, ch * n)
        I.call('d_cli_loadd' if dbl else 'd_cli_load', [d, ok, ch, rate, n, readable, out, e, sr])
        I.claim(I.at(e, 0) == I.at(e, 1), f'{I.at(e, 0)} files opened, {I.at(e, 1)} closed'); I.claim(I.at(e, 9) == 0, 'a file that is not open is used')
        if not ok or readable < n: I.claim(I.at(e, 11) == 0 or I.at(e, 12) == 0, 'an unreadable file yields samples'); return
        I.claim((I.at(e, 11), I.at(e, 12)) == (ch, n), f'extents {I.at(e, 11)} x {I.at(e, 12)}'); I.want(sr, 0, float(rate), what='rate')
        for k in range(ch):
            for i in range(n): I.want(out, k * n + i, sym(f'd{i * ch + k}'), what='sample')
        I.unwritten(d)
    return f
def f_write(ch, n, rate):
    def f(I):
        x, o, e = I.arr('x', F32, ch * n), I.buf('file', F32, ch * n), I.arr('e', I64, [0] * 14 + [ord('1')])
        I.call('d_cli_write', [x, ch, n, float(rate), o, e])
        I.claim(I.at(e, 0) == I.at(e, 1) == 1 and I.at(e, 9) == 0, 'the file is opened and closed once')
        I.claim((I.at(e, 3), I.at(e, 4), I.at(e, 5), I.at(e, 6), I.at(e, 8)) == (ch, rate, 32, 3, n), f'channels {I.at(e, 3)}, rate {I.at(e, 4)}, bits {I.at(e, 5)}, format {I.at(e, 6)}, frames {I.at(e, 8)}')
        for k in range(ch):
            for i in range(n): I.want(o, i * ch + k, sym(f'x{k * n + i}'), what='sample')
    return f
H = [0.5, -0.25, 0.125, 1.0, -0.75, 0.375, 0.0, 0.0625, -1.5, 0.25, 2.0, -0.5, 0.8125, 0.3125, -0.125, 0.625]
def f_conv(t, ch, n, m, B, quiet=None):
    def f(I):
        h = [[0.0 if k == quiet else H[(5 * k + 3 * i) % 16] * (k + 1) for i in range(m)] for k in range(ch)]
        x, ho, y, e = I.arr('x', F32, ch * n), I.arr('h', F32, [v for r in h for v in r]), I.buf('y', F32, ch * n), I.buf('e', I64, 2)
        I.call(f'd_cli_conv_{t}', [x, ho, ch, n, m, B, y, e])
        I.claim((I.at(e, 0), I.at(e, 1)) == (ch, n), f'extents {I.at(e, 0)} x {I.at(e, 1)}')
        en = [sum(v * v for v in r) for r in h]
        g = min(1.0 / math.sqrt(q) if q else 1.0 for q in en)
        for k in range(ch):
            for i, w in enumerate(conv([sym(f'x{k * n + i}') for i in range(n)], [v * g for v in h[k]], n)): I.want(y, k * n + i, w, 1e-4, what=f'channel {k}')
        I.unwritten(x); I.unwritten(ho)
    return f
KS = (K_[0], K_[1], K_[2] + ('noinline:^_ZL?8convolveI', 'noinline:normalize_peak'))
RD = ((r'^_ZL?8convolveI', 'd_stub_convolve'), (r'normalize_peak', 'd_stub_peak'))
def f_main(argc, oka, cha, ra, okb, chb, rb, n=3):
    def f(I):
        I.redirect = RD
        a, b, o, e = I.arr('a', F32, cha * n), I.arr('b', F32, chb * n), I.buf('file', F32, 64), I.arr('e', I64, [0] * 14 + [ord(OUT)])
        r = I.call('d_cli_main', [argc, a, oka, cha, ra, n, b, okb, chb, rb, n, o, e])
        I.claim(isinstance(r, int) and r & 0xffffffff != 0, f'exit status {r}'); I.claim(I.at(e, 2) == 0, 'an output file is written'); I.claim(I.at(e, 0) == I.at(e, 1), f'{I.at(e, 0)} files opened, {I.at(e, 1)} closed')
    return f
def f_ok(ch, n, m, rate):
    def f(I):
        a, b, k, o, e = I.arr('a', F32, ch * n), I.arr('b', F32, ch * m), I.arr('k', F32, 3), I.buf('file', F32, 8 * ch * n), I.arr('e', I64, [0] * 14 + [ord(OUT)])
        I.redirect = RD
        r = I.call('d_cli_ok', [a, ch, rate, n, b, m, k, o, e])
        if I.at(e, 12) == 0: raise Undecided('main does not call convolve()')
        I.claim(r == 0, f'exit status {r}'); I.claim(I.at(e, 0) == I.at(e, 1), f'{I.at(e, 0)} files opened, {I.at(e, 1)} closed'); I.claim(I.at(e, 9) == 0, 'a file that is not open or not the output path is used, or the block size is no power of two above 1')
        I.claim((I.at(e, 3), I.at(e, 4), I.at(e, 8), I.at(e, 10)) == (ch, rate, n, ord('2')), f'channels {I.at(e, 3)}, rate {I.at(e, 4)}, frames {I.at(e, 8)}, path {chr(I.at(e, 10))}')
        I.claim(1 <= I.at(e, 2) <= 8, f'{I.at(e, 2)} files are written')
        for w, c_ in itertools.product(range(I.at(e, 2)), range(ch)):
            for i in range(n): I.want(o, w * n * ch + i * ch + c_, fmul(fadd(fmul(sym('k0'), sym(f'a{i * ch + c_}')), fmul(sym('k1'), sym(f'b{(i % m) * ch + c_}'))), sym('k2')), what='sample')
    return f
cases = []
for ch, n, m, rate in ((1, 5, 3, 44100), (2, 4, 6, 48000), (1, 1, 1, 8001)): cases.append((f'main on readable files: {ch} x {n} with {m} taps at {rate}', KS, f_ok(ch, n, m, rate)))
for ch, n, rate in ((1, 1, 44100), (1, 5, 48000), (2, 4, 44100), (2, 7, 96000), (3, 2, 8000), (1, 3, 11025), (2, 2, 192001)):
    for dbl in (0, 1):
        for ok, rd in ((1, n), (0, n), (1, n - 1)): cases.append((f'load {ch} x {n} at {rate} ok {ok} readable {rd} {"double" if dbl else "float"}', K_, f_load(ch, n, rate, ok, rd, dbl)))
    cases.append((f'write {ch} x {n} at {rate}', K_, f_write(ch, n, rate)))
for t in ('upola', 'split'):
    for ch, n, m, B in ((1, 8, 4, 4), (1, 9, 8, 4), (1, 3, 5, 4), (2, 10, 7, 4), (2, 16, 9, 8), (1, 17, 16, 8), (3, 5, 3, 2), (2, 6, 12, 2), (1, 1, 1, 4), (2, 32, 4, 16)):
        cases.append((f'convolve {t} {ch} x {n} with {m} taps, blocks of {B}', K_, f_conv(t, ch, n, m, B)))
    cases.append((f'convolve {t} with a silent channel', K_, f_conv(t, 2, 9, 5, 4, quiet=1))); cases.append((f'convolve {t} with a silent impulse', K_, f_conv(t, 1, 9, 5, 4, quiet=0)))
for a in ((1, 1, 1, 44100, 1, 1, 44100), (3, 1, 1, 44100, 1, 1, 44100), (5, 1, 1, 44100, 1, 1, 44100), (4, 1, 2, 44100, 1, 1, 44100), (4, 1, 1, 44100, 1, 2, 44100), (4, 1, 1, 44100, 1, 1, 48000), (4, 1, 1, 44100, 1, 1, 44101), (4, 1, 1, 44100, 1, 1, 44056), (4, 1, 1, 65536, 1, 1, 131072), (4, 1, 1, 192000, 1, 1, 192001), (4, 1, 3, 44100, 1, 2, 44100), (4, 1, 2, 44100, 1, 258, 44100), (4, 1, 2, 48000, 1, 2, 44100),
          (4, 0, 1, 44100, 1, 1, 44100), (4, 1, 1, 44100, 0, 1, 44100), (4, 0, 1, 44100, 0, 1, 44100)):
    cases.append((f'arguments {a[0]}, signal {a[1:4]}, filter {a[4:]}', KS, f_main(*a)))
forms.run(c, cases, expect=72)
done(c)

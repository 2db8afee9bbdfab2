from lib import *
c = Check('C20', 'other', forms.EXPL, 'the delay-line index inserts at position i mod n and pairs every slot once with the filter partition equal to the age of its content; delay lines return what was inserted last')
K_ = ('conv.cpp', 'avx2', ())
E = dict(f=F32, d=F64)
def f_ring(n, steps, reset):
    def f(I):
        o = I.buf('calls', I64, (1 + 2 * n) * steps)
        I.call('d_ring', [n, steps, reset, o])
        k, born = 0, {}
        pos = 0
        for i in range(steps):
            if i == reset: pos, born = 0, {}
            I.want(o, k, 1000 + pos, what='inserted slot'); k += 1
            born[pos] = i
            seen = {}
            for _ in range(n):
                a, b = I.at(o, k), I.at(o, k + 1); k += 2
                I.claim(isinstance(a, int) and a < n, f'step {i}: slot {a} of {n}')
                I.claim(a not in seen, f'step {i}: slot {a} is visited twice')
                seen[a] = b
                want = i - born[a] if a in born else None
                if want is None:
                    # a slot not written since the start: its age is what the ring order gives it
                    want = (pos - a) % n
                I.claim(b == want, f'step {i}: slot {a} holds the spectrum of {want} blocks ago and is multiplied with partition {b}')
            pos = (pos + 1) % n
    return f
def f_ring32(n, steps, fn='d_ring32'):
    def f(I):
        o = I.buf('calls', I32, (1 + 2 * n) * steps)
        I.call(fn, [n, steps, o])
        k = 0
        for i in range(steps):
            I.want(o, k, 1000 + i % n, what='inserted slot'); k += 1
            seen = {}
            for _ in range(n):
                a, b = I.at(o, k), I.at(o, k + 1); k += 2
                I.claim(a not in seen and a < n, f'step {i}: slot {a}')
                seen[a] = b
                I.claim(b == (i - a) % n, f'step {i}: slot {a} is multiplied with partition {b}')
    return f
def f_fdl(t, s, rows, bins, where):
    def f(I):
        x, y, w = I.arr('x', E[s], 2 * bins * len(where)), I.buf('rows', E[s], 2 * rows * bins), I.arr('where', I64, list(where))
        I.call(f'd_fdl_{t}_{s}', [x, y, rows, bins, w, len(where)])
        last = {r: i for i, r in enumerate(where)}
        for r in range(rows):
            for k in range(2 * bins):
                I.want(y, 2 * r * bins + k, sym(f'x{2 * last[r] * bins + k}') if r in last else 0.0, what='row')
        I.unwritten(x)
    return f
cases = []
for n in range(1, 13):
    for reset in (10**6, 0, 1, n // 2 + 1, n):
        cases.append((f'fdl_index {n} segments, reset {reset}', K_, f_ring(n, 3 * n + 2, reset)))
    cases.append((f'fdl_index<unsigned> {n} segments', K_, f_ring32(n, 2 * n + 3)))
for ty, ns in (('u8', (1, 2, 3, 64, 127, 128, 129, 200, 254, 255)), ('i8', (1, 2, 63, 64, 65, 127)), ('u16', (3, 129, 255, 256, 257)), ('i32', (1, 3, 8, 130)), ('i64', (1, 3, 8, 130))):
    for n in ns: cases.append((f'fdl_index<{ty}> {n} segments', K_, f_ring32(n, min(2 * n + 3, n + 7), f'd_ring_{ty}')))
for t in ('dense', 'split'):
    for s in E:
        for rows, bins, where in ((1, 1, ()), (1, 3, (0,)), (1, 3, (0, 0)), (3, 2, (0, 1, 2)), (3, 5, (2, 0, 2)), (4, 9, (3, 2, 1, 0, 3, 1)), (5, 17, (4, 0)), (2, 8, (1,)), (7, 4, (0, 6, 3, 6, 6, 5))):
            cases.append((f'{t}_fdl_{s} {rows}x{bins} insert {where}', K_, f_fdl(t, s, rows, bins, where)))
for n in (17, 33, 64, 100): cases.append((f'fdl_index {n} segments', K_, f_ring(n, n + 9, 10**6)))
for n, steps in ((3, 700), (255, 3), (256, 4), (257, 3), (1030, 2)): cases.append((f'fdl_index<unsigned> {n} segments, {steps} blocks', K_, f_ring32(n, steps)))
for t in ('dense', 'split'):
    for rows, bins, where in ((2, 300, (1, 0)), (300, 2, (299, 0, 256, 255, 128)), (3, 2, tuple(i * i % 3 for i in range(300)))): cases.append((f'{t}_fdl_f {rows}x{bins} {len(where)} inserts', K_, f_fdl(t, 'f', rows, bins, where)))
forms.run(c, cases, expect=100)
more = []
for n in forms.around(K_, 12, 1100, rx='ring|fdl|index', known=(27, 256, 65536)):
    more.append((f'fdl_index<unsigned> {n} segments', K_, f_ring32(n, 3 if n > 130 else n + 3))); more.append((f'fdl_index<unsigned> 2 segments, {n + 2} blocks', K_, f_ring32(2, n + 2)))
    if n < 300:
        for t in ('dense', 'split'): more += [(f'{t}_fdl_f {n}x3', K_, f_fdl(t, 'f', n, 3, (n - 1, 0, n // 2))), (f'{t}_fdl_f 2x{n}', K_, f_fdl(t, 'f', 2, n, (1, 0, 1)))]
if more: forms.run(c, more)
c.assumptions.append('up to 12 segments over three turns of the ring, up to 257 segments (to the limit of 8 bit index types) over one turn and a bit, delay lines up to 7 x 17, 2 x 300 and 300 x 2; sizes next to constants the code compares with')
done(c)

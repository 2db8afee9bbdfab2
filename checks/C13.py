from lib import *
import functools, random
c = Check('C13', 'other', EXPL + ' ' + forms.EXPL, 'csr lookup, insertion, construction from a filtered dense matrix and multiply-add with one row act on exactly the stored entries')
@functools.lru_cache(None)
def layout(seed, rows, cols):
    r = random.Random(seed * 7919 + rows * 31 + cols)
    starts, cs = [0], []
    for _ in range(rows):
        k = r.randrange(0, min(cols, 5) + 1) if r.random() < 0.8 else min(cols, 5)
        cs += sorted(r.sample(range(cols), k))
        starts.append(len(cs))
    return starts, cs
def rl(pt, off, ty):
    st, cs = layout(pt.seed, pt.args['rows'], pt.args['cols'])
    i = off // 8
    return st[i] if 0 <= i < len(st) else 0
def cl(pt, off, ty):
    st, cs = layout(pt.seed, pt.args['rows'], pt.args['cols'])
    i = off // 8
    return cs[i] if 0 <= i < len(cs) else 0
I = lambda rng, d: rng.randrange(d['rows'])
J = lambda rng, d: rng.randrange(d['cols'])
keep = lambda pt, off, ty: compare.hval(pt.seed, 'k', off)[0] % 3 % 2
nnz = lambda a: 10**9
base = dict(modes={'r_l': rl, 'c_l': cl, 'i': I, 'j': J}, sizes={'rows': [1, 2, 3, 4, 7], 'cols': [1, 2, 3, 5, 9], 'nnz': [1000]}, npts=12,
            ext={'r_l': lambda a: a['rows'] + 1}, nocarry=True)
sp = [(r'^(get|ins|ma)', base), (r'^(get|ins)', dict(npts=30)),
      (r'^ctor_', dict(modes={'keep_b': keep, 'lim': [-0.5, 0.0, -5.0]}, sizes={'rows': range(0, 6), 'cols': range(0, 6)}, npts=6))]
c.pairs([('csr.cpp', 'avx2', ())], sp, expect=0, shards=4)
# the recording stand-in for std::vector knows the operations the library uses now; where that does not compile the forms below decide alone
c.results = [r for r in c.results if r['status'] != 'broken']

# ---- forms: default containers, public interface, values symbolic, shapes and histories enumerated
K_ = ('csr2.cpp', 'avx2', ())
TY = dict(f=(F32, 1), d=(F64, 1), fu=(F32, 1), fi=(F32, 1), z=(F32, 2), s=(F64, 2))
def model(rows, cols, mode, keep, w, ops, x, lim=0.0):
    m = {}
    for r in range(rows):
        for q in range(cols):
            k = r * cols + q
            if mode in (1, 3) and keep[k] or mode == 2 and w[k] > lim: m[r, q] = w[k]
    for i, (r, q) in enumerate(ops): m[r, q] = x[i]
    return m
def cells(name, n, cxn):
    v = [sym(f'{name}{i}') for i in range(n * cxn)]
    return v if cxn == 1 else [(v[2 * i], v[2 * i + 1]) for i in range(n)]
def check_dump(I, m, rows, cols, cxn, get, meta, vals, cidx, ridx):
    es = sorted(m)
    n = len(es)
    for i, v in enumerate((rows, cols, rows * cols, rows, cols, rows, cols, n, n, rows + 1)):
        I.want(meta, i, v, what=('rows', 'columns', 'size', 'extent(0)', 'extent(1)', 'extents', 'extents', 'stored values', 'stored columns', 'row starts')[i])
    def put(o, i, v, what):
        if cxn == 1: I.want(o, i, v, what=what)
        else:
            for p in (0, 1): I.want(o, 2 * i + p, v[p], what=what)
    zero = 0.0 if cxn == 1 else (0.0, 0.0)
    for r in range(rows):
        for q in range(cols): put(get, r * cols + q, m.get((r, q), zero), f'element ({r}, {q})')
    for i, e in enumerate(es): put(vals, i, m[e], f'stored value {i}'); I.want(cidx, i, e[1], what=f'stored column {i}')
    for r in range(rows + 1): I.want(ridx, r, sum(1 for e in es if e[0] < r), what=f'start of row {r}')
def bufs(I, e, cxn, rows, cols, n, tag=''):
    return (I.buf('element' + tag, e, max(1, cxn * rows * cols)), I.buf('shape', I64, 10), I.buf('values', e, max(1, cxn * n)), I.buf('columns', I64, max(1, n)), I.buf('starts', I64, rows + 1))
def f_ops(t, rows, cols, mode, keep, ops, wv=None, lim=0.0):
    e, cxn = TY[t]
    def f(I):
        n = rows * cols
        w = I.arr('w', e, wv if wv is not None else cxn * n)
        W = wv if wv is not None else cells('w', n, cxn)
        if mode == 3: W = [W[q * rows + r] for r in range(rows) for q in range(cols)]
        x = I.arr('x', e, max(1, cxn * len(ops)))
        m = model(rows, cols, mode, keep, W, ops, cells('x', len(ops), cxn), lim)
        g = bufs(I, e, cxn, rows, cols, len(m))
        I.call(f'd_csr_{t}', [w, I.arr('keep', I8, list(keep) or [0]), mode, lim, rows, cols, I.arr('ops', I64, [v for o in ops for v in o] or [0]), len(ops), x, *g])
        check_dump(I, m, rows, cols, cxn, *g); I.unwritten(w)
    return f
def f_ma(t, rows, cols, keep, row, inplace):
    e, cxn = TY[t]
    def f(I):
        w, x, z, o = I.arr('w', e, cxn * rows * cols), I.arr('x', e, cxn * cols), I.arr('z', e, cxn * cols), I.arr('o', e, cxn * cols)
        I.call(f'd_csrma_{t}', [w, I.arr('keep', I8, list(keep)), rows, cols, row, x, z, o, inplace])
        a = 'o' if inplace else 'z'
        for q in range(cols):
            i = row * cols + q
            if cxn == 1: I.want(o, q, add(sym(f'{a}{q}'), fmul(sym(f'x{q}'), sym(f'w{i}'))) if keep[i] else sym(f'o{q}'), what='result')
            else:
                p = cm((sym(f'x{2 * q}'), sym(f'x{2 * q + 1}')), (sym(f'w{2 * i}'), sym(f'w{2 * i + 1}')))
                for h in (0, 1): I.want(o, 2 * q + h, add(sym(f'{a}{2 * q + h}'), p[h]) if keep[i] else sym(f'o{2 * q + h}'), what='result')
        for b in (w, x, z): I.unwritten(b)
    return f
def cm(a, b):
    return add(fmul(a[0], b[0]), fmul(fmul(a[1], b[1]), -1.0)), add(fmul(a[0], b[1]), fmul(a[1], b[0]))
def f_cp(t, rows, cols, keep, ops):
    e, cxn = TY[t]
    def f(I):
        n = rows * cols
        w, x = I.arr('w', e, cxn * n), I.arr('x', e, max(1, cxn * len(ops)))
        m1 = model(rows, cols, 1, keep, cells('w', n, cxn), (), ())
        m2 = model(rows, cols, 1, keep, cells('w', n, cxn), ops, cells('x', len(ops), cxn))
        g1, g2, g3 = (I.buf(nm, e, cxn * n) for nm in ('original', 'copy', 'moved'))
        meta, vals, cidx, ridx = I.buf('shape', I64, 10), I.buf('values', e, max(1, cxn * len(m2))), I.buf('columns', I64, max(1, len(m2))), I.buf('starts', I64, rows + 1)
        I.call(f'd_csrcp_{t}', [w, I.arr('keep', I8, list(keep)), rows, cols, I.arr('ops', I64, [v for o in ops for v in o] or [0]), len(ops), x, g1, g2, g3, meta, vals, cidx, ridx])
        check_dump(I, m1, rows, cols, cxn, g1, meta, vals, cidx, ridx)
        for m, g in ((m2, g2), (m2, g3)):
            for r in range(rows):
                for q in range(cols):
                    v = m.get((r, q), 0.0 if cxn == 1 else (0.0, 0.0))
                    if cxn == 1: I.want(g, r * cols + q, v)
                    else:
                        for h in (0, 1): I.want(g, 2 * (r * cols + q) + h, v[h])
    return f
import itertools
rnd = random.Random(5)
cases = []
P = [(0, 0), (0, 1), (1, 0), (1, 1)]
for k in range(0, 4):
    for ops in itertools.product(P, repeat=k): cases.append((f'empty 2x2, inserts {ops}', K_, f_ops('f', 2, 2, 0, (), ops)))
for keep in itertools.product((0, 1), repeat=6):
    cases.append((f'2x3 keeping {keep}', K_, f_ops('f', 2, 3, 1, keep, ())))
    ops = [(rnd.randrange(2), rnd.randrange(3)) for _ in range(2)]
    cases.append((f'2x3 keeping {keep}, inserts {ops}', K_, f_ops('d', 2, 3, 1, keep, ops)))
for t in TY:
    for rows, cols in ((0, 0), (0, 3), (3, 0), (1, 1), (1, 7), (7, 1), (3, 4), (5, 5), (4, 9)):
        for dens in (0.0, 0.3, 0.7, 1.0):
            keep = [int(rnd.random() < dens) for _ in range(rows * cols)]
            ops = [(rnd.randrange(rows), rnd.randrange(cols)) for _ in range(rnd.randrange(9))] if rows * cols else []
            for mode in (0, 1, 3):
                if mode or dens == 0.3: cases.append((f'{t} {rows}x{cols} mode {mode} keeping {sum(keep)}, {len(ops)} inserts {ops}', K_, f_ops(t, rows, cols, mode, keep, ops)))
            if rows * cols:
                for row in range(rows):
                    for ip in (0, 1): cases.append((f'{t} multiply_add {rows}x{cols} keeping {sum(keep)}, row {row}, {"in place" if ip else "separate"}', K_, f_ma(t, rows, cols, keep, row, ip)))
                cases.append((f'{t} copies {rows}x{cols} keeping {sum(keep)}, inserts {ops}', K_, f_cp(t, rows, cols, keep, ops)))
for t in ('f', 'd'):
    for lim in (-1.0, 0.0, 0.5, 9.0):
        for rows, cols in ((2, 3), (4, 4), (1, 6)): cases.append((f'{t} {rows}x{cols} elements above {lim}', K_, f_ops(t, rows, cols, 2, (), [(0, 1)], [rnd.choice((-2.0, -1.0, -0.5, 0.0, 0.25, 0.5, 0.75, 1.0)) for _ in range(rows * cols)], lim)))
for t in ('f', 'z'):
    for rows, cols in ((300, 2), (2, 300), (40, 40)):
        keep = [int(rnd.random() < 0.2 or i % cols == cols - 1) for i in range(rows * cols)]
        ops = [(rows - 1, cols - 1), (0, cols - 1), (rows - 1, 0), (rows // 2, cols // 2)] + [(rnd.randrange(rows), rnd.randrange(cols)) for _ in range(20)]
        cases.append((f'{t} {rows}x{cols}, {len(ops)} inserts', K_, f_ops(t, rows, cols, 1, keep, ops)))
        cases.append((f'{t} multiply_add {rows}x{cols}', K_, f_ma(t, rows, cols, keep, rows - 1, 1)))
forms.run(c, cases, expect=400)
more = []
for n in forms.around(K_, 8, 400, known=()):
    for rows, cols in ((n, 2), (2, n)):
        keep = [int(rnd.random() < 0.5 or i % cols == cols - 1) for i in range(rows * cols)]
        more += [(f'f {rows}x{cols} with inserts', K_, f_ops('f', rows, cols, 1, keep, [(rows - 1, 0), (rows - 1, cols - 1), (0, cols - 1), (rows // 2, cols // 2)])), (f'f multiply_add {rows}x{cols}', K_, f_ma('f', rows, cols, keep, rows - 1, 0))]
if more: forms.run(c, more)
c.assumptions.append('column indices within one stored row are distinct (the invariant insert and the constructor maintain)')
c.assumptions.append('forms: shapes up to 5 x 5, 4 x 9, 300 x 2, 2 x 300; all histories of up to 3 insertions into 2 x 2, sampled longer ones')
done(c)

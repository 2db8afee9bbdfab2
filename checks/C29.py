from lib import *
c = Check('C29', 'other', forms.EXPL, 'the DCT-II plan leaves 2 sum_j x[j] cos(pi k (2j + 1) / 2n) in x[k], every time it is used, contiguous or strided')
K_ = ('transforms.cpp', 'avx2', ())
def spec(name, n, st=1):
    return [lin([(sym(f'{name}{j * st}'), 2 * math.cos(math.pi * k * (2 * j + 1) / (2 * n))) for j in range(n)]) for k in range(n)]
def f_dct(s, o):
    e, n = (F32 if s == 'f' else F64), 1 << o
    def f(I):
        x, y = I.arr('x', e, n), I.arr('y', e, n)
        I.call(f'd_dct_{s}', [x, y, o])
        I.wants(x, spec('x', n)); I.wants(y, spec('y', n))
    return f
def f_dcts(s, o):
    e, n = (F32 if s == 'f' else F64), 1 << o
    def f(I):
        x = I.arr('x', e, 3 * n)
        I.call(f'd_dcts_{s}', [x, o])
        w = spec('x', n, 3)
        for i in range(3 * n): I.want(x, i, sym(f'x{i}') if i % 3 else w[i // 3])
    return f
cases = [(f'dct_{s} order {o}', K_, f_dct(s, o)) for s in 'fd' for o in range(0, 9)] + [(f'dct_strided_{s} order {o}', K_, f_dcts(s, o)) for s in 'fd' for o in range(0, 6)]
cases += [(f'dct_{s} order {o} (sparse input)', K_, only(few(1 << o), f_dct(s, o))) for s in 'fd' for o in (9, 10, 11)]
forms.run(c, cases, expect=20)
more = [(f'dct_{s} order {o} (sparse input)', K_, only(few(1 << o), f_dct(s, o))) for s in 'fd' for o in forms.orders_beyond(K_, 11, 14, 'dct')]
if more: forms.run(c, more)
done(c)

"""Alignment demanded of caller-supplied storage: every load and store through a pointer parameter may require at most the alignment of one element."""
def roots(fn):
    """SSA value -> set of parameter names it may be derived from"""
    src = {nm: {nm} for nm, ty, at in fn.params if ty[0] == 'ptr'}
    ch = True
    while ch:
        ch = False
        for b in fn.blocks:
            for i in b.ins:
                if i.name is None or i.op not in ('getelementptr', 'phi', 'select', 'bitcast', 'addrspacecast'):
                    continue
                ops = list(i.args)
                if i.op == 'phi':
                    ops = list(i.args) + [v for v in (i.x or {}).values() if isinstance(v, (list, tuple))]
                s = set(src.get(i.name, ()))
                for a in ops:
                    for y in leaves(a):
                        s |= src.get(y, set())
                if s and s != src.get(i.name):
                    src[i.name] = s
                    ch = True
    return src

def leaves(a):
    if isinstance(a, tuple):
        if len(a) >= 2 and a[0] in ('v', '%', 'l', 'loc', 'local') and isinstance(a[1], str):
            yield a[1]
        for x in a:
            yield from leaves(x)
    elif isinstance(a, list):
        for x in a:
            yield from leaves(x)

def scan(mod, fn, elem_of):
    src = roots(fn)
    bad, cnt = [], 0
    for b in fn.blocks:
        for i in b.ins:
            if i.op not in ('load', 'store'):
                continue
            p = i.args[0] if i.op == 'load' else i.args[1]
            for y in leaves(p):
                for r in src.get(y, ()):
                    e = elem_of(r)
                    if e is None:
                        continue
                    cnt += 1
                    al = (i.x or {}).get('align', 1)
                    if al > max(1, e[1] // 8):
                        bad.append((f'{i.op} through {r} requires {al}-byte alignment, the elements only have {e[1] // 8}', mod.loc(i.dbg, 6)))
    return bad, cnt

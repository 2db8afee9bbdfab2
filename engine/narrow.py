"""Widths of index arithmetic: an integer that has passed through fewer than 32 bits (or through a float) must not select a memory cell:
it would wrap around for extents that the types of the interface admit."""
PROP = {'zext', 'sext', 'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'or', 'xor', 'udiv', 'sdiv', 'freeze', 'trunc', 'phi', 'select', 'and', 'urem', 'srem'}
NARROW = (('i', 8), ('i', 16))

def names(a):
    if isinstance(a, tuple):
        if len(a) >= 2 and a[0] == 'l' and isinstance(a[1], str):
            yield a[1]
        else:
            for x in a:
                yield from names(x)
    elif isinstance(a, list):
        for x in a:
            yield from names(x)

def scan(mod, fn, repo, skip=None):
    """violations: [(text, lines)], number of index operands looked at"""
    t = {}
    if not fn.name.startswith(('d_', 'r_')):
        for nm, ty, at in fn.params:
            if ty in NARROW:
                t[nm] = f'parameter of {ty[1]} bits'
    tab = {i.name for b in fn.blocks for i in b.ins if i.op == 'getelementptr' and i.args[0][0] == 'g'}
    for b in fn.blocks:
        for i in b.ins:
            if i.name is None:
                continue
            if i.op == 'load' and any(a[0] == 'g' for a in i.args) or i.op == 'load' and any(a[0] == 'l' and a[1] in tab for a in i.args):
                continue                # a constant table
            if i.op in ('trunc', 'load', 'phi') and i.ty in NARROW:
                t[i.name] = f'{i.op} of {i.ty[1]} bits'
            elif i.op == 'and' and i.ty[0] == 'i' and any(a[0] == 'c' and len(a) > 2 and a[2] in (255, 65535) for a in i.args):
                t[i.name] = 'reduction to %d bits' % (8 if any(a[0] == 'c' and a[2] == 255 for a in i.args) else 16)
            elif i.op in ('fptoui', 'fptosi') and i.x.get('src') in (('f', 32), ('f', 16)):
                t[i.name] = 'conversion from a float'
    ch = bool(t)
    while ch:
        ch = False
        for b in fn.blocks:
            for i in b.ins:
                if i.name is None or i.name in t or i.op not in PROP or i.ty[0] != 'i' or i.ty[1] == 1:
                    continue
                ops = i.args[1:] if i.op == 'select' else i.args
                if i.op in ('and', 'urem', 'srem', 'lshr') and any(a[0] == 'c' for a in ops):
                    continue            # reduced on purpose
                for y in names(list(ops)):
                    if y in t:
                        t[i.name] = t[y]
                        ch = True
                        break
    bad, cnt = [], 0
    for b in fn.blocks:
        for i in b.ins:
            if i.op != 'getelementptr' or i.args[0][0] == 'g':
                continue
            loc = mod.loc(i.dbg, 8) if i.dbg else []
            if not any(repo in l for l in loc[:6]):
                continue
            for a in i.args[1:]:
                if a[0] != 'l':
                    continue
                cnt += 1
                if a[1] in t:
                    bad.append((f'an index in {fn.name[:60]} has passed through a {t[a[1]]}', loc))
    return bad, cnt

def obligations(mod, fns, repo, what):
    """results of the form used by check.Check"""
    out, n = [], 0
    for nm in sorted(fns):
        f = mod.funcs.get(nm)
        if f is None or not f.blocks or nm.startswith('d_ring_'):
            continue
        bad, c = scan(mod, f, repo)
        n += c
        for text, loc in bad[:3]:
            out.append(dict(name=f'index widths [{what}] {nm[:60]}', status='refuted', detail=text + ': it wraps around for extents the interface admits',
                            lines=[l.replace(repo, '') for l in loc if repo in l]))
    if not out:
        out.append(dict(name=f'index widths [{what}]', status='proved', detail='', points=n))
    return out

def reachable(mod, roots):
    seen, todo = set(), list(roots)
    while todo:
        x = todo.pop()
        f = mod.funcs.get(x)
        if x in seen or f is None:
            continue
        seen.add(x)
        for b in f.blocks:
            for i in b.ins:
                if i.op in ('call', 'invoke') and i.x['callee'][0] == 'g':
                    todo.append(i.x['callee'][1])
    return seen

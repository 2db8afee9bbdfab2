"""Abstract evaluation of small Python modules from their syntax tree: every function body is evaluated over symbolic arguments and given
constants, and the result is the term it returns (calls of imported names stay uninterpreted). Nothing of the module is imported or run."""
import ast
class Unsupported(Exception): pass
class Raised(Exception): pass
class T(tuple):
    """uninterpreted term: ('sym', name) | ('attr', term, name) | ('call', term, args, kwargs)"""
import operator
OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Pow: operator.pow, ast.Mod: operator.mod}
SAMPLES = ({'arg_n': 8, 'arg_d': 0.5}, {'arg_n': 5, 'arg_d': 2.25}, {'arg_n': 64, 'arg_d': 1 / 44100})
CONVERSIONS = {'asarray', 'array', 'ascontiguousarray', 'asanyarray', 'int', 'float', 'asfortranarray'}
def canon(t):
    """conversions that keep the value are dropped; the length of the first argument stands for an absent n"""
    if not isinstance(t, T): return t
    if t[0] == 'call':
        f = t[1]
        nm = f[2] if isinstance(f, T) and f[0] == 'attr' else f[1] if isinstance(f, T) and f[0] == 'sym' else None
        if nm in CONVERSIONS and len(t[2]) == 1 and not t[3]: return canon(t[2][0])
        return T(('call', canon(f), tuple(canon(a) for a in t[2]), tuple((k, canon(v)) for k, v in t[3])))
    if t[0] == 'op': return T(('op', t[1], canon(t[2]), canon(t[3])))
    if t[0] in ('attr', 'item'): return T((t[0], canon(t[1]), t[2]))
    return t
LEN = {T(('call', T(('sym', 'len')), (T(('sym', 'arg_x')),), ())), T(('item', T(('attr', T(('sym', 'arg_x')), 'shape')), 0)), T(('attr', T(('sym', 'arg_x')), 'size'))}
def value(t, env):
    if isinstance(t, T):
        if t[0] == 'sym' and t[1] in env: return env[t[1]]
        if t[0] == 'op': return OPS[t[1]](value(t[2], env), value(t[3], env))
        raise Unsupported(show(t))
    if isinstance(t, (int, float)) and not isinstance(t, bool): return t
    raise Unsupported(show(t))
def atomic(t): return not isinstance(t, T) or t[0] == 'sym' or t[0] == 'attr' and atomic(t[1])
def same(a, b):
    """True, False, or None when the terms do not decide it"""
    a, b = canon(a), canon(b)
    if a == b or (a is None and b in LEN) or (b is None and a in LEN): return True
    if a in LEN or b in LEN: return None
    if atomic(a) and atomic(b): return False
    try: return all(abs(value(a, e) - value(b, e)) <= 1e-9 * abs(value(b, e)) for e in SAMPLES)
    except (Unsupported, ArithmeticError): return None
def decide(got, want):
    if got == want: return True
    if got == 'raises' or not isinstance(got, T) or got[0] != 'call' or not atomic(got[1]): return False if got == 'raises' else None
    if want == 'raises': return False if got[2] and isinstance(got[2][-1], T) and got[2][-1][0] == 'attr' and isinstance(got[2][-1][1], T) and got[2][-1][1][0] == 'attr' else None
    if canon(got) == canon(want): return True
    f, g = canon(got[1]), canon(want[1])
    if f != g: return False if isinstance(f, T) and f[0] == 'attr' and f[1] == g[1] else None
    if len(got[2]) != len(want[2]) or got[3] or want[3]: return None
    r = [same(x, y) for x, y in zip(got[2], want[2])]
    return False if False in r else None if None in r else True
class Func:
    def __init__(self, node, mod): self.node, self.mod = node, mod
class Module:
    def __init__(self, path, name):
        self.path, self.name, self.env = path, name, {}
        tree = ast.parse(open(path).read(), path)
        for s in tree.body:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    n = a.asname or a.name.split('.')[0]
                    base = ('sym', a.name) if isinstance(s, ast.Import) or not s.module else None
                    self.env[n] = T(base) if base else T(('attr', T(('sym', s.module)), a.name))
            elif isinstance(s, ast.FunctionDef): self.env[s.name] = Func(s, self)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                if s.value is None: continue
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]): self.bind(t, self.ev(s.value, self.env, 0), self.env)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): pass
            else: self.run([s], self.env, 0)
    def bind(self, t, v, env):
        if isinstance(t, ast.Name): env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (tuple, list)) and not isinstance(v, T) and len(v) == len(t.elts):
            for a, b in zip(t.elts, v): self.bind(a, b, env)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, 0); k = self.ev(t.slice, env, 0)
            if not isinstance(o, dict): raise Unsupported('assignment to ' + ast.unparse(t))
            o[k] = v
        else: raise Unsupported('assignment to ' + ast.unparse(t))
    def truth(self, v, node):
        if isinstance(v, (T, Func)): raise Unsupported('condition ' + ast.unparse(node))
        return bool(v)
    def run(self, body, env, depth):
        for s in body:
            if isinstance(s, ast.Return): return ('ret', self.ev(s.value, env, depth) if s.value else None)
            if isinstance(s, ast.If):
                r = self.run(s.body if self.truth(self.ev(s.test, env, depth), s.test) else s.orelse, env, depth)
                if r: return r
            elif isinstance(s, ast.Assign):
                v = self.ev(s.value, env, depth)
                for t in s.targets: self.bind(t, v, env)
            elif isinstance(s, ast.AnnAssign) and s.value is not None: self.bind(s.target, self.ev(s.value, env, depth), env)
            elif isinstance(s, ast.Raise): raise Raised(ast.unparse(s))
            elif isinstance(s, ast.Match):
                v = self.ev(s.subject, env, depth); hit = False
                for c in s.cases:
                    if c.guard is not None: raise Unsupported('match guard')
                    p = c.pattern
                    alts = p.patterns if isinstance(p, ast.MatchOr) else [p]
                    for q in alts:
                        if isinstance(q, ast.MatchValue): ok = self.eq(v, self.ev(q.value, env, depth), q)
                        elif isinstance(q, ast.MatchAs) and q.pattern is None: ok = True; env.update({q.name: v} if q.name else {})
                        else: raise Unsupported('match pattern')
                        if ok: hit = True; break
                    if hit:
                        r = self.run(c.body, env, depth)
                        if r: return r
                        break
            elif isinstance(s, ast.For):
                it = self.ev(s.iter, env, depth)
                if isinstance(it, (T, Func)): raise Unsupported('loop over ' + ast.unparse(s.iter))
                for v in it:
                    self.bind(s.target, v, env)
                    r = self.run(s.body, env, depth)
                    if r: return r
            elif isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): pass
            elif isinstance(s, ast.FunctionDef): env[s.name] = Func(s, self)
            elif isinstance(s, ast.Expr): self.ev(s.value, env, depth)
            elif isinstance(s, ast.Try):
                try: r = self.run(s.body, env, depth)
                except (Raised, KeyError): r = self.run(s.handlers[0].body, env, depth) if s.handlers else None
                if r: return r
            else: raise Unsupported(type(s).__name__ + ' in ' + self.name)
        return None
    def eq(self, a, b, node):
        if isinstance(a, T) or isinstance(b, T):
            if a == b: return True
            raise Unsupported('comparison ' + ast.unparse(node))
        return a == b
    def ev(self, e, env, depth):
        if depth > 40: raise Unsupported('recursion')
        if isinstance(e, ast.Constant): return e.value
        if isinstance(e, ast.Name):
            for d in (env, self.env):
                if e.id in d: return d[e.id]
            return T(('sym', e.id))
        if isinstance(e, ast.Attribute):
            v = self.ev(e.value, env, depth)
            if isinstance(v, (dict, list, str)) and not isinstance(v, T): return ('method', v, e.attr)
            return T(('attr', v, e.attr))
        if isinstance(e, ast.Dict): return {self.ev(k, env, depth): self.ev(v, env, depth) for k, v in zip(e.keys, e.values)}
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)): return tuple(self.ev(x, env, depth) for x in e.elts)
        if isinstance(e, ast.Subscript):
            o, k = self.ev(e.value, env, depth), self.ev(e.slice, env, depth)
            if isinstance(o, dict):
                if k not in o: raise Raised(f'KeyError {k!r}')
                return o[k]
            if isinstance(o, tuple) and not isinstance(o, T): return o[k]
            return T(('item', o, k))
        if isinstance(e, ast.IfExp): return self.ev(e.body if self.truth(self.ev(e.test, env, depth), e.test) else e.orelse, env, depth)
        if isinstance(e, ast.BoolOp):
            v = None
            for x in e.values:
                v = self.ev(x, env, depth)
                if x is e.values[-1]: return v
                t = self.truth(v, x)
                if isinstance(e.op, ast.And) and not t or isinstance(e.op, ast.Or) and t: return v
            return v
        if isinstance(e, ast.BinOp) and type(e.op) in OPS:
            a, b = self.ev(e.left, env, depth), self.ev(e.right, env, depth)
            if isinstance(a, Func) or isinstance(b, Func): raise Unsupported('arithmetic')
            if not isinstance(a, T) and not isinstance(b, T): return OPS[type(e.op)](a, b)
            return T(('op', type(e.op), a, b))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            a = self.ev(e.operand, env, depth)
            return T(('op', ast.Sub, 0, a)) if isinstance(a, T) else -a
        if isinstance(e, ast.JoinedStr): return T(('sym', 'text'))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return not self.truth(self.ev(e.operand, env, depth), e.operand)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left, env, depth), self.ev(e.comparators[0], env, depth)
            o = e.ops[0]
            if isinstance(o, ast.Eq): return self.eq(a, b, e)
            if isinstance(o, ast.NotEq): return not self.eq(a, b, e)
            if isinstance(o, ast.Is) and (a is None or b is None) and not isinstance(a, T): return a is b
            if isinstance(o, ast.IsNot) and (a is None or b is None) and not isinstance(a, T): return a is not b
            if isinstance(o, (ast.In, ast.NotIn)) and isinstance(b, (dict, tuple, list, str)) and not isinstance(b, T) and not isinstance(a, T): return (a in b) == isinstance(o, ast.In)
            raise Unsupported('comparison ' + ast.unparse(e))
        if isinstance(e, ast.Lambda): return Func(e, self)
        if isinstance(e, ast.Call):
            f = self.ev(e.func, env, depth)
            args, kw = [], {}
            for a in e.args:
                v = self.ev(a.value if isinstance(a, ast.Starred) else a, env, depth)
                if not isinstance(a, ast.Starred): args.append(v)
                elif isinstance(v, (tuple, list)) and not isinstance(v, T): args += v
                else: raise Unsupported('star arguments')
            for k in e.keywords:
                v = self.ev(k.value, env, depth)
                if k.arg is not None: kw[k.arg] = v
                elif isinstance(v, dict): kw.update(v)
                else: raise Unsupported('star arguments')
            if isinstance(f, Func): return f.mod.call(f, args, kw, depth + 1)
            if isinstance(f, tuple) and not isinstance(f, T) and f and f[0] == 'method':
                _, o, m = f
                if isinstance(o, dict) and m == 'get': return o.get(*args)
                if isinstance(o, dict) and m in ('keys', 'values', 'items'): return tuple(getattr(o, m)())
                if isinstance(o, str) and m in ('lower', 'upper', 'strip'): return getattr(o, m)()
                raise Unsupported('method ' + m)
            if isinstance(f, T) and f == ('sym', 'getattr') and len(args) == 2: return T(('attr', args[0], args[1]))
            if isinstance(f, T) and f == ('sym', 'dict') and not args: return dict(kw)
            return T(('call', f, tuple(args), tuple(sorted(kw.items()))))
        if isinstance(e, ast.DictComp) and len(e.generators) == 1:
            g = e.generators[0]
            it = self.ev(g.iter, env, depth)
            if isinstance(it, T) or g.ifs: raise Unsupported('comprehension')
            out = {}
            for v in it:
                l = dict(env); self.bind(g.target, v, l)
                out[self.ev(e.key, l, depth)] = self.ev(e.value, l, depth)
            return out
        raise Unsupported(type(e).__name__ + ': ' + ast.unparse(e)[:60])
    def call(self, f, args, kw, depth=0):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = dict(zip(names, args))
        if len(args) > len(names): raise Unsupported('too many arguments')
        ds = a.defaults
        for n, d in zip(names[len(names) - len(ds):], ds):
            if n not in env and n not in kw: env[n] = self.ev(d, self.env, depth)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in kw and d is not None: env[x.arg] = self.ev(d, self.env, depth)
        env.update(kw)
        miss = [n for n in names if n not in env]
        if miss: raise Raised('missing argument ' + miss[0])
        if isinstance(f.node, ast.Lambda): return self.ev(f.node.body, env, depth)
        r = self.run(f.node.body, env, depth)
        return r[1] if r else None
def show(t):
    if isinstance(t, T):
        if t[0] == 'sym': return t[1]
        if t[0] == 'attr': return f'{show(t[1])}.{t[2]}'
        if t[0] == 'call': return f'{show(t[1])}({", ".join([show(x) for x in t[2]] + [f"{k}={show(v)}" for k, v in t[3]])})'
        if t[0] == 'op': return f'({show(t[2])} {t[1].__name__} {show(t[3])})'
        if t[0] == 'item': return f'{show(t[1])}[{show(t[2])}]'
    return repr(t)

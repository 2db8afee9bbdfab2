"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) of the driver translation units.

Values are represented as
  ('l', name)            local SSA value / argument
  ('g', name)            global
  ('c', ty, v)           scalar constant: int for integers, float for floating point
  ('null',) ('undef', ty) ('zero', ty)
  ('vec', ty, [values])  aggregate constant (vector, array, struct)
  ('ce', op, ty, args, extra)  constant expression (getelementptr only is interpreted)
Types: ('i', w) ('f', w) ('ptr',) ('vec', n, t) ('arr', n, t) ('struct', [t..], packed) ('named', n) ('void',) ('label',) ('fn',)
"""
import re, struct

class IRError(Exception):
    pass

TOK = re.compile(r'''
   (?P<ws>[ \t]+)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
 | (?P<punct>\.\.\.|[()\[\]{}<>,=*:|])
''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('cannot tokenize: ' + s[i:i+60])
        i = m.end()
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
    return out

def unq(s):
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
    return s

class Instr:
    __slots__ = ('name', 'op', 'ty', 'args', 'x', 'dbg', 'text')
    def __init__(self, name, op, ty, args, x=None):
        self.name, self.op, self.ty, self.args, self.x = name, op, ty, args, x
        self.dbg = None
    def __repr__(self):
        return f'{self.name}={self.op} {self.args} {self.x}'

class Block:
    __slots__ = ('label', 'ins')
    def __init__(self, label):
        self.label = label
        self.ins = []

class Function:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = []
        self.dbg = None

FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'nneg', 'disjoint', 'tail', 'musttail', 'notail', 'volatile', 'samesign', 'inrange', 'nusw', 'atomic'}
PATTR = {'noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'returned',
         'immarg', 'inreg', 'noalias', 'dereferenceable', 'dereferenceable_or_null', 'align', 'byval', 'sret', 'swiftself',
         'nofree', 'nest', 'allocptr', 'allocalign', 'captures', 'writable', 'dead_on_unwind', 'range', 'initializes', 'elementtype'}
LINK = {'dso_local', 'private', 'internal', 'linkonce_odr', 'linkonce', 'weak_odr', 'weak', 'external', 'hidden', 'protected',
        'default', 'unnamed_addr', 'local_unnamed_addr', 'constant', 'global', 'thread_local', 'common', 'available_externally',
        'extern_weak', 'appending', 'dllimport', 'dllexport', 'externally_initialized'}
CC = {'fastcc', 'ccc', 'coldcc', 'tailcc'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}

class P:
    """token cursor"""
    def __init__(self, toks, mod, line=''):
        self.t, self.i, self.mod, self.line = toks, 0, mod, line
    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None
    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None
    def next(self):
        if self.i >= len(self.t):
            raise IRError('unexpected end: ' + self.line)
        v = self.t[self.i][1]
        self.i += 1
        return v
    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False
    def expect(self, s):
        v = self.next()
        if v != s:
            raise IRError(f'expected {s} got {v}: {self.line}')
    def flags(self):
        f = set()
        while self.peek() in FLAGS:
            f.add(self.next())
        return f
    # ---- types
    def type(self):
        k, v = self.t[self.i]
        if v == '<':
            self.next()
            if self.peek() == '{':
                t = self.type()
                self.expect('>')
                return ('struct', t[1], True)
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            t = ('vec', n, e)
        elif v == '[':
            self.next()
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            self.next()
            el = []
            if not self.accept('}'):
                while True:
                    el.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            t = ('struct', tuple(el), False)
        elif k == 'loc':
            self.next()
            t = ('named', unq(v))
        else:
            self.next()
            if v == 'ptr':
                t = ('ptr',)
                if self.peek() == 'addrspace':
                    self.next(); self.expect('('); self.next(); self.expect(')')
            elif v == 'void':
                t = ('void',)
            elif v == 'half':
                t = ('f', 16)
            elif v == 'float':
                t = ('f', 32)
            elif v == 'double':
                t = ('f', 64)
            elif v == 'x86_fp80':
                t = ('f', 80)
            elif v == 'fp128':
                t = ('f', 128)
            elif v == 'label':
                t = ('label',)
            elif v == 'metadata':
                t = ('metadata',)
            elif v == 'token':
                t = ('token',)
            elif re.fullmatch(r'i\d+', v):
                t = ('i', int(v[1:]))
            else:
                raise IRError(f'type? {v}: {self.line}')
        # function type
        if self.peek() == '(' and self.mod is not None and getattr(self, 'fnty', False):
            d = 0
            while True:
                x = self.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
            t = ('fn', t)
        return t
    # ---- values
    def value(self, ty):
        k, v = self.t[self.i]
        if k == 'loc':
            self.next()
            return ('l', unq(v))
        if k == 'glob':
            self.next()
            return ('g', unq(v))
        if v in ('undef', 'poison'):
            self.next()
            return ('undef', ty)
        if v == 'null':
            self.next()
            return ('null',)
        if v == 'none':
            self.next()
            return ('undef', ty)
        if v == 'true':
            self.next()
            return ('c', ty, 1)
        if v == 'false':
            self.next()
            return ('c', ty, 0)
        if v == 'zeroinitializer':
            self.next()
            return ('zero', ty)
        if k == 'num':
            self.next()
            return ('c', ty, parse_num(v, ty))
        if k == 'str' and v.startswith('c'):
            self.next()
            bs = unescape(v[2:-1])
            return ('vec', ty, [('c', ('i', 8), b) for b in bs])
        if v in ('<', '[', '{'):
            return self.aggregate(ty)
        if v == 'getelementptr':
            self.next()
            self.flags()
            if self.peek() == 'inrange':
                self.next()
                if self.accept('('):
                    while not self.accept(')'):
                        self.next()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            args = self.tvlist(')')
            return ('ce', 'getelementptr', ty, args, bt)
        if v in CASTS:
            self.next()
            self.expect('(')
            st = self.type()
            sv = self.value(st)
            self.expect('to')
            dt = self.type()
            self.expect(')')
            return ('ce', v, dt, [(st, sv)], None)
        if v in BINOPS or v in ('icmp', 'select'):
            self.next()
            self.flags()
            if v == 'icmp':
                self.next()
            self.expect('(')
            args = self.tvlist(')')
            return ('ce', v, ty, args, None)
        if v in ('dso_local_equivalent', 'no_cfi'):
            self.next()
            return self.value(ty)
        if v == 'blockaddress':
            raise IRError('blockaddress')
        if v == 'asm':
            raise IRError('asm')
        raise IRError(f'value? {v}: {self.line[:200]}')
    def aggregate(self, ty):
        o = self.next()
        if o == '<' and self.peek() == '{':
            self.next()
            vs = [x[1] for x in self.tvlist('}')]
            self.expect('>')
            return ('vec', ty, vs)
        close = {'<': '>', '[': ']', '{': '}'}[o]
        return ('vec', ty, [x[1] for x in self.tvlist(close)])
    def tvlist(self, close):
        out = []
        if self.accept(close):
            return out
        while True:
            if self.peek() == 'inrange':
                self.next()
            t = self.type()
            self.pattrs()
            out.append((t, self.value(t)))
            if self.accept(close):
                return out
            self.expect(',')
    def pattrs(self):
        at = {}
        while self.peek() in PATTR or self.kind() == 'attr' or (self.kind() == 'str' and not self.peek().startswith('c')):
            a = self.next()
            if self.peek() == '(' :
                d = 0
                body = []
                while True:
                    x = self.next()
                    body.append(x)
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
                at[a] = body[1:-1]
            elif a == 'align':
                at[a] = int(self.next())
            else:
                at[a] = True
        return at
    def tail(self):
        """trailing ', align N, !dbg !x' parts"""
        x = {}
        while self.i < len(self.t):
            v = self.next()
            if v == ',':
                continue
            if v == 'align':
                x['align'] = int(self.next())
            elif v == '!dbg':
                x['dbg'] = self.next()
            elif v.startswith('!'):
                if self.kind() == 'md':
                    x[v] = self.next()
        return x

def unescape(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i+1:i+3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out

def parse_num(v, ty):
    if ty[0] == 'f':
        if v.startswith('0xH'):
            return struct.unpack('>e', bytes.fromhex(v[3:].zfill(4)))[0]
        if v.startswith('0xK'):
            b = bytes.fromhex(v[3:].zfill(20))
            se = int.from_bytes(b[:2], 'big')
            man = int.from_bytes(b[2:], 'big')
            s = -1.0 if se >> 15 else 1.0
            return s * man * 2.0 ** ((se & 0x7fff) - 16383 - 63) if man else 0.0
        if v.startswith('0x'):
            return struct.unpack('>d', bytes.fromhex(v[2:].zfill(16)))[0]
        return float(v)
    if v.startswith('0x'):
        return int(v[2:], 16)
    return int(v)

class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.aliases = {}
        self.funcs = {}
        self.decls = {}
        self.md = {}
        self._align, self._size, self._offsets = {}, {}, {}      # layouts (asked for after parsing only)

    # ---- layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types.get(t[1]) or ('struct', (), False)
        return t
    def align(self, t):
        r = self._align.get(t)
        if r is None:
            r = self._align[t] = self.align_(t)
        return r
    def align_(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if k == 'f':
            return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
        if k == 'ptr':
            return 8
        if k == 'vec':
            s = self.size(t)
            a = 1
            while a < s:
                a *= 2
            return a
        if k == 'arr':
            return self.align(t[2])
        if k == 'struct':
            if t[2]:
                return 1
            return max([self.align(e) for e in t[1]] or [1])
        raise IRError(f'align {t}')
    def size(self, t):
        r = self._size.get(t)
        if r is None:
            r = self._size[t] = self.size_(t)
        return r
    def size_(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if k == 'f':
            return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
        if k == 'ptr':
            return 8
        if k == 'vec':
            e = t[2]
            bits = (e[1] if e[0] in 'if' else 64) * t[1]
            return (bits + 7) // 8
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'struct':
            return self.offsets(t)[1]
        raise IRError(f'size {t}')
    def offsets(self, t):
        r = self._offsets.get(t)
        if r is None:
            r = self._offsets[t] = self.offsets_(t)
        return r
    def offsets_(self, t):
        t = self.resolve(t)
        o = 0
        offs = []
        for e in t[1]:
            if not t[2]:
                a = self.align(e)
                o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(e)
        if not t[2]:
            a = self.align(t)
            o = (o + a - 1) // a * a
        return offs, o

    def loc(self, dbg, depth=4):
        """file:line chain of a !dbg reference"""
        out = []
        while dbg and depth:
            m = self.md.get(dbg)
            if not m or 'DILocation' not in m:
                break
            line = re.search(r'line: (\d+)', m)
            scope = re.search(r'scope: (![0-9]+)', m)
            f = self.scope_file(scope.group(1)) if scope else None
            out.append(f"{f}:{line.group(1) if line else '?'}")
            ia = re.search(r'inlinedAt: (![0-9]+)', m)
            dbg = ia.group(1) if ia else None
            depth -= 1
        return out
    def scope_file(self, s):
        for _ in range(12):
            m = self.md.get(s, '')
            f = re.search(r'file: (![0-9]+)', m)
            if f:
                fm = self.md.get(f.group(1), '')
                n = re.search(r'filename: "([^"]*)"', fm)
                return n.group(1) if n else '?'
            p = re.search(r'scope: (![0-9]+)', m)
            if not p:
                return '?'
            s = p.group(1)
        return '?'
    def subprogram(self, dbg):
        m = self.md.get(dbg, '')
        s = re.search(r'scope: (![0-9]+)', m)
        if not s:
            return '?'
        s = s.group(1)
        for _ in range(12):
            mm = self.md.get(s, '')
            if 'DISubprogram' in mm:
                n = re.search(r'name: "([^"]*)"', mm)
                return n.group(1) if n else '?'
            p = re.search(r'scope: (![0-9]+)', mm)
            if not p:
                return '?'
            s = p.group(1)
        return '?'

def parse_module(text, want=None):
    """parse a module; `want`: optional predicate on function names whose bodies are parsed"""
    mod = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            p = P(tokenize(ln), mod, ln)
            nm = unq(p.next())
            p.expect('=')
            p.expect('type')
            if p.peek() == 'opaque':
                mod.types[nm] = ('struct', (), False)
            else:
                mod.types[nm] = p.type()
        elif ln.startswith('@'):
            try:
                parse_global(ln, mod)
            except IRError:
                nm = unq(tokenize(ln.split('=')[0])[0][1])
                mod.globals[nm] = dict(const=False, ty=None, init=None)
        elif ln.startswith('declare'):
            m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', ln)
            mod.decls[unq(m.group())] = ln
        elif ln.startswith('define'):
            j = i + 1
            body = []
            while lines[j] != '}':
                body.append(lines[j])
                j += 1
            m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
            nm = unq(m.group()[:-1])
            if want is None or want(nm):
                f = parse_function(ln, body, mod)
                mod.funcs[f.name] = f
            else:
                mod.decls[nm] = ln
            i = j
        elif ln.startswith('!'):
            m = re.match(r'(![0-9]+) = (.*)', ln)
            if m:
                mod.md[m.group(1)] = m.group(2)
        i += 1
    for a, t in mod.aliases.items():
        seen = {a}
        while t in mod.aliases and t not in seen: seen.add(t); t = mod.aliases[t]
        if t in mod.funcs: mod.funcs[a] = mod.funcs[t]
        elif t in mod.globals: mod.globals[a] = mod.globals[t]
    return mod

def parse_global(ln, mod):
    p = P(tokenize(ln), mod, ln)
    nm = unq(p.next())
    p.expect('=')
    const = False
    tls = False
    link = set()
    while p.peek() in LINK or p.peek() == 'comdat':
        w = p.next()
        link.add(w)
        if w == 'constant':
            const = True
        if w == 'thread_local':
            tls = True
            if p.peek() == '(':
                while p.next() != ')':
                    pass
        if w in ('constant', 'global'):
            break
    if p.peek() in ('alias', 'ifunc'):
        tgt = [v for k, v in p.t if k == 'glob'][-1]
        mod.aliases[nm] = unq(tgt)
        return
    t = p.type()
    init = None
    if p.peek() not in (None, ',') and 'external' not in link:
        init = p.value(t)
    mod.globals[nm] = dict(const=const, ty=t, init=init, link=link, tls=tls)

def parse_function(head, body, mod):
    p = P(tokenize(head.rstrip(' {')), mod, head)
    p.expect('define')
    while p.peek() in LINK or p.peek() in CC or p.peek() in PATTR or p.kind() == 'attr':
        v = p.next()
        if v in ('dereferenceable', 'dereferenceable_or_null', 'range') :
            while p.next() != ')':
                pass
        elif v == 'align':
            p.next()
    ret = p.type()
    name = unq(p.next())
    p.expect('(')
    params = []
    if not p.accept(')'):
        while True:
            if p.peek() == '...':
                p.next(); p.expect(')')
                break
            t = p.type()
            at = p.pattrs()
            if p.kind() == 'loc':
                nm = unq(p.next())
            else:
                nm = str(len(params))
            params.append((nm, t, at))
            if p.accept(')'):
                break
            p.expect(',')
    f = Function(name, ret, params)
    m = re.search(r'!dbg (![0-9]+)', head)
    f.dbg = m.group(1) if m else None
    cur = None
    k = 0
    while k < len(body):
        ln = body[k]
        k += 1
        if not ln.strip() or ln.lstrip().startswith(';'):
            continue
        m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
        if m:
            lab = m.group(1)
            if lab.startswith('"'):
                lab = lab[1:-1]
            cur = Block(lab)
            f.blocks.append(cur)
            continue
        if cur is None:
            # implicit entry label: the next unnamed number
            cnt = sum(1 for q in params if q[0].isdigit())
            cur = Block(str(cnt))
            f.blocks.append(cur)
        s = ln.strip()
        if s.startswith('switch') and not s.rstrip().endswith(']') and ']' not in s:
            while ']' not in body[k]:
                s += ' ' + body[k].strip()
                k += 1
            s += ' ' + body[k].strip()
            k += 1
        if re.match(r'(%\S+ = )?(invoke|landingpad)\b', s):
            while k < len(body) and re.match(r'\s+(to label|catch |cleanup|filter )', body[k]):
                s += ' ' + body[k].strip()
                k += 1
        ins = parse_instr(s, mod)
        if ins is not None:
            cur.ins.append(ins)
    return f

def parse_instr(s, mod):
    p = P(tokenize(s), mod, s)
    name = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        name = unq(p.next())
        p.next()
    op = p.next()
    ins = None
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BINOPS:
        fl = p.flags()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        ins = Instr(name, op, t, [a, b], dict(flags=fl))
    elif op == 'fneg':
        p.flags()
        t = p.type()
        ins = Instr(name, op, t, [p.value(t)], {})
    elif op == 'freeze':
        t = p.type()
        ins = Instr(name, op, t, [p.value(t)], {})
    elif op in CASTS:
        fl = p.flags()
        st = p.type()
        v = p.value(st)
        p.expect('to')
        dt = p.type()
        ins = Instr(name, op, dt, [v], dict(src=st, flags=fl))
    elif op in ('icmp', 'fcmp'):
        fl = p.flags()
        pr = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        rt = ('i', 1) if t[0] != 'vec' else ('vec', t[1], ('i', 1))
        ins = Instr(name, op, rt, [a, b], dict(pred=pr, src=t))
    elif op == 'select':
        p.flags()
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        ins = Instr(name, op, t, [c, a, b], dict(ct=ct))
    elif op == 'phi':
        p.flags()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            lab = unq(p.next())
            p.expect(']')
            inc.append((v, lab))
            if not p.accept(','):
                break
            if p.peek() != '[':
                p.i -= 1
                break
        ins = Instr(name, op, t, [v for v, _ in inc], dict(labels=[l for _, l in inc]))
    elif op == 'alloca':
        p.flags()
        t = p.type()
        cnt = None
        if p.peek() == ',' and p.peek(1) not in ('align', 'addrspace') and not (p.peek(1) or '').startswith('!'):
            p.next()
            ct = p.type()
            cnt = p.value(ct)
        ins = Instr(name, op, ('ptr',), [cnt] if cnt else [], dict(aty=t))
    elif op == 'load':
        fl = p.flags()
        t = p.type()
        p.expect(',')
        pt = p.type()
        v = p.value(pt)
        ins = Instr(name, op, t, [v], dict(flags=fl))
    elif op == 'store':
        fl = p.flags()
        t = p.type()
        v = p.value(t)
        p.expect(',')
        pt = p.type()
        q = p.value(pt)
        ins = Instr(name, op, t, [v, q], dict(flags=fl))
    elif op == 'getelementptr':
        fl = p.flags()
        bt = p.type()
        p.expect(',')
        args = []
        while True:
            t = p.type()
            args.append((t, p.value(t)))
            if p.peek() == ',' and not (p.peek(1) or '').startswith('!'):
                p.next()
                continue
            break
        rt = ('ptr',)
        ins = Instr(name, op, rt, [a for _, a in args], dict(bt=bt, tys=[t for t, _ in args], flags=fl))
    elif op in ('call', 'invoke'):
        p.flags()
        while p.peek() in CC or p.peek() in PATTR or p.kind() == 'attr':
            v = p.next()
            if p.peek() == '(':
                while p.next() != ')':
                    pass
            elif v == 'align':
                p.next()
        p.fnty = True
        t = p.type()
        p.fnty = False
        if t[0] == 'fn':
            t = t[1]
        if p.peek() == 'asm':
            p.next()
            while p.kind() == 'word':
                p.next()
            a = p.next()
            p.expect(',')
            b = p.next()
            callee = ('asm', a, b)
        else:
            callee = p.value(('ptr',))
        p.expect('(')
        args = []
        attrs = []
        tys = []
        if not p.accept(')'):
            while True:
                at = p.type()
                aa = p.pattrs()
                if at == ('metadata',):
                    # skip metadata operand
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                    args.append(('undef', at))
                else:
                    args.append(p.value(at))
                attrs.append(aa)
                tys.append(at)
                if p.accept(')'):
                    break
                p.expect(',')
        x = dict(callee=callee, attrs=attrs, tys=tys)
        while p.kind() == 'attr':
            p.next()
        if op == 'invoke':
            p.expect('to'); p.expect('label')
            x['normal'] = unq(p.next())
            p.expect('unwind'); p.expect('label')
            x['unwind'] = unq(p.next())
        ins = Instr(name, op, t, args, x)
    elif op == 'br':
        if p.accept('label'):
            ins = Instr(None, 'br', None, [], dict(t=[unq(p.next())]))
        else:
            t = p.type()
            c = p.value(t)
            p.expect(','); p.expect('label')
            a = unq(p.next())
            p.expect(','); p.expect('label')
            b = unq(p.next())
            ins = Instr(None, 'br', None, [c], dict(t=[a, b]))
    elif op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(','); p.expect('label')
        d = unq(p.next())
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(','); p.expect('label')
            cases.append((cv, unq(p.next())))
        ins = Instr(None, 'switch', t, [v], dict(t=[d] + [l for _, l in cases], cases=cases))
    elif op == 'ret':
        t = p.type()
        if t == ('void',):
            ins = Instr(None, 'ret', t, [], {})
        else:
            ins = Instr(None, 'ret', t, [p.value(t)], {})
    elif op == 'unreachable':
        ins = Instr(None, 'unreachable', None, [], dict(t=[]))
    elif op == 'resume':
        t = p.type()
        ins = Instr(None, 'unreachable', None, [p.value(t)], dict(t=[], resume=True))
    elif op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(','):
            if p.kind() != 'num':
                p.i -= 1
                break
            idx.append(int(p.next()))
        ins = Instr(name, op, t, [v], dict(idx=idx))
    elif op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        et = p.type()
        e = p.value(et)
        idx = []
        while p.accept(','):
            if p.kind() != 'num':
                p.i -= 1
                break
            idx.append(int(p.next()))
        ins = Instr(name, op, t, [v, e], dict(idx=idx))
    elif op == 'extractelement':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        it = p.type()
        ins = Instr(name, op, t[2], [v, p.value(it)], dict(src=t))
    elif op == 'insertelement':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        et = p.type()
        e = p.value(et)
        p.expect(',')
        it = p.type()
        ins = Instr(name, op, t, [v, e, p.value(it)], {})
    elif op == 'shufflevector':
        t = p.type()
        a = p.value(t)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        p.expect(',')
        mt = p.type()
        m = p.value(mt)
        if m[0] == 'vec':
            mask = [(e[2] if e[0] == 'c' else None) for e in m[2]]
        elif m[0] == 'zero':
            mask = [0] * mt[1]
        else:
            mask = [None] * mt[1]
        ins = Instr(name, op, ('vec', mt[1], t[2]), [a, b], dict(mask=mask, src=t))
    elif op == 'landingpad':
        t = p.type()
        ins = Instr(name, op, t, [], {})
        m = re.search(r'!dbg (![0-9]+)', s)
        ins.dbg = m.group(1) if m else None
        ins.text = s
        return ins
    elif op in ('fence', 'atomicrmw', 'cmpxchg', 'va_arg', 'indirectbr', 'callbr', 'catchswitch'):
        ins = Instr(name, op, None, [], {})
        p.i = len(p.t)
    else:
        raise IRError('opcode? ' + s[:120])
    tail = {}
    try:
        tail = p.tail()
    except IRError:
        pass
    if 'dbg' in tail:
        ins.dbg = tail['dbg']
    else:
        m = re.search(r'!dbg (![0-9]+)', s)
        ins.dbg = m.group(1) if m else None
    if 'align' in tail and ins.x is not None:
        ins.x['align'] = tail['align']
    ins.text = s
    return ins

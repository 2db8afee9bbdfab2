"""Loop-summarising gated-SSA value analysis of one LLVM function.

The analysis walks the loop-nest tree of the function once.  Acyclic regions are turned into gated terms (phi -> select on
the branch conditions that decide it); loops are summarised: header phis become closed forms of a loop counter
(affine, geometric, sum/product/max/min reductions, general recurrences), the exit test becomes a trip count, and stores
become effects quantified over the loop counter.  No path is enumerated and nothing is executed.
"""
import re
from fractions import Fraction
from llparse import *
from term import *
import term as T_

class Ptr:
    __slots__ = ('base', 'off')
    def __init__(self, base, off):
        self.base, self.off = base, off
    def __repr__(self):
        return f'&{self.base}[{show(self.off)}]'

class PSel:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

class Tup(tuple):
    """aggregate / vector value"""
    __slots__ = ()

LIBM = {'sqrt', 'fabs', 'log10', 'log2', 'log', 'sin', 'cos', 'tan', 'pow', 'exp', 'exp2', 'exp10', 'floor', 'ceil', 'hypot', 'atan2', 'copysign',
        'log1p', 'expm1', 'cbrt', 'sinh', 'cosh', 'tanh', 'atan', 'asin', 'acos', 'rint'}
LIBM_ALIAS = {'trunc': 'trunc_', 'round': 'round_', 'nearbyint': 'rint', 'roundeven': 'rint'}

LROUND = {'lround': 'fn:round_', 'llround': 'fn:round_', 'lrint': 'fn:rint', 'llrint': 'fn:rint'}

_uniq = [0]
def fresh(p):
    _uniq[0] += 1
    return f'{p}{_uniq[0]}'

class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = {header}
        self.parent = None
        self.children = []
        self.latches = []

class Summary:
    def __init__(self):
        self.ret = None
        self.effects = []
        self.calls = []       # opaque calls in program order: (guard, loops, name, args)
        self.notes = []
        self.loops = []
        self.throws = []
        self.retguard = TRUE

class Summariser:
    def __init__(self, mod, fn, elem=None, names=None, opaque_calls=False, nonneg=()):
        self.mod, self.fn = mod, fn
        self.elem = elem or {}        # base -> scalar element type of its memory
        self.names = names or {}
        self.opaque_calls = opaque_calls
        self.vals = {}
        self.S = Summary()
        self.blocks = {b.label: b for b in fn.blocks}
        self.order = [b.label for b in fn.blocks]
        self.mem = []                 # effects so far (current region list)
        self.memstack = []
        self.load_log = []
        self.allocas = {}
        self.cfg()

    # ------------------------------------------------------------------ CFG
    def cfg(self):
        self.succ = {}
        for b in self.fn.blocks:
            t = b.ins[-1]
            if t.op == 'invoke':
                self.succ[b.label] = [t.x['normal'], t.x['unwind']]
            else:
                self.succ[b.label] = list(dict.fromkeys((t.x or {}).get('t', [])))
        entry = self.order[0]
        # reachable, RPO
        seen, post = set(), []
        st = [(entry, iter(self.succ[entry]))]
        seen.add(entry)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(self.succ[v])))
                    break
            else:
                post.append(u)
                st.pop()
        self.rpo = post[::-1]
        self.num = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for u in self.rpo:
            for v in self.succ[u]:
                self.pred[v].append(u)
        # dominators
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                nd = None
                for p in self.pred[b]:
                    if p in idom:
                        nd = p if nd is None else self._isect(idom, nd, p)
                if idom.get(b) != nd:
                    idom[b] = nd
                    ch = True
        self.idom = idom
        # natural loops
        loops = {}
        for u in self.rpo:
            for v in self.succ[u]:
                if self.dominates(v, u):
                    L = loops.setdefault(v, Loop(v))
                    L.latches.append(u)
                    st = [u]
                    while st:
                        x = st.pop()
                        if x in L.blocks:
                            continue
                        L.blocks.add(x)
                        st.extend(self.pred[x])
                elif self.num[v] <= self.num[u]:
                    raise Unknown('irreducible control flow')
        self.loops = loops
        ls = sorted(loops.values(), key=lambda l: len(l.blocks))
        for i, l in enumerate(ls):
            for m in ls[i+1:]:
                if l.header in m.blocks and m is not l:
                    l.parent = m
                    m.children.append(l)
                    break
        self.inner = {}
        for l in ls:
            for b in l.blocks:
                self.inner.setdefault(b, l)

    def _isect(self, idom, a, b):
        while a != b:
            while self.num[a] > self.num[b]:
                a = idom[a]
            while self.num[b] > self.num[a]:
                b = idom[b]
        return a
    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom.get(b)
            if n is None or n == b:
                return False
            b = n

    # ------------------------------------------------------------------ driver
    def run(self):
        for i, (nm, ty, at) in enumerate(self.fn.params):
            name = self.names.get(i, nm)
            if ty[0] == 'ptr':
                self.vals[nm] = Ptr(name, iconst(0))
            elif ty[0] == 'vec':
                self.vals[nm] = Tup(mk('arg', ty[2], (), f'{name}.{j}') for j in range(ty[1]))
            else:
                self.vals[nm] = mk('arg', ty, (), name)
        self.guard0 = TRUE
        self.region(set(self.rpo), self.rpo[0], None, TRUE)
        self.S.effects = self.mem
        return self.S

    def region(self, blocks, entry, loop, guard):
        """process the acyclic region `blocks` (inner loops collapsed) starting at entry; returns reach conditions, edge conditions"""
        reach = {entry: guard}
        edge = {}
        members = sorted((b for b in blocks), key=lambda b: self.num[b])
        done_loops = set()
        exits = {}
        for b in members:
            L = self.inner.get(b)
            sub = L
            while sub is not None and sub.parent is not loop:
                sub = sub.parent
            if sub is not None and sub is not loop:
                if sub.header in done_loops:
                    continue
                if b != sub.header:
                    continue
                done_loops.add(b)
                r = self.join(reach, edge, b, blocks, loop)
                if r is None:
                    continue
                reach[b] = r
                ex = self.loop(sub, r)
                for (u, v), c in ex.items():
                    edge[(u, v)] = c
                    reach.setdefault(u, c)
                continue
            if b != entry:
                r = self.join(reach, edge, b, blocks, loop)
                if r is None:
                    continue
                reach[b] = r
            self.block(b, reach, edge, loop, blocks)
        return reach, edge

    def join(self, reach, edge, b, blocks, loop):
        r = None
        for p in self.pred[b]:
            if loop is not None and b == loop.header:
                continue
            c = edge.get((p, b))
            if c is None:
                continue
            r = c if r is None else bor(r, c)
        return r

    def block(self, b, reach, edge, loop, blocks):
        g = reach[b]
        self.cur_block = b
        for ins in self.blocks[b].ins:
            self.cur = ins
            if ins.op == 'phi':
                if loop is not None and b == loop.header:
                    continue      # set up by loop()
                self.vals[ins.name] = self.phi(ins, b, edge)
            elif ins.op == 'br':
                if len(ins.x['t']) == 1 or ins.x['t'][0] == ins.x['t'][1]:
                    edge[(b, ins.x['t'][0])] = g
                else:
                    c = self.val(ins.args[0], I1)
                    t0, t1 = ins.x['t']
                    edge[(b, t0)] = band(g, c)
                    edge[(b, t1)] = band(g, bnot(c))
                    # a branch that leaves the loop (or dies) does not guard what follows: effects are quantified over the
                    # iterations that were not left there
                    for x, y, cx in ((t0, t1, c), (t1, t0, bnot(c))):
                        out = loop is not None and x not in loop.blocks
                        dead = self.is_dead(x)
                        if dead:
                            self.S.throws.append(dict(guard=band(g, cx), block=x, dbg=ins.dbg))
                        if (out or dead) and not (loop is not None and y not in loop.blocks) and not self.is_dead(y):
                            edge[(b, y)] = g
                    for t in (t0, t1):
                        if edge[(b, t)] is FALSE:
                            del edge[(b, t)]
            elif ins.op == 'switch':
                v = self.val(ins.args[0], ins.ty)
                rest = TRUE
                for cv, lab in ins.x['cases']:
                    c = icmp('eq', v, self.val(cv, ins.ty))
                    e = band(g, c)
                    edge[(b, lab)] = bor(edge.get((b, lab), FALSE), e)
                    rest = band(rest, bnot(c))
                d = ins.x['t'][0]
                edge[(b, d)] = bor(edge.get((b, d), FALSE), band(g, rest))
            elif ins.op == 'ret':
                if ins.args:
                    v = self.val(ins.args[0], ins.ty)
                    self.S.ret = v if self.S.ret is None else self.sel(g, v, self.S.ret)
                self.S.retguard = g
            elif ins.op == 'invoke':
                self.call(ins, g)
                edge[(b, ins.x['normal'])] = g
            elif ins.op == 'unreachable':
                pass
            else:
                self.instr(ins, g)

    # gating functions ---------------------------------------------------------------------------
    def phi(self, ins, b, edge):
        inc = dict(zip(ins.x['labels'], ins.args))
        live = [p for p in inc if (p, b) in edge]
        vals = {p: self.val(inc[p], ins.ty) for p in live}
        if not live:
            raise Unknown('phi without live predecessors')
        first = vals[live[0]]
        if all(self.same(vals[p], first) for p in live):
            return first
        d = self.idom[b]
        memo = {}
        def f(x):
            """value of the phi given control is at the end of x; None: does not reach b from x"""
            if x in memo:
                return memo[x]
            memo[x] = None
            outs = []
            L = self.inner.get(x)
            bl = self.inner.get(b)
            sub = L
            while sub is not None and b not in sub.blocks and sub.parent is not None and b not in sub.parent.blocks:
                sub = sub.parent
            if sub is not None and b not in sub.blocks:
                ex = self.loop_exits[sub.header]
                for (u, v), c in ex:
                    outs.append((c, u, v))
            else:
                t = self.blocks[x].ins[-1]
                if t.op == 'br' and len(t.x['t']) == 2:
                    c = self.val(t.args[0], I1)
                    outs = [(c, x, t.x['t'][0]), (bnot(c), x, t.x['t'][1])]
                elif t.op == 'br':
                    outs = [(TRUE, x, t.x['t'][0])]
                elif t.op == 'switch':
                    v = self.val(t.args[0], t.ty)
                    rest = TRUE
                    for cv, lab in t.x['cases']:
                        c = icmp('eq', v, self.val(cv, t.ty))
                        outs.append((c, x, lab))
                        rest = band(rest, bnot(c))
                    outs.append((rest, x, t.x['t'][0]))
                elif t.op == 'invoke':
                    outs = [(TRUE, x, t.x['normal'])]
            res = []
            for c, u, v in outs:
                if c is FALSE:
                    continue
                if v == b:
                    if u in vals:
                        res.append((c, vals[u]))
                elif v in self.num and self.num[v] < self.num[b] and self.num[v] > self.num.get(x, -1):
                    r = f(v)
                    if r is not None:
                        res.append((c, r))
            if not res:
                return None
            r = res[-1][1]
            for c, v in reversed(res[:-1]):
                r = self.sel(c, v, r)
            memo[x] = r
            return r
        r = f(d)
        if r is None:
            raise Unknown('phi gating')
        return r

    def same(self, a, b):
        if isinstance(a, Node) or isinstance(b, Node):
            return a is b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.base == b.base and a.off is b.off
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return a is b

    def sel(self, c, a, b):
        if isinstance(a, Node) and isinstance(b, Node):
            if a.op == 'undef': return b
            if b.op == 'undef': return a
            return select(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if isinstance(c, Tup):
                return Tup(self.sel(ci, x, y) for ci, x, y in zip(c, a, b))
            return Tup(self.sel(c, x, y) for x, y in zip(a, b))
        if c is TRUE: return a
        if c is FALSE: return b
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base:
            return Ptr(a.base, select(c, a.off, b.off))
        if self.same(a, b):
            return a
        return PSel(c, a, b)

    # ------------------------------------------------------------------ loops
    loop_exits = None
    def loop(self, L, guard):
        if self.loop_exits is None:
            self.loop_exits = {}
        h = L.header
        if len(L.latches) != 1:
            raise Unknown('loop with several latches')
        latch = L.latches[0]
        k = fresh('k')
        kn = mk('k', I64, (), k)
        phis = [i for i in self.blocks[h].ins if i.op == 'phi']
        slots = []           # (placeholder name, ty, init node)
        info = []
        for ph in phis:
            inc = dict(zip(ph.x['labels'], ph.args))
            ins_ = [l for l in inc if l not in L.blocks]
            if len(ins_) != 1:
                raise Unknown('loop without preheader')
            init = self.val(inc[ins_[0]], ph.ty)
            nxt = inc[latch]
            v = self.placeholder(init, slots)
            self.vals[ph.name] = v
            info.append((ph, v, nxt))
        outer_mem, outer_log = self.mem, self.load_log
        entry_mem = list(outer_mem)
        self.memstack.append((outer_mem, k))
        self.mem = []
        self.load_log = []
        ncalls = len(self.S.calls)
        reach, edge = self.region(set(L.blocks), h, L, TRUE)
        # next values
        nexts = {}
        for ph, v, nx in info:
            self.match_next(v, self.val(nx, ph.ty), nexts)
        body_mem, body_log = self.mem, self.load_log
        self.memstack.pop()
        self.mem, self.load_log = outer_mem, outer_log
        # exits
        exits = []
        for u in sorted(L.blocks, key=lambda b: self.num[b]):
            for v in self.succ[u]:
                if v not in L.blocks and (u, v) in edge:
                    # exits into dead ends (unreachable / throwing blocks) are not normal exits
                    exits.append((u, v))
        back = edge.get((latch, h))
        if back is None:
            back = FALSE
        # solve recurrences
        sol = self.solve(slots, nexts, k, kn)
        memo = {}
        def S(n):
            return subst(n, sol, memo)
        # condition (within one iteration) of leaving
        live_exits = [(u, v) for (u, v) in exits if not self.dead_end(v)]
        dead_exits = [(u, v) for (u, v) in exits if self.dead_end(v)]
        conds = {e: S(edge[e]) for e in exits}
        contc = S(back)
        if back is FALSE and not exits:
            raise Unknown('loop without exit')
        for e in dead_exits:
            self.S.notes.append(('throw-in-loop', e))
        # trip count: number of completed iterations (back edges taken)
        if len(live_exits) == 0:
            raise NonTerm('a loop has no exit')
        header_exit = [e for e in live_exits if e[0] == h]
        if len(live_exits) == 1:
            e = live_exits[0]
            N = self.trip(conds[e], contc, k, kn)   # number of times the back edge is taken
            firsts = {e: None}
            exit_conds = {e: TRUE}
        else:
            # several exits: the loop leaves at the first k for which any exit condition holds
            anyc = FALSE
            for e in live_exits:
                anyc = bor(anyc, conds[e])
            main = header_exit[0] if header_exit else live_exits[-1]
            brk = FALSE
            for e in live_exits:
                if e is not main:
                    brk = bor(brk, conds[e])
            Tm = self.trip(conds[main], bnot(conds[main]), k, kn)
            # break condition is evaluated only where the main exit was not taken
            N = mk('first', I64, (Tm, brk), k)
            exit_conds = {}
            for e in live_exits:
                if e is main and main[0] == h:
                    exit_conds[e] = bnot(mk('exists', I1, (Tm, brk), k))
                elif len(live_exits) == 2 and main[0] == h:
                    exit_conds[e] = mk('exists', I1, (Tm, brk), k)
                elif main[0] == h:
                    # not reached when the loop ran to its end
                    exit_conds[e] = band(mk('exists', I1, (Tm, brk), k), subst(conds[e], {k: N}))
                else:
                    exit_conds[e] = subst(conds[e], {k: N})
        # values leaving: at the exiting iteration k = N
        at_exit = dict((p, subst(c, {k: N})) for p, c in sol.items())
        # memory: every store in the loop is performed for k = 0..N-1 fully; in iteration N only those before the exit
        hdr_only = all(e[0] == h for e in live_exits)
        new_effs = []
        for e in body_mem:
            e2 = subst_eff(e, sol, memo)
            blk = e.src[0] if e.src else None
            cnt = N
            gd = e2.guard
            if blk == h or not hdr_only:
                if blk == h:
                    cnt = add(N, iconst(1))
                else:
                    # stores on the path to the exit of iteration N are guarded by their own reach condition
                    cnt = add(N, iconst(1))
                    if len(live_exits) == 1 and self.after_exit(blk, live_exits[0][0], L):
                        cnt = N
                    elif len(live_exits) > 1:
                        cnt = self.multi_exit_count(blk, live_exits, L, N, conds, k)
            new_effs.append((e2, cnt))
        # loop-carried dependences through memory
        self.check_carried(body_log, new_effs, sol, memo, k, N, L)
        for e2, cnt in new_effs:
            g2 = e2.guard
            outer_mem.append(Effect(((k, cnt),) + e2.loops, band(guard, g2) if guard is not TRUE else g2, e2.base, e2.off, e2.ty, e2.val, e2.src, e2.kind))
        for i in range(ncalls, len(self.S.calls)):
            c = self.S.calls[i]
            c['loops'] = ((k, N),) + c['loops']
            c['guard'] = band(guard, S(c['guard']))
            c['args'] = [self.submap(a, sol, memo) for a in c['args']]
        for lg in body_log:
            outer_log.append((lg[0], subst(lg[1], sol, memo), lg[2], ((k, N),) + lg[3], lg[4]))
        # publish values: everything defined in the loop, seen from outside, is its value at k = N
        sub_exit = {}
        m2 = {}
        for b in L.blocks:
            for ins in self.blocks[b].ins:
                if ins.name is not None and ins.name in self.vals:
                    v = self.vals[ins.name]
                    self.vals[ins.name] = self.submap(self.submap(v, sol, memo), {k: N}, m2)
        self.S.loops.append(dict(header=h, k=k, trip=N, sol=sol, slots=slots, depth=len(self.memstack), exits=live_exits))
        ex = {}
        for e in live_exits:
            ex[e] = band(guard, exit_conds[e])
        self.loop_exits[h] = [(e, exit_conds[e]) for e in live_exits]
        return ex

    def is_dead(self, v):
        if not hasattr(self, '_dead'):
            self._dead = {}
        if v not in self._dead:
            self._dead[v] = self.dead_end(v)
        return self._dead[v]

    def dead_end(self, v, depth=0):
        """block v leads only to unreachable (throw, abort) without returning"""
        seen = set()
        st = [v]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            t = self.blocks[x].ins[-1]
            if t.op == 'ret':
                return False
            if len(seen) > 400:
                return False
            st.extend(self.succ[x])
        return True

    def after_exit(self, blk, exit_blk, L):
        """blk can only run after exit_blk within an iteration"""
        return blk != exit_blk and self.dominates(exit_blk, blk)

    def multi_exit_count(self, blk, exits, L, N, conds, k):
        hd = [e for e in exits if e[0] == L.header]
        if all(self.after_exit(blk, e[0], L) for e in exits):
            return N
        raise Unknown('store between the exits of a loop')

    def submap(self, v, m, memo):
        if isinstance(v, Node):
            return subst(v, m, memo)
        if isinstance(v, Ptr):
            return Ptr(v.base, subst(v.off, m, memo))
        if isinstance(v, Tup):
            return Tup(self.submap(x, m, memo) for x in v)
        if isinstance(v, PSel):
            return PSel(subst(v.c, m, memo), self.submap(v.a, m, memo), self.submap(v.b, m, memo))
        return v

    def placeholder(self, init, slots):
        if isinstance(init, Node):
            p = fresh('p')
            slots.append((p, init.ty, init))
            return mk('ph', init.ty, (), p)
        if isinstance(init, Ptr):
            p = fresh('p')
            slots.append((p, I64, init.off))
            return Ptr(init.base, mk('ph', I64, (), p))
        if isinstance(init, Tup):
            return Tup(self.placeholder(x, slots) for x in init)
        raise Unknown('loop-carried pointer select')

    def match_next(self, v, nx, out):
        if isinstance(v, Node):
            if v.op != 'ph':
                return
            if not isinstance(nx, Node):
                raise Unknown('next value')
            out[v.attr] = nx
        elif isinstance(v, Ptr):
            if not isinstance(nx, Ptr) or nx.base != v.base:
                raise Unknown('loop-carried pointer changes object')
            if v.off.op == 'ph':
                out[v.off.attr] = nx.off
        elif isinstance(v, Tup):
            for a, b in zip(v, nx):
                self.match_next(a, b, out)

    # recurrences
    def solve(self, slots, nexts, k, kn):
        sol = {}
        pending = {p: (ty, init) for p, ty, init in slots}
        names = set(pending)
        progress = True
        while pending and progress:
            progress = False
            for p in list(pending):
                ty, init = pending[p]
                nx = subst(nexts[p], sol)
                others = (nx.fv & names) - {p}
                if others & set(pending):
                    continue
                c = self.closed(p, ty, init, nx, k, kn)
                if c is not None:
                    sol[p] = c
                    del pending[p]
                    progress = True
            if not progress and pending:
                # mutual recurrences where one variable just remembers another
                for p in list(pending):
                    ty, init = pending[p]
                    nx = subst(nexts[p], sol)
                    if p not in nx.fv and not (nx.fv & set(pending)):
                        sol[p] = select(icmp('eq', kn, iconst(0)), init, subst(nx, {k: sub(kn, iconst(1))}))
                        del pending[p]
                        progress = True
        if pending:
            raise Unknown('mutually dependent recurrences: ' + ', '.join(f'{p}' for p in pending))
        return sol

    def closed(self, p, ty, init, nx, k, kn):
        P = mk('ph', ty, (), p)
        if nx is P:
            return init
        if p not in nx.fv:
            return select(icmp('eq', kn, iconst(0)), init, subst(nx, {k: sub(kn, iconst(1))}))
        # additive
        fl = ty[0] == 'f'
        terms = []
        if self.addends(nx, 1, terms, p, fl):
            mine = [(s, t) for s, t in terms if p in t.fv]
            rest = [(s, t) for s, t in terms if p not in t.fv]
            if len(mine) == 1 and mine[0][0] == 1 and mine[0][1] is P and rest:
                t = None
                for s, x in rest:
                    if t is None:
                        t = x if s == 1 else (sub(const(ty, 0), x) if not fl else mk('fneg', ty, (x,)))
                    else:
                        if fl:
                            t = mk('fadd' if s == 1 else 'fsub', ty, (t, x))
                        else:
                            t = add(t, x) if s == 1 else sub(t, x)
                if k not in t.fv and not fl:
                    kk = kn if ty[1] == 64 else cast('trunc', ty, kn)
                    return add(init, mul(kk, t))
                j = fresh('k')
                tj = subst(t, {k: mk('k', I64, (), j)})
                s = mk('sum', ty, (kn, tj), j)
                if fl:
                    if cval(init) == 0:
                        return s
                    return mk('fadd', ty, (init, s))
                return add(init, s)
        # multiplicative
        fac = []
        if self.factors(nx, fac, p, fl):
            mine = [t for t in fac if p in t.fv]
            rest = [t for t in fac if p not in t.fv]
            if len(mine) == 1 and mine[0] is P and rest:
                t = rest[0]
                for x in rest[1:]:
                    t = mk('fmul', ty, (t, x)) if fl else mul(t, x)
                if k not in t.fv and not fl:
                    return mul(init, mk('ipow', ty, (t, cast('trunc', ty, kn) if ty[1] != 64 else kn)))
                j = fresh('k')
                tj = subst(t, {k: mk('k', I64, (), j)})
                s = mk('prod', ty, (kn, tj), j)
                if cval(init) == 1:
                    return s
                return mk('fmul', ty, (init, s)) if fl else mul(init, s)
        # shifts
        if nx.op in ('lshr', 'ashr', 'shl') and nx.args[0] is P and k not in nx.args[1].fv and p not in nx.args[1].fv:
            kk = kn if ty[1] == 64 else cast('trunc', ty, kn)
            return mk(nx.op, ty, (init, mul(kk, nx.args[1])))
        # max / min reductions
        r = self.minmax(nx, P, p)
        if r is not None:
            kind, t = r
            j = fresh('k')
            tj = subst(t, {k: mk('k', I64, (), j)})
            return mk(kind, ty, (kn, tj, init), j)
        j, q = fresh('k'), fresh('p')
        return mk('rec', ty, (kn, init, subst(nx, {k: mk('k', I64, (), j), p: mk('ph', ty, (), q)})), (j, q))

    def minmax(self, nx, P, p):
        if nx.op in ('smax', 'umax', 'fmax') and P in nx.args:
            o = nx.args[0] if nx.args[1] is P else nx.args[1]
            if p not in o.fv:
                return 'maxr', o
        if nx.op in ('smin', 'umin', 'fmin') and P in nx.args:
            o = nx.args[0] if nx.args[1] is P else nx.args[1]
            if p not in o.fv:
                return 'minr', o
        if nx.op == 'select':
            c, a, b = nx.args
            if c.op in ('fcmp', 'icmp') and (a is P or b is P):
                o = b if a is P else a
                if p not in o.fv and set(x.id for x in c.args) == {P.id, o.id}:
                    pr = c.attr[1:] if c.attr not in ('eq', 'ne') else c.attr
                    if pr in ('lt', 'le', 'gt', 'ge'):
                        lt = pr in ('lt', 'le')
                        x, y = c.args
                        # c: x < y (or x > y)
                        small = x if lt else y
                        big = y if lt else x
                        if a is big:
                            return 'maxr', o
                        return 'minr', o
        return None

    def addends(self, n, s, out, p, fl):
        if p not in n.fv:
            out.append((s, n))
            return True
        if n.op == ('fadd' if fl else 'add'):
            return self.addends(n.args[0], s, out, p, fl) and self.addends(n.args[1], s, out, p, fl)
        if n.op == ('fsub' if fl else 'sub'):
            return self.addends(n.args[0], s, out, p, fl) and self.addends(n.args[1], -s, out, p, fl)
        if n.op == 'fma' and p not in n.args[0].fv and p not in n.args[1].fv:
            m = mk('fmul', n.ty, (n.args[0], n.args[1]))
            out.append((s, m))
            return self.addends(n.args[2], s, out, p, fl)
        if n.op == 'or' and not fl and n.args[0].op == 'ph' and cval(n.args[1]) is not None:
            return False
        if n.op == 'trunc' and n.args[0].op in ('add', 'sub') and not fl:
            # trunc(ext(P) + t) == P + trunc(t)
            inner = n.args[0]
            def tr(x):
                return cast('trunc', n.ty, x) if x.op not in ('zext', 'sext') or x.args[0].ty != n.ty else x.args[0]
            return self.addends(mk(inner.op, n.ty, (tr(inner.args[0]), tr(inner.args[1]))), s, out, p, fl)
        out.append((s, n))
        return True

    def factors(self, n, out, p, fl):
        if p not in n.fv:
            out.append(n)
            return True
        if n.op == ('fmul' if fl else 'mul'):
            return self.factors(n.args[0], out, p, fl) and self.factors(n.args[1], out, p, fl)
        if n.op == 'shl' and not fl and cval(n.args[1]) is not None:
            out.append(const(n.ty, 1 << cval(n.args[1])))
            return self.factors(n.args[0], out, p, fl)
        out.append(n)
        return True

    # trip counts: number of times the back edge is taken = least k for which the exit condition holds
    def trip(self, exitc, contc, k, kn):
        from nf import affine_in
        c = bnot(exitc)
        # strip conjuncts that do not involve k: not supported -> mu
        if exitc is FALSE:
            raise Unknown('loop never exits')
        t = self.trip_cond(c, k, kn)
        if t is not None:
            return t
        return mk('mu', I64, (c,), k)

    def trip_cond(self, c, k, kn):
        from nf import affine_in
        if k not in c.fv:
            return None
        if c.op == 'icmp':
            a, b = c.args
            pr = c.attr
            af = affine_in(a, k)
            bf = affine_in(b, k)
            if af is None or bf is None:
                return None
            (a0, a1), (b0, b1) = af, bf      # a = a0 + a1*k  (mathematical integers), a1 integer constant
            s = a1 - b1
            if s == 0:
                return None
            def D(x, y):
                return mk('xsub', I64, (x, y))
            if pr in ('slt', 'ult'):
                if s > 0: return self.ceildiv0(D(b0, a0), s)
                return None
            if pr in ('sle', 'ule'):
                if s > 0: return self.ceildiv0(mk('xadd', I64, (D(b0, a0), iconst(1))), s)
                return None
            if pr in ('sgt', 'ugt'):
                if s < 0: return self.ceildiv0(D(a0, b0), -s)
                return None
            if pr in ('sge', 'uge'):
                if s < 0 and pr == 'sge': return self.ceildiv0(mk('xadd', I64, (D(a0, b0), iconst(1))), -s)
                return None
            if pr == 'ne':
                if s > 0: return self.ceildiv0(D(b0, a0), s)
                return self.ceildiv0(D(a0, b0), -s)
        return None

    def ceildiv0(self, d, s):
        from nf import int_const
        v = int_const(d)
        if v is not None:
            return iconst(max(0, -((-v) // s)))
        return mk('ceildiv0', I64, (d, iconst(s)))

    # memory dependences carried by a loop
    def check_carried(self, log, effs, sol, memo, k, N, L):
        from nf import nfi
        stored = {}
        for e, cnt in effs:
            stored.setdefault(e.base, []).append(e)
        for (base, off, ty, loops, rid) in log:
            if base not in stored:
                continue
            o = subst(off, sol, memo)
            for e in stored[base]:
                if e.kind == 'havoc':
                    raise Unknown(f'loop-carried havoc on {base}')
                if self.disjoint_across(o, loops, ty, e, k):
                    continue
                self.S.notes.append(('carried', base, o, e))
                self.carried = True

    def disjoint_across(self, o, loops, ty, e, k):
        """no iteration reads (at o) what a different iteration writes (at e.off)"""
        from nf import nfi, poly_sub, split_var, poly_const, nonneg_poly, ATOMKEY
        # the read may happen in a different iteration of the inner loops, too
        ren = {kk: mk('k', I64, (), kk + "'") for kk, _ in loops if kk != k}
        o = subst(o, ren)
        loops = tuple((kk + "'" if kk in ren else kk, subst(T, ren)) for kk, T in loops)
        A, B = nfi(o), nfi(e.off)
        a1, ar = split_var(A, k)
        b1, br = split_var(B, k)
        if a1 is None or b1 is None:
            return False
        if poly_const(poly_sub(a1, b1)) != 0:
            return False
        d = poly_sub(ar, br)
        s = poly_const(a1)
        dv = poly_const(d)
        wa, wb = self.bytes(ty), self.bytes(e.ty)
        if s is not None and dv is not None and s != 0:
            # |s|*(k-k') + d in (-wa, wb) only for k == k'
            for dk in (-3, -2, -1, 1, 2, 3):
                x = s * dk + dv
                if -wa < x < wb:
                    return False
            return abs(s) * 4 > abs(dv) + max(wa, wb)
        if dv == 0 and s is None:
            # symbolic stride: treat equal offsets as the same iteration (stride is at least one element by contract)
            return True
        # inner loops: every difference of inner offsets is smaller than one step of this loop
        hi = self.max_over(d, list(loops) + list(e.loops), k)
        lo = self.max_over({m: -c for m, c in d.items()}, list(loops) + list(e.loops), k)
        if hi is None or lo is None:
            return False
        for st in (a1, {m: -c for m, c in a1.items()}):
            if nonneg_poly(poly_sub(poly_sub(st, hi), {(): Fraction(wb)})) and nonneg_poly(poly_sub(poly_sub(st, lo), {(): Fraction(wa)})):
                return True
        # a run-time row stride: rows of a matrix view do not overlap (contract of the view)
        return s is None and all(len(m) == 1 and ATOMKEY[m[0][0]][0] == 'arg' and re.match(r's[xyzo]?[01]?$', str(ATOMKEY[m[0][0]][1])) for m in a1) \
            and not any(x in self.argatoms(a1) for x in self.argatoms(d))

    def argatoms(self, p):
        from nf import ATOMKEY
        return {a for m in p for a, _ in m if ATOMKEY[a][0] == 'arg'}

    def max_over(self, p, loops, k):
        """an upper bound of p over the ranges of the inner loop counters (each used linearly), or None"""
        from nf import nfi, atom, split_var, padd, pmul, poly_sub, nonneg_poly, mentions
        r = dict(p)
        for kk, T in loops:
            if kk == k:
                continue
            c, rest = split_var(r, kk)
            if c is None:
                return None
            if not c:
                continue
            t = nfi(T)
            if any(mentions(m, atom(('k', x))) for m in t for x, _ in loops):
                return None
            if nonneg_poly(c):
                r = padd(rest, pmul(c, poly_sub(t, {(): Fraction(1)})))
            elif nonneg_poly({m: -v for m, v in c.items()}):
                r = rest
            else:
                return None
        return r

    # ------------------------------------------------------------------ values
    def val(self, v, ty):
        k = v[0]
        if k == 'l':
            r = self.vals.get(v[1])
            if r is None:
                raise Unknown(f'value %{v[1]} is not available')
            return r
        if k == 'c':
            return const(v[1], v[2])
        if k == 'null':
            return Ptr('null', iconst(0))
        if k == 'undef':
            return self.undef(self.mod.resolve(v[1]))
        if k == 'zero':
            return self.zero(self.mod.resolve(v[1]))
        if k == 'vec':
            t = self.mod.resolve(v[1])
            if t[0] == 'struct':
                return Tup(self.val(x, t[1][i]) for i, x in enumerate(v[2]))
            return Tup(self.val(x, t[2]) for x in v[2])
        if k == 'g':
            return Ptr('@' + v[1], iconst(0))
        if k == 'ce':
            if v[1] == 'getelementptr':
                return self.gep(v[4], [t for t, _ in v[3]], [x for _, x in v[3]])
            if v[1] in ('bitcast', 'addrspacecast'):
                return self.val(v[3][0][1], v[3][0][0])
        raise Unknown(f'constant {v[:3]}')

    def undef(self, t):
        if t[0] == 'vec' or t[0] == 'arr':
            return Tup(self.undef(self.mod.resolve(t[2])) for _ in range(t[1]))
        if t[0] == 'struct':
            return Tup(self.undef(self.mod.resolve(e)) for e in t[1])
        if t[0] == 'ptr':
            return Ptr('undef', iconst(0))
        return mk('undef', t)

    def zero(self, t):
        if t[0] == 'vec' or t[0] == 'arr':
            return Tup(self.zero(self.mod.resolve(t[2])) for _ in range(t[1]))
        if t[0] == 'struct':
            return Tup(self.zero(self.mod.resolve(e)) for e in t[1])
        if t[0] == 'ptr':
            return Ptr('null', iconst(0))
        return const(t, 0)

    def gep(self, bt, tys, args):
        p = self.val(args[0], ('ptr',))
        off = None
        t = bt
        for i in range(1, len(args)):
            idx = self.val(args[i], tys[i])
            if i == 1:
                sz = self.mod.size(t)
            else:
                t = self.mod.resolve(t)
                if t[0] == 'struct':
                    o = self.mod.offsets(t)[0][cval(idx)]
                    t = t[1][cval(idx)]
                    x = iconst(o)
                    off = x if off is None else add(off, x)
                    continue
                t = t[2]
                sz = self.mod.size(t)
            x = mul(sext64(idx), iconst(sz))
            off = x if off is None else add(off, x)
        return self.padd(p, off)

    def padd(self, p, off):
        if isinstance(p, Ptr):
            return Ptr(p.base, add(p.off, off))
        if isinstance(p, PSel):
            return PSel(p.c, self.padd(p.a, off), self.padd(p.b, off))
        if isinstance(p, Tup):
            raise Unknown('vector of pointers')
        if isinstance(p, Node):
            return Ptr(self.ptrbase(p), off)
        raise Unknown('pointer arithmetic')

    def ptrbase(self, n):
        return f'*{show(n)}'

    def lane(self, f, *vs):
        if any(isinstance(v, Tup) for v in vs):
            n = max(len(v) for v in vs if isinstance(v, Tup))
            return Tup(self.lane(f, *[v[i] if isinstance(v, Tup) else v for v in vs]) for i in range(n))
        return f(*vs)

    def binop(self, op, a, b):
        if op == 'add': return add(a, b)
        if op == 'sub': return sub(a, b)
        if op == 'mul': return mul(a, b)
        if a.ty == I1:
            if op == 'and': return band(a, b)
            if op == 'or': return bor(a, b)
            if op == 'xor':
                if b is TRUE: return bnot(a)
                if a is TRUE: return bnot(b)
        return fold(op, a.ty, (a, b))

    def instr(self, ins, g):
        op = ins.op
        if op in BINOPS:
            a, b = self.val(ins.args[0], ins.ty), self.val(ins.args[1], ins.ty)
            r = self.lane(lambda x, y: self.binop(op, x, y), a, b)
        elif op == 'fneg':
            r = self.lane(lambda x: fold('fneg', x.ty, (x,)), self.val(ins.args[0], ins.ty))
        elif op == 'freeze':
            r = self.val(ins.args[0], ins.ty)
        elif op in CASTS:
            r = self.docast(op, ins)
        elif op == 'icmp':
            a, b = self.val(ins.args[0], ins.x['src']), self.val(ins.args[1], ins.x['src'])
            r = self.lane(lambda x, y: self.doicmp(ins.x['pred'], x, y), a, b)
        elif op == 'fcmp':
            a, b = self.val(ins.args[0], ins.x['src']), self.val(ins.args[1], ins.x['src'])
            r = self.lane(lambda x, y: fold('fcmp', I1, (x, y), ins.x['pred']), a, b)
        elif op == 'select':
            c = self.val(ins.args[0], ins.x['ct'])
            r = self.sel(c, self.val(ins.args[1], ins.ty), self.val(ins.args[2], ins.ty))
        elif op == 'getelementptr':
            r = self.gep(ins.x['bt'], ins.x['tys'], ins.args)
        elif op == 'load':
            r = self.load(self.val(ins.args[0], ('ptr',)), ins.ty)
        elif op == 'store':
            self.store(self.val(ins.args[1], ('ptr',)), ins.ty, self.val(ins.args[0], ins.ty), g)
            return
        elif op == 'alloca':
            nm = f'%{ins.name}'
            self.allocas[nm] = ins.x['aty']
            el = self.homogeneous(ins.x['aty'])
            if el is not None and nm not in self.elem:
                self.elem[nm] = el
            r = Ptr(nm, iconst(0))
        elif op == 'extractvalue':
            r = self.val(ins.args[0], ins.ty)
            for i in ins.x['idx']:
                r = r[i]
        elif op == 'insertvalue':
            r = self.insval(self.val(ins.args[0], ins.ty), self.val(ins.args[1], None), ins.x['idx'])
        elif op == 'extractelement':
            v = self.val(ins.args[0], ins.x['src'])
            i = cval(self.val(ins.args[1], I64))
            if i is None:
                raise Unknown('variable extractelement')
            r = v[i]
        elif op == 'insertelement':
            v = self.val(ins.args[0], ins.ty)
            i = cval(self.val(ins.args[2], I64))
            if i is None:
                raise Unknown('variable insertelement')
            l = list(v)
            l[i] = self.val(ins.args[1], ins.ty[2])
            r = Tup(l)
        elif op == 'shufflevector':
            a = self.val(ins.args[0], ins.x['src'])
            b = self.val(ins.args[1], ins.x['src'])
            ab = list(a) + list(b)
            r = Tup(ab[m] if m is not None else self.undef(ins.ty[2]) for m in ins.x['mask'])
        elif op == 'call':
            r = self.call(ins, g)
            if r is None:
                return
        elif op == 'landingpad':
            return
        else:
            raise Unknown(f'opcode {op}')
        if ins.name is not None:
            self.vals[ins.name] = r
            if isinstance(r, Node) and r.src is None:
                r.src = ins.dbg

    def insval(self, agg, v, idx):
        l = list(agg)
        if len(idx) == 1:
            l[idx[0]] = v
        else:
            l[idx[0]] = self.insval(l[idx[0]], v, idx[1:])
        return Tup(l)

    def doicmp(self, pr, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.base == b.base:
                    return icmp(pr, a.off, b.off)
                if pr in ('eq', 'ne'):
                    if 'null' in (a.base, b.base):
                        o = b if a.base == 'null' else a
                        nn = self.nonnull(o)
                        if nn is True:
                            return FALSE if pr == 'eq' else TRUE
                        n = mk('isnull', I1, (), o.base)
                        return n if pr == 'eq' else bnot(n)
                    n = mk('sameptr', I1, (a.off, b.off), (a.base, b.base))
                    return n if pr == 'eq' else bnot(n)
            raise Unknown('pointer comparison across objects')
        if isinstance(a, PSel) or isinstance(b, PSel):
            raise Unknown('pointer comparison')
        return icmp(pr, a, b)

    def nonnull(self, p):
        return p.base.startswith('%') or p.base.startswith('@') or p.base.startswith('heap') or p.base in self.names.values()

    def docast(self, op, ins):
        st, dt = ins.x['src'], ins.ty
        v = self.val(ins.args[0], st)
        if op == 'bitcast':
            return self.bitcast(v, st, dt)
        if op == 'ptrtoint':
            if isinstance(v, Ptr):
                b = mk('addr', I64, (), v.base)
                return add(b, v.off)
            raise Unknown('ptrtoint')
        if op == 'inttoptr':
            raise Unknown('inttoptr')
        if op == 'addrspacecast':
            return v
        et = dt[2] if dt[0] == 'vec' else dt
        return self.lane(lambda x: cast(op, et, x) if op in ('sext', 'zext', 'trunc') else fold(op, et, (x,)), v)

    def bitcast(self, v, st, dt):
        if st == dt or st[0] == 'ptr':
            return v
        sl = [v] if st[0] != 'vec' else list(v)
        se = st if st[0] != 'vec' else st[2]
        de = dt if dt[0] != 'vec' else dt[2]
        if se == de:
            return v
        # unpack packs first
        lanes = []
        for x in sl:
            if x.op == 'pack':
                lanes += list(zip(x.args, x.attr))
            else:
                lanes.append((x, se))
        out = self.regroup(lanes, de)
        return out[0] if dt[0] != 'vec' else Tup(out)

    def regroup(self, lanes, de):
        """lanes: list of (node, type) little-endian concatenation -> list of nodes of type de"""
        out = []
        i = 0
        n = len(lanes)
        w = de[1]
        cur = []
        acc = 0
        while i < n:
            x, t = lanes[i]
            i += 1
            if t[1] > w:
                if acc:
                    raise Unknown('bitcast alignment')
                for b in range(0, t[1], w):
                    out.append(self.unpack(x, t, b, de))
                continue
            cur.append((x, t))
            acc += t[1]
            if acc == w:
                if len(cur) == 1:
                    x, t = cur[0]
                    out.append(x if t == de else (fold('bitcast', de, (x,)) if x.op != 'bitcast' or x.args[0].ty != de else x.args[0]))
                else:
                    nodes = tuple(c[0] for c in cur)
                    tys = tuple(c[1] for c in cur)
                    if all(q.op == 'undef' for q in nodes):
                        p = mk('undef', ('i', w))
                    elif all(q.op == 'const' for q in nodes):
                        p = const(('i', w), ev_op('pack', ('i', w), None, [cval(q) for q in nodes], tys))
                    else:
                        p = mk('pack', ('i', w), nodes, tys)
                    out.append(p if de[0] == 'i' else fold('bitcast', de, (p,)))
                cur, acc = [], 0
            elif acc > w:
                raise Unknown('bitcast lanes')
        if cur:
            raise Unknown('bitcast lanes')
        return out

    def unpack(self, x, t, b, de):
        if x.op == 'const':
            bits = tobits(cval(x), t)
            return const(de, frombits((bits >> b) & ((1 << de[1]) - 1), de))
        if x.op == 'undef':
            return mk('undef', de)
        if x.op == 'bitcast' and x.args[0].ty == de:
            pass
        return mk('unpack', de, (x,), b)

    # ------------------------------------------------------------------ memory
    def bytes(self, ty):
        return self.mod.size(ty)

    def load(self, p, ty):
        ty = self.mod.resolve(ty)
        if isinstance(p, PSel):
            return self.sel(p.c, self.load(p.a, ty), self.load(p.b, ty))
        if ty[0] == 'vec':
            return self.loadvec(p, ty)
        if ty[0] == 'arr':
            sz = self.mod.size(ty[2])
            return Tup(self.load(self.padd(p, iconst(i * sz)), ty[2]) for i in range(ty[1]))
        if ty[0] == 'struct':
            offs = self.mod.offsets(ty)[0]
            return Tup(self.load(self.padd(p, iconst(o)), t) for o, t in zip(offs, ty[1]))
        if ty[0] == 'ptr':
            return self.loadptr(p)
        el = self.elem.get(p.base)
        if el is not None and el != ty and el[1] < ty[1] and el[1] > 1:
            n = ty[1] // el[1]
            lanes = [(self.load1(p, iconst(i * el[1] // 8), el), el) for i in range(n)]
            return self.regroup(lanes, ty)[0]
        if el is not None and el != ty and el[1] == ty[1]:
            return fold('bitcast', ty, (self.load1(p, None, el),))
        if ty[0] == 'i' and ty[1] > 8 or ty[0] == 'f':
            # a read that covers several narrower recorded writes
            r = self.load_split(p, ty)
            if r is not None:
                return r
        return self.load1(p, None, ty)

    def load_split(self, p, ty):
        """if earlier effects wrote narrower lanes at this base, read lane-wise"""
        ws = set()
        for e in self.visible(p.base):
            if e.kind == 'st' and e.ty != ty and e.ty[0] in 'if':
                ws.add(e.ty)
        if not ws:
            return None
        w = min(t[1] for t in ws)
        if w >= ty[1] or ty[1] % w:
            return None
        t = [x for x in ws if x[1] == w][0]
        lanes = [(self.load1(p, iconst(i * w // 8), t), t) for i in range(ty[1] // w)]
        return self.regroup(lanes, ty)[0]

    def loadvec(self, p, ty):
        e = ty[2]
        if e[0] == 'ptr':
            return Tup(self.load(self.padd(p, iconst(8 * i)), e) for i in range(ty[1]))
        el = self.elem.get(p.base)
        total = ty[1] * e[1]
        if el is not None and el != e and total % el[1] == 0:
            lanes = [(self.load1(p, iconst(i * el[1] // 8), el), el) for i in range(total // el[1])]
            return Tup(self.regroup(lanes, e))
        return Tup(self.load1(p, iconst(i * e[1] // 8), e) for i in range(ty[1]))

    def visible(self, base):
        out = []
        for m, k in self.memstack:
            out += [e for e in m if e.base == base]
        out += [e for e in self.mem if e.base == base]
        return out

    def load1(self, p, extra, ty):
        off = p.off if extra is None else add(p.off, extra)
        base = p.base
        if base.startswith('@'):
            c = self.constglobal(base[1:], off, ty)
            if c is not None:
                return c
        if base in ('undef', 'null'):
            return mk('undef', ty)
        self.load_log.append((base, off, ty, (), self.cur_block))
        # look at the effects of the current region (same iteration), newest first
        def look(i, lst):
            while i >= 0:
                e = lst[i]
                if e.base != base:
                    i -= 1
                    continue
                rel = self.relate(off, ty, e)
                if rel == 'no':
                    i -= 1
                    continue
                if rel == 'must':
                    v = e.val
                    if v.ty != ty:
                        if v.ty[1] == ty[1]:
                            v = fold('bitcast', ty, (v,)) if v.op != 'bitcast' else (v.args[0] if v.args[0].ty == ty else mk('bitcast', ty, (v,)))
                        else:
                            raise Unknown('mixed-width access')
                    g = e.guard
                    if g is TRUE or self.implied(g):
                        return v
                    rest = look(i - 1, lst)
                    if rest is None:
                        rest = self.outer_load(base, off, ty)
                    return select(g, v, rest)
                return ('ver', i)
            return None
        r = look(len(self.mem) - 1, self.mem)
        if isinstance(r, Node):
            return r
        if r is None:
            return self.outer_load(base, off, ty)
        if self.memstack:
            # ambiguous within an iteration: version = outer effects + effects of this iteration
            effs = []
            for m, k in self.memstack:
                effs += [e for e in m if e.base == base]
            self.S.notes.append(('ambiguous-in-loop', base))
            effs += [e for e in self.mem if e.base == base]
            return mk('load', ty, (off,), (base, newver(effs)))
        return mk('load', ty, (off,), (base, newver([e for e in self.mem if e.base == base])))

    def implied(self, g):
        return False

    def outer_load(self, base, off, ty):
        """contents before the current region"""
        for d in range(len(self.memstack) - 1, -1, -1):
            m, k = self.memstack[d]
            lst = [e for e in m if e.base == base]
            i = len(lst) - 1
            while i >= 0:
                e = lst[i]
                rel = self.relate(off, ty, e)
                if rel == 'no':
                    i -= 1
                    continue
                if rel == 'must' and e.guard is TRUE and e.val.ty == ty:
                    return e.val
                # version
                effs = []
                for m2, k2 in self.memstack[:d + 1]:
                    effs += [x for x in m2 if x.base == base]
                return mk('load', ty, (off,), (base, newver(effs)))
        return mk('load', ty, (off,), (base, 0))

    def homogeneous(self, ty):
        """scalar element type of an array (possibly wrapped in structs), else None"""
        ty = self.mod.resolve(ty)
        if ty[0] == 'struct' and len(ty[1]) == 1:
            return self.homogeneous(ty[1][0])
        if ty[0] == 'arr':
            t = self.mod.resolve(ty[2])
            while t[0] == 'struct' and len(t[1]) == 1:
                t = self.mod.resolve(t[1][0])
            if t[0] in 'if' and t[1] >= 8:
                return t
            return self.homogeneous(t) if t[0] == 'arr' else None
        return None

    def residue(self, d, m):
        """value of the polynomial d modulo m when every non-constant coefficient is a multiple of m"""
        c = 0
        for mono, co in d.items():
            if co.denominator != 1:
                return None
            if mono == ():
                c = int(co)
            elif int(co) % m:
                return None
        return c % m

    def relate(self, off, ty, e):
        """'must' (same cell), 'no' (disjoint) or 'may'"""
        from nf import nfi, poly_sub, poly_const
        wa = self.bytes(ty)
        wb = self.bytes(e.ty)
        if e.kind == 'havoc':
            return 'may'
        if not e.loops:
            if off is e.off:
                return 'must' if wa == wb else 'may'
            d = poly_const(poly_sub(nfi(off), nfi(e.off)))
            if d is None:
                return 'may'
            if d == 0:
                return 'must' if wa == wb else 'may'
            if -wa < d < wb:
                return 'may'
            return 'no'
        # quantified write: disjoint only if the write range is provably elsewhere
        if len(e.loops) == 1:
            from nf import split_var, nonneg_poly, padd, pmulc
            k, N = e.loops[0]
            s, r = split_var(nfi(e.off), k)
            if s is not None:
                sv = poly_const(s)
                d = poly_sub(nfi(off), r)      # off - start
                if sv is not None and sv > 0:
                    if nonneg_poly(poly_sub(poly_sub({}, d), {(): wa})) :   # off + wa <= start
                        return 'no'
                    # off >= start + sv*(N-1) + wb: behind the last write (no write at all when N is 0)
                    end = padd(pmulc(nfi(N), sv), {(): wb - sv})
                    if nonneg_poly(poly_sub(d, end)):
                        return 'no'
                    # same stride, other residue
                    if sv.denominator == 1:
                        md = self.residue(d, int(sv))
                        if md is not None and md >= wb and md + wa <= sv:
                            return 'no'
        return 'may'

    def loadptr(self, p):
        self.load_log.append((p.base, p.off, ('ptr',), (), self.cur_block))
        # pointers stored to tracked memory
        for lst in [self.mem] + [m for m, k in reversed(self.memstack)]:
            for e in reversed(lst):
                if e.base != p.base:
                    continue
                rel = self.relate(p.off, ('ptr',), e)
                if rel == 'no':
                    continue
                if rel == 'must' and e.kind == 'ptr' and e.guard is TRUE:
                    return e.src[2]
                raise Unknown('pointer read after ambiguous write')
        return Ptr(f'{p.base}→{self.offname(p.off)}', iconst(0))

    def offname(self, o):
        v = cval(o)
        return str(v) if v is not None else f'[{show(o)}]'

    def store(self, p, ty, v, g):
        ty = self.mod.resolve(ty)
        if isinstance(p, PSel):
            self.store(p.a, ty, v, band(g, p.c))
            self.store(p.b, ty, v, band(g, bnot(p.c)))
            return
        if not isinstance(p, Ptr):
            raise Unknown('store through unknown pointer')
        if ty[0] == 'vec':
            e = ty[2]
            if e[0] == 'ptr':
                for i, x in enumerate(v):
                    self.store(self.padd(p, iconst(8 * i)), e, x, g)
                return
            el = self.elem.get(p.base)
            if el is not None and el != e:
                lanes = []
                for x in v:
                    if x.op == 'pack':
                        lanes += list(zip(x.args, x.attr))
                    else:
                        lanes.append((x, e))
                vv = self.regroup(lanes, el)
                e = el
            else:
                vv = v
            for i, x in enumerate(vv):
                self.store1(Ptr(p.base, add(p.off, iconst(i * e[1] // 8))), e, x, g)
            return
        if ty[0] == 'arr':
            sz = self.mod.size(ty[2])
            for i, x in enumerate(v):
                self.store(self.padd(p, iconst(i * sz)), ty[2], x, g)
            return
        if ty[0] == 'struct':
            offs = self.mod.offsets(ty)[0]
            for o, t, x in zip(offs, ty[1], v):
                self.store(self.padd(p, iconst(o)), t, x, g)
            return
        if ty[0] == 'ptr':
            self.mem.append(Effect((), g, p.base, p.off, ('ptr',), None, (self.cur_block, self.cur.dbg, v), 'ptr'))
            return
        el = self.elem.get(p.base)
        if el is not None and el != ty:
            lanes = list(zip(v.args, v.attr)) if v.op == 'pack' else [(v, ty)]
            vv = self.regroup(lanes, el)
            for i, x in enumerate(vv):
                self.store1(Ptr(p.base, add(p.off, iconst(i * el[1] // 8))), el, x, g)
            return
        if v.op == 'pack':
            o = 0
            for x, t in zip(v.args, v.attr):
                self.store1(Ptr(p.base, add(p.off, iconst(o))), t, x, g)
                o += t[1] // 8
            return
        self.store1(p, ty, v, g)

    def store1(self, p, ty, v, g):
        self.mem.append(Effect((), g, p.base, p.off, ty, v, (self.cur_block, self.cur.dbg)))

    def constglobal(self, name, off, ty):
        g = self.mod.globals.get(name)
        if not g or not g['const'] or g['init'] is None:
            return None
        o = cval(off)
        if o is None:
            return None
        try:
            return self._cg(g['init'], g['ty'], o, ty)
        except Unknown:
            return None

    def _cg(self, init, t, o, ty):
        t = self.mod.resolve(t)
        if t == ty and o == 0:
            v = self.val(init, t)
            return v if isinstance(v, Node) else None
        if init[0] == 'zero':
            return const(ty, 0)
        if init[0] == 'undef':
            return mk('undef', ty)
        if t[0] in ('arr', 'vec'):
            sz = self.mod.size(t[2])
            i, r = divmod(o, sz)
            if init[0] == 'vec' and i < len(init[2]):
                return self._cg(init[2][i], t[2], r, ty)
        if t[0] == 'struct':
            offs = self.mod.offsets(t)[0]
            for j in range(len(offs) - 1, -1, -1):
                if o >= offs[j]:
                    return self._cg(init[2][j], t[1][j], o - offs[j], ty)
        raise Unknown('constant global')

    # ------------------------------------------------------------------ calls
    def call(self, ins, g):
        callee = ins.x['callee']
        if callee[0] == 'asm':
            raise Unknown('inline asm')
        if callee[0] != 'g':
            raise Unknown('indirect call')
        nm = callee[1]
        tys = ins.x['tys']
        A = lambda i: self.val(ins.args[i], tys[i])
        if nm.startswith('llvm.'):
            return self.intrinsic(nm, ins, A, g)
        base = nm[:-1] if nm.endswith('f') and nm[:-1] in LIBM | set(LIBM_ALIAS) else nm
        if base in LIBM or base in LIBM_ALIAS:
            op = 'fn:' + LIBM_ALIAS.get(base, base)
            r = fold(op, ins.ty, [A(i) for i in range(len(ins.args))])
        elif base in ('fmax', 'fmin') or base in ('fmaxf', 'fminf'):
            r = mk('fmax' if 'max' in base else 'fmin', ins.ty, (A(0), A(1)))
        elif nm in ('cabs', 'cabsf') and len(ins.args) <= 2:
            xs = list(A(0)) if len(ins.args) == 1 else [A(0), A(1)]
            r = mk('fn:hypot', ins.ty, tuple(xs[:2]))
        elif nm in LROUND or nm.endswith('f') and nm[:-1] in LROUND:
            x = A(0)
            r = fold('fptosi', ins.ty, (fold(LROUND[nm if nm in LROUND else nm[:-1]], x.ty, (x,)),))
        elif base in ('fma', 'fmaf'):
            r = mk('fma', ins.ty, (A(0), A(1), A(2)))
        elif nm in ('_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', 'malloc', 'aligned_alloc'):
            r = Ptr(f'heap:{fresh("h")}', iconst(0))
            self.S.calls.append(dict(guard=g, loops=(), name=nm, args=[], dbg=ins.dbg))
        elif nm in ('_ZdlPvm', '_ZdlPv', '_ZdaPv', '_ZdlPvmSt11align_val_t', '_ZdlPvSt11align_val_t', 'free'):
            self.S.calls.append(dict(guard=g, loops=(), name=nm, args=[], dbg=ins.dbg))
            return None
        elif nm in ('memcpy', 'memmove'):
            self.memcpy(A(0), A(1), A(2), g)
            r = A(0)
        elif nm == 'memset':
            self.memset(A(0), A(1), A(2), g)
            r = A(0)
        elif self.opaque_calls:
            args = []
            for i in range(len(ins.args)):
                if tys[i] == ('metadata',):
                    continue
                args.append(A(i))
            seq = len(self.S.calls)
            self.S.calls.append(dict(guard=g, loops=(), name=nm, args=args, dbg=ins.dbg, seq=seq))
            if not callable(self.opaque_calls) or not self.opaque_calls(self, nm, args, g):
                for a in args:
                    if isinstance(a, Ptr):
                        self.mem.append(Effect((), g, a.base, iconst(0), ('i', 8), None, (self.cur_block, ins.dbg), 'havoc'))
            if ins.ty == ('void',):
                return None
            r = self.opaque_value(ins.ty, f'call:{nm}#{seq}')
        else:
            raise Unknown(f'call to {nm}')
        if ins.name is not None:
            self.vals[ins.name] = r
        return r

    def opaque_value(self, t, tag):
        t = self.mod.resolve(t)
        if t[0] == 'ptr':
            return Ptr(tag, iconst(0))
        if t[0] in ('struct',):
            return Tup(self.opaque_value(e, f'{tag}.{i}') for i, e in enumerate(t[1]))
        if t[0] in ('vec', 'arr'):
            return Tup(self.opaque_value(t[2], f'{tag}.{i}') for i in range(t[1]))
        return mk('arg', t, (), tag)

    def memcpy(self, d, s, n, g):
        nv = cval(n)
        if isinstance(d, PSel) or isinstance(s, PSel):
            raise Unknown('memcpy select')
        el = self.elem.get(s.base) or self.elem.get(d.base) or ('i', 8)
        w = el[1] // 8
        if nv is not None and nv <= 512:
            if self.elem.get(s.base) is None and self.elem.get(d.base) is None:
                # copy by recorded writes of the source
                ents = [(e.off, e.ty, e.kind) for e in self.visible(s.base) if not e.loops]
                done = {}
                for o, t, kd in ents:
                    ov = cval(sub(o, s.off))
                    if ov is None or t[0] == 'i' and t[1] < 8:
                        raise Unknown('memcpy of aggregate')
                    done[ov] = t
                for ov, t in sorted(done.items()):
                    if 0 <= ov < nv:
                        if t == ('ptr',):
                            v = self.loadptr(self.padd(s, iconst(ov)))
                        else:
                            v = self.load1(self.padd(s, iconst(ov)), None, t)
                        self.store(self.padd(d, iconst(ov)), t, v, g)
                if not done:
                    for i in range(0, nv, 8):
                        if nv - i >= 8:
                            t = ('i', 64)
                            v = self.load1(self.padd(s, iconst(i)), None, t)
                            self.store1(self.padd(d, iconst(i)), t, v, g)
                        else:
                            for j in range(i, nv):
                                v = self.load1(self.padd(s, iconst(j)), None, ('i', 8))
                                self.store1(self.padd(d, iconst(j)), ('i', 8), v, g)
                return
            for i in range(nv // w):
                v = self.load1(self.padd(s, iconst(i * w)), None, el)
                self.store1(self.padd(d, iconst(i * w)), el, v, g)
            return
        k = fresh('k')
        kn = mk('k', I64, (), k)
        off = mul(kn, iconst(w))
        v = self.outer_or_initial(s.base, add(s.off, off), el)
        self.load_log.append((s.base, add(s.off, off), el, (), self.cur_block))
        cnt = mk('ceildiv0', I64, (n, iconst(w))) if w > 1 else mk('max0', I64, (n,))
        self.mem.append(Effect(((k, cnt),), g, d.base, add(d.off, off), el, v, (self.cur_block, self.cur.dbg)))

    def outer_or_initial(self, base, off, ty):
        effs = self.visible(base)
        return mk('load', ty, (off,), (base, newver(effs)))

    def memset(self, d, v, n, g):
        if cval(v) != 0:
            raise Unknown('memset value')
        nv = cval(n)
        el = self.elem.get(d.base) or ('i', 8)
        w = el[1] // 8
        if nv is not None and nv <= 512:
            if self.elem.get(d.base) is None:
                w, el = (8, ('i', 64)) if nv % 8 == 0 else (4, ('i', 32)) if nv % 4 == 0 else (1, ('i', 8))
            for i in range(nv // w):
                self.store1(self.padd(d, iconst(i * w)), el, const(el, 0), g)
            return
        k = fresh('k')
        kn = mk('k', I64, (), k)
        cnt = mk('ceildiv0', I64, (n, iconst(w))) if w > 1 else mk('max0', I64, (n,))
        self.mem.append(Effect(((k, cnt),), g, d.base, add(d.off, mul(kn, iconst(w))), el, const(el, 0), (self.cur_block, self.cur.dbg)))

    def intrinsic(self, nm, ins, A, g):
        p = nm.split('.')
        n = p[1]
        et = ins.ty[2] if ins.ty and ins.ty[0] == 'vec' else ins.ty
        def L(op, cnt, attr=None):
            return self.lane(lambda *x: fold(op, et, x, attr), *[A(i) for i in range(cnt)])
        simple2 = {'smax': 'smax', 'smin': 'smin', 'umax': 'umax', 'umin': 'umin', 'maxnum': 'fmax', 'minnum': 'fmin', 'maximum': 'fmax', 'minimum': 'fmin'}
        if n in ('lifetime', 'dbg', 'assume', 'experimental', 'invariant', 'donothing', 'var', 'prefetch', 'stacksave', 'stackrestore'):
            return None
        if n in simple2:
            return L(simple2[n], 2)
        if n in ('sadd', 'ssub', 'uadd', 'usub', 'sshl') and p[2] == 'sat':
            return L(n + 'sat', 2)
        if n in ('fma', 'fmuladd'):
            return L('fma', 3)
        if n == 'abs':
            return L('abs', 1)
        if n in ('ctlz', 'cttz', 'ctpop', 'bswap', 'bitreverse'):
            return L(n, 1)
        if n in ('fshl', 'fshr'):
            return L(n, 3)
        if n in LROUND:
            return self.lane(lambda x: fold('fptosi', et, (fold(LROUND[n], x.ty, (x,)),)), A(0))
        if n in LIBM or n in LIBM_ALIAS:
            return L('fn:' + LIBM_ALIAS.get(n, n), len(ins.args))
        if n == 'expect':
            return A(0)
        if n == 'is':
            if p[2] == 'fpclass':
                return self.lane(lambda x: mk('isclass', I1, (x,), cval(A(1))), A(0))
            if p[2] == 'constant':
                return FALSE
        if n in ('memcpy', 'memmove'):
            self.memcpy(A(0), A(1), A(2), g)
            return None
        if n == 'memset':
            self.memset(A(0), A(1), A(2), g)
            return None
        if n in ('umul', 'smul', 'uadd', 'sadd', 'usub', 'ssub') and p[2] == 'with':
            a, b = A(0), A(1)
            r = self.binop({'mul': 'mul', 'add': 'add', 'sub': 'sub'}[n[1:]], a, b)
            return Tup([r, mk('ovf', I1, (a, b), n)])
        if n == 'trap':
            return None
        if n == 'powi':
            e = A(1)
            return mk('fn:pow', et, (A(0), mk('sitofp', et, (e,))))
        if n == 'ldexp':
            return mk('fmul', et, (A(0), mk('fn:exp2', et, (mk('sitofp', et, (A(1),)),))))
        if n == 'vector' and p[2] == 'reduce':
            v = A(len(ins.args) - 1)
            o = p[3]
            if o in ('fadd', 'fmul'):
                acc = A(0)
                for x in v:
                    acc = mk(o, et, (acc, x))
                return acc
            opn = {'add': 'add', 'mul': 'mul', 'and': 'and', 'or': 'or', 'xor': 'xor', 'smax': 'smax', 'smin': 'smin', 'umax': 'umax', 'umin': 'umin', 'fmax': 'fmax', 'fmin': 'fmin'}[o]
            acc = v[0]
            for x in v[1:]:
                acc = self.binop(opn, acc, x) if opn in BINOPS else mk(opn, et, (acc, x))
            return acc
        if n == 'x86':
            return self.x86('.'.join(p[2:]), ins, A, et)
        if n == 'aarch64' and p[2] == 'neon':
            if p[3] in ('sqadd', 'sqsub', 'uqadd', 'uqsub'):
                return L(('s' if p[3][0] == 's' else 'u') + p[3][2:] + 'sat', 2)
            if p[3] in ('sqdmulh', 'sqrdmulh') and et[1] == 16:
                w = ('i', 32)
                def f(a, b):
                    x = self.binop('mul', cast('sext', w, a), cast('sext', w, b))
                    if p[3] == 'sqrdmulh': x = self.binop('add', x, const(w, 1 << 14))
                    return mk('packss', et, (self.binop('ashr', x, const(w, 15)),))
                return self.lane(f, A(0), A(1))
        raise Unknown(f'intrinsic {nm}')

    def x86(self, s, ins, A, et):
        m = re.match(r'(sse2|avx2)\.pmulh\.w|avx512\.pmulh\.w\.512', s)
        if m:
            return self.lane(lambda a, b: mk('mulhs', et, (a, b)), A(0), A(1))
        if re.match(r'(sse2|avx2)\.pmulhu\.w|avx512\.pmulhu\.w\.512', s):
            return self.lane(lambda a, b: mk('mulhu', et, (a, b)), A(0), A(1))
        if 'pmul.hr.sw' in s:
            return self.lane(lambda a, b: mk('mulhrs', et, (a, b)), A(0), A(1))
        if re.search(r'pack(ss|us)(wb|dw)', s):
            a, b = A(0), A(1)
            op = 'packss' if 'packss' in s else 'packus'
            seg = 128 // a[0].ty[1]
            out = []
            for i in range(0, len(a), seg):
                out += [mk(op, et, (x,)) for x in a[i:i+seg]]
                out += [mk(op, et, (x,)) for x in b[i:i+seg]]
            return Tup(out)
        if 'vcvtph2ps' in s:
            a = A(0)
            return Tup(mk('fpext', et, (fold('bitcast', ('f', 16), (x,)) if not (x.op == 'bitcast' and x.args[0].ty == ('f', 16)) else x.args[0],)) for x in a[:ins.ty[1]])
        if 'vcvtps2ph' in s:
            a = A(0)
            imm = cval(A(1))
            if imm is None:
                raise Unknown('rounding mode')
            # bit 2: current direction (round to nearest); else bits 0-1: nearest, down, up, toward zero
            rop = 'fptrunc' if imm & 4 or imm & 3 == 0 else ('', 'fptrunc_dn', 'fptrunc_up', 'fptrunc_tz')[imm & 3]
            out = [mk('bitcast', ('i', 16), (mk(rop, ('f', 16), (x,)),)) for x in a]
            while len(out) < ins.ty[1]:
                out.append(const(('i', 16), 0))
            return Tup(out)
        if re.search(r'(max|min)\.(ps|pd)', s):
            op = 'x86max' if 'max' in s else 'x86min'
            return self.lane(lambda a, b: mk(op, et, (a, b)), A(0), A(1))
        if re.search(r'avx512\.(add|sub|mul|div)\.p[sd]\.512', s):
            op = {'add': 'fadd', 'sub': 'fsub', 'mul': 'fmul', 'div': 'fdiv'}[re.search(r'avx512\.(\w+)\.', s).group(1)]
            return self.lane(lambda a, b: mk(op, et, (a, b)), A(0), A(1))
        m = re.search(r'ps(ra|rl|ll)i?\.([wdq])', s)
        if m and s.split('.')[1].startswith('ps') and 'i.' in s:
            op = {'ra': 'ashr', 'rl': 'lshr', 'll': 'shl'}[m.group(1)]
            c = cval(A(1))
            if c is not None:
                if c >= et[1]:
                    if op == 'ashr': c = et[1] - 1
                    else: return Tup(const(et, 0) for _ in A(0))
                return self.lane(lambda a: fold(op, et, (a, const(et, c))), A(0))
        if 'vfmaddsub' in s or 'addsub' in s:
            if 'addsub' in s and 'fma' not in s:
                a, b = A(0), A(1)
                return Tup(mk('fsub' if i % 2 == 0 else 'fadd', et, (x, y)) for i, (x, y) in enumerate(zip(a, b)))
            a, b, c = A(0), A(1), A(2)
            return Tup((mk('fsub', et, (mk('fmul', et, (x, y)), z)) if i % 2 == 0 else mk('fma', et, (x, y, z))) for i, (x, y, z) in enumerate(zip(a, b, c)))
        if 'hadd' in s:
            a, b = A(0), A(1)
            seg = 128 // a[0].ty[1]
            out = []
            op = 'fadd' if et[0] == 'f' else 'add'
            for i in range(0, len(a), seg):
                for v in (a, b):
                    out += [mk(op, et, (v[j], v[j+1])) for j in range(i, i + seg, 2)]
            return Tup(out)
        if re.match(r'avx512\.vpermi2var\.', s):
            a, ix, b = A(0), A(1), A(2)
            n = len(a)
            out = []
            for i in ix:
                c = cval(i)
                if c is None:
                    raise Unknown('permutation by a run-time index')
                c &= 2 * n - 1
                out.append(a[c] if c < n else b[c - n])
            return Tup(out)
        if re.match(r'avx512\.permvar\.', s):
            a, ix = A(0), A(1)
            out = []
            for i in ix:
                c = cval(i)
                if c is None:
                    raise Unknown('permutation by a run-time index')
                out.append(a[c & (len(a) - 1)])
            return Tup(out)
        raise Unknown('x86 intrinsic ' + s)

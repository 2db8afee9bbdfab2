"""Common frame of every check: obligations, verdicts, evidence, violation reports."""
import sys, os, json, time, re, traceback, multiprocessing, random
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)
from llparse import parse_module, IRError
import build, summ, nf, compare, bounded, narrow
from term import Unknown, NonTerm, Node, show, TRUE
ROOT = build.ROOT
SUFFIX = {'f': ('f', 32), 'd': ('f', 64), 'h': ('i', 16), 'b': ('i', 8), 'w': ('i', 32), 'l': ('i', 64), 'z': ('i', 64), 'e': ('f', 16)}

def elem_of(name):
    m = re.search(r'_([fdhbwlze])$', name)
    return SUFFIX[m.group(1)] if m else None

def repo_lines(mod, fn):
    """repo source lines that contributed instructions to fn"""
    s = {}
    for b in fn.blocks:
        for i in b.ins:
            for l in mod.loc(i.dbg, 8):
                if build.REPO in l:
                    s[l.replace(build.REPO + '/', '')] = 1
    return list(s)

def summarise(mod, fn, nonneg, opaque=False):
    names = {}
    elem = {}
    for i, (nm, ty, at) in enumerate(fn.params):
        names[i] = nm
        e = elem_of(nm)
        if ty[0] == 'ptr' and e:
            elem[nm] = e
        if nm in nonneg:
            nf.NONNEG_ARGS.add(nm)
    s = summ.Summariser(mod, fn, elem=elem, names=names, opaque_calls=opaque)
    S = s.run()
    S.carried = getattr(s, 'carried', False)
    return S

SIZES = {'n', 'm', 'rows', 'cols', 'na', 'nb', 'len', 'stride', 'sx', 'sy', 'sz', 'sx0', 'sx1', 'sy0', 'sy1', 'sz0', 'sz1', 'so', 'so0', 'so1', 'nnz', 'row'}

def consts_near_sizes(mod, fn):
    """integer constants that are compared in the function: sizes around them are interesting"""
    out = set()
    for b in fn.blocks:
        for i in b.ins:
            if i.op == 'icmp':
                for a in i.args:
                    if a[0] == 'c' and isinstance(a[2], int) and 2 <= a[2] <= 3000:
                        out.add(a[2])
            if i.op == 'switch':
                for cv, l in i.x['cases']:
                    if cv[0] == 'c' and 2 <= cv[2] <= 3000:
                        out.add(cv[2])
            if i.op == 'and':               # a size reduced to a few bits
                for a in i.args:
                    if a[0] == 'c' and isinstance(a[2], int) and 7 <= a[2] <= 65535 and a[2] & (a[2] + 1) == 0:
                        out.add(a[2] + 1)
            if i.op == 'trunc' and i.ty in (('i', 8), ('i', 16)) and i.x.get('src') == ('i', 64):       # data are narrowed from less
                out.add(1 << i.ty[1])
    return sorted(out)

def sized(mod, fd, spec):
    """scalar parameters, and the specification with the sizes to look at"""
    sizes = {}
    params = []
    for nm, ty, at in fd.params:
        if ty[0] == 'ptr':
            continue
        if ty[0] == 'vec':
            for j in range(ty[1]):
                params.append((f'{nm}.{j}', ty[2]))
            continue
        params.append((nm, ty))
        if nm in SIZES:
            dflt = list(range(0, 36)) if nm == 'n' else [0, 1, 2, 3, 4, 5, 9, 17] if nm in ('rows', 'cols') else list(range(0, 5)) if not nm.startswith('s') else [1, 2, 3]
            sizes[nm] = dflt
    spec = dict(spec)
    sz = dict(sizes)
    sz.update(spec.get('sizes', {}))
    big = [c for c in consts_near_sizes(mod, fd)]
    spec['near'], spec['auto'] = big, set(sizes) - set(spec.get('sizes', {})) - set(spec.get('fixed', ()))
    for nm in list(sz):
        if nm in ('n',) and nm not in spec.get('fixed', ()):
            lo = min(sz[nm]) if len(sz[nm]) else 0
            cap = spec.get('cap', 1200)
            more = [x for c in big for x in (c - 1, c, c + 1, 2 * c + 1) if lo <= x <= cap]
            sz[nm] = sorted(set(list(sz[nm]) + more))
        elif nm in ('rows', 'cols') and nm not in spec.get('sizes', {}) and nm not in spec.get('fixed', ()):
            sz[nm] = sorted(set(sz[nm]) | {x for c in big for x in (c, c + 1, c + 2) if 0 <= x <= 24})
    spec['sizes'] = sz
    return params, spec, sz

def asserted(mod, name, spec, seed):
    """no assertion of the library rejects an input of d_<name>, which is inside its domain: None if there is none or nothing can be said"""
    fd = mod.funcs['d_' + name]
    if not any(i.op in ('call', 'invoke') and '__assert_fail' in repr(i.x.get('callee', i.args)) for b in fd.blocks for i in b.ins):
        return None
    params, spec, sz = sized(mod, fd, spec)
    rng = random.Random(seed)
    pts = compare.sample_points(params, spec, rng, 1)
    rng.shuffle(pts)
    pts = [p for p in pts[:40] + compare.size_points(params, spec, spec['near']) if (not spec.get('pre') or spec['pre'](p)) and all(abs(v) <= 600 for k, v in p.items() if k in sz)]
    n = 0
    for k, args in enumerate(sorted(pts, key=lambda p: sum(abs(p[q]) for q in sz if q in p))[:48]):
        bounded.A.reset()
        bounded.A._mm.clear()
        pt = bounded.Point(args, seed * 1000 + k, compare.MemGen(spec.get('modes', {}), {}, None))
        try:
            bounded.run(mod, fd, args, pt, spec, {})
        except bounded.Defect as e:
            if '__assert_fail' in str(e):
                return dict(status='refuted', detail=f'at {compare.fmt_args(args)}: an assertion rejects valid input', points=n, lines=repo_lines(mod, fd)[:12])
            continue
        except (bounded.Undecided, bounded.Thrown, Unknown, RecursionError):
            continue
        n += 1
    return dict(status='held', points=n, by='bounded forms', detail=None) if n else None

def pair(mod, name, spec, seed, deep):
    """decide d_<name> == r_<name>"""
    fd, fr = mod.funcs['d_' + name], mod.funcs['r_' + name]
    params, spec, sz = sized(mod, fd, spec)
    nonneg = set(sz) | set(spec.get('nonneg', ()))
    for nm, ty in params:
        if nm in nonneg:
            nf.NONNEG_ARGS.add(nm)
    try:
        Sd = summarise(mod, fd, nonneg, spec.get('opaque', False))
    except NonTerm as e:
        return dict(status='refuted', detail=f'never returns: {e}', points=0, lines=repo_lines(mod, fd)[:12])
    except Unknown as e:
        return second(mod, name, params, spec, seed, e)
    Sr = summarise(mod, fr, nonneg, spec.get('opaque', False))
    if os.environ.get('FORCE2'):
        return second(mod, name, params, spec, seed, Unknown('forced'))
    extra = sorted({n for S in (Sd, Sr) for n in argnames(S) if n not in dict(params)})
    params2 = params + [(n, ('i', 64)) for n in extra if n.startswith('addr:')]
    try:
        r = compare.compare(Sd, Sr, params2, spec, seed, spec.get('npts', 0) * (4 if deep else 1) or (None if not deep else None))
    except Unknown as e:
        return second(mod, name, params, spec, seed, e)
    r['loops'] = len(Sd.loops)
    r['effects'] = len(Sd.effects)
    r['instructions'] = sum(len(b.ins) for b in fd.blocks)
    at = r.pop('at', None)
    if r['status'] == 'refuted' and at is not None and not spec.get('opaque') and not spec.get('exact') and bounded.agrees(mod, name, *at, spec):
        return second(mod, name, params, spec, seed, Unknown('not confirmed by the forms: ' + r['detail']))
    if r['status'] == 'refuted':
        r['lines'] = repo_lines(mod, fd)[:12]
    return r

def second(mod, name, params, spec, seed, e):
    """no closed summary: compare polynomial forms at fixed sizes"""
    fd = mod.funcs['d_' + name]
    r = None
    if not spec.get('opaque'):
        try:
            r = bounded.decide(mod, name, params, spec, seed)
        except RecursionError:
            pass
    if r is None:
        raise e
    r['instructions'] = sum(len(b.ins) for b in fd.blocks)
    if r['status'] == 'refuted':
        r['lines'] = repo_lines(mod, fd)[:12]
    return r

def argnames(S):
    seen = set()
    out = set()
    st = list(compare.flat(S.ret))
    for e in S.effects:
        st += [e.off, e.guard] + ([e.val] if e.val is not None else []) + [T for k, T in e.loops]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == 'arg':
            out.add(n.attr)
        st.extend(n.args)
    return out

def run_in_thread(f, *a):
    """deep recursion needs a large stack"""
    box = {}
    def g():
        try:
            box['r'] = f(*a)
        except BaseException as e:
            box['e'] = e
    t = threading.Thread(target=g)
    t.start()
    t.join()
    if 'e' in box:
        raise box['e']
    return box['r']

def driver_job(args):
    return run_in_thread(_driver_job, args)

_JOBS = []
def driver_job_i(i):
    # job descriptions hold closures: the forked worker finds them by index
    return driver_job(_JOBS[i])

def _driver_job(args):
    src, cfg, defs, specs, seed, deep, only, shard, shards = args
    out = []
    wd = build.scratch()
    try:
        text = build.compile_ll(os.path.join(ROOT, 'drivers', src), cfg, wd, defs)
    except build.BuildError as e:
        return [dict(name=f'{src}[{cfg}]', status='broken', detail=str(e))]
    finally:
        pass
    try:
        mod = parse_module(text)
    except IRError as e:
        return [dict(name=f'{src}[{cfg}]', status='broken', detail='IR: ' + str(e))]
    import shutil
    shutil.rmtree(wd, True)
    names = sorted(n[2:] for n in mod.funcs if n.startswith('d_'))
    names = [n for n in names if 'r_' + n in mod.funcs]
    t0 = time.time()
    if shard == 0 and src in WIDTHS:
        out += narrow.obligations(mod, narrow.reachable(mod, ['d_' + n for n in names]), build.REPO + '/', f'{src} {cfg}')
    amod = None
    if src in ASSERTS and cfg == 'avx2':
        try:
            amod = parse_module(build.compile_ll(os.path.join(ROOT, 'drivers', src), cfg, wd2 := build.scratch(), defs, ndebug=False))
            shutil.rmtree(wd2, True)
        except (build.BuildError, IRError):
            pass
    for n in names[shard::shards]:
        if only and not re.search(only, n):
            continue
        if not deep and time.time() - t0 > 600:
            out.append(dict(name=f'{n}[{cfg}]', status='unknown', detail='time budget'))
            continue
        spec = {}
        for pat, sp in specs:
            if re.search(pat, n):
                spec.update(sp)
        t = time.time()
        try:
            r = pair(mod, n, spec, seed, deep)
        except (Unknown, IRError) as e:
            r = dict(status='unknown', detail=str(e), lines=repo_lines(mod, mod.funcs['d_' + n])[:6])
        except RecursionError:
            r = dict(status='unknown', detail='recursion limit')
        except Exception as e:
            r = dict(status='unknown', detail=f'internal: {e!r} {traceback.format_exc()[-600:]}')
        r['name'] = f'{n}[{cfg}]'
        r['time'] = round(time.time() - t, 2)
        out.append(r)
        if amod is not None and 'd_' + n in amod.funcs:
            t = time.time()
            try:
                r = asserted(amod, n, spec, seed)
            except Exception as e:
                r = None
            if r is not None:
                out.append(dict(r, name=f'{n} with assertions[{cfg}]', time=round(time.time() - t, 2)))
    return out

ASSERTS = ('dense.cpp', 'madd.cpp', 'stats.cpp', 'norm.cpp', 'bits.cpp', 'units.cpp', 'units2.cpp', 'fixedarr.cpp')
WIDTHS = ('dense.cpp', 'madd.cpp', 'stats.cpp', 'norm.cpp', 'csr.cpp', 'fixedarr.cpp')

class Check:
    def __init__(self, pid, level, explanation, rule):
        self.pid, self.level, self.explanation, self.rule = pid, level, explanation, rule
        self.t0 = time.time()
        self.results = []
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        for a in sys.argv[1:]:
            if a in ('quick', 'thorough'):
                self.tier = a
        self.deep = self.tier == 'thorough'
        self.only = os.environ.get('ONLY')
        self.assumptions = []
        self.known = []
        kf = os.path.join(ROOT, 'known_findings.json')
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf))['known'] if k['property'] == pid]

    def pairs(self, jobs, specs=(), expect=0, shards=1):
        """jobs: [(driver, config, defs)]"""
        a = [(src, cfg, tuple(defs), specs, self.seed, self.deep, self.only, k, shards) for src, cfg, defs in jobs for k in range(shards)]
        global _JOBS
        _JOBS = a
        if len(a) == 1 or os.environ.get('SERIAL'):
            rs = [driver_job(x) for x in a]
        else:
            with ProcessPoolExecutor(max_workers=min(8, len(a)), mp_context=multiprocessing.get_context('fork')) as ex:
                rs = list(ex.map(driver_job_i, range(len(a))))
        n = 0
        for r in rs:
            self.results += r
            n += len(r)
        if n < expect and not self.only:
            self.results.append(dict(name='instances', status='broken', detail=f'only {n} obligations found, {expect} expected'))
        return rs

    def add(self, name, status, detail='', **kw):
        self.results.append(dict(name=name, status=status, detail=detail, **kw))

    def finish(self, level_note='', extra=None):
        by = {}
        for r in self.results:
            by.setdefault(r['status'], []).append(r)
        viol, known = [], []
        for r in by.get('refuted', []):
            kk = [k for k in self.known if re.search(k['match'], r['name'])]
            (known if kk else viol).append((r, kk))
        for r, kk in known:
            print(f"KNOWN-FINDING: property={self.pid} {kk[0]['what']} ({r['name']})")
        bad = by.get('unknown', []) + by.get('broken', [])
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        repdir = os.path.join(ROOT, 'build', 'replay')
        dis = len(by.get('proved', [])) + len(by.get('held', []))
        cov = dict(explanation=self.explanation, rule=self.rule, obligations=len(self.results), discharged=dis,
                   proved_for_all_inputs=len(by.get('proved', [])), held_by_term_interpretation=len(by.get('held', [])),
                   known_findings=len(known), undecided=len(bad),
                   loops_summarised=sum(r.get('loops', 0) for r in self.results),
                   instructions_analysed=sum(r.get('instructions', 0) for r in self.results),
                   interpretation_points=sum(r.get('points', 0) for r in self.results),
                   items=[dict(name=r['name'], verdict=r['status']) for r in self.results][:400])
        if extra:
            cov.update(extra)
        evd = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                   wall_s=round(time.time() - self.t0, 2), assumptions=self.assumptions, violations=len(viol))
        json.dump(evd, open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w'), indent=1)
        if viol:
            os.makedirs(repdir, exist_ok=True)
            p = os.path.join(repdir, self.pid + '.txt')
            with open(p, 'w') as f:
                for r, _ in viol:
                    f.write(f"property {self.pid}\nobligation {r['name']}\nrule: {self.rule}\nfinding: {r['detail']}\n")
                    for l in r.get('lines', []):
                        f.write(f'  at {l}\n')
                    f.write('\n')
            for r, _ in viol[:12]:
                print(f"  {r['name']}: {r['detail']}")
                for l in r.get('lines', [])[:6]:
                    print(f'      {l}')
            print(f'VIOLATION property={self.pid} replay={p}')
            for r in bad:
                print(f"  note: undecided {r['name']}: {str(r['detail'])[:300]}")
            sys.exit(1)
        if by.get('unknown') and not by.get('broken') and dis:
            for r in by['unknown']:
                print(f"UNDECIDED property={self.pid} {r['name']}: {str(r['detail'])[:300]}")
            bad = []
        if bad:
            for r in bad[:6]:
                print(f"ANALYSIS-BROKEN property={self.pid} {r['name']}: {str(r['detail'])[:1500]}")
            sys.exit(2)
        print(f"OK property={self.pid} obligations={len(self.results)} proved={len(by.get('proved', []))} held={len(by.get('held', []))} known={len(known)} ({evd['wall_s']} s)")
        sys.exit(0)

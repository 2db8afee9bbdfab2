from lib import *
import build, effects
from llparse import parse_module
c = Check('C25', 'other', 'Each per-block operation is compiled to LLVM IR on an object that already exists; the effects of everything reachable from it in the call graph are collected (external calls, atomics, mutable globals, indirect calls).',
          'no allocation, deallocation, exception, lock, system call or mutable global is reachable from a per-block operation')
MIN = dict(avx2=100)
def job(cfg):
    wd = build.scratch()
    try: return cfg, parse_module(build.compile_ll(os.path.join(build.ROOT, 'drivers', 'rt.cpp'), cfg, wd, (), api='d_*', ndebug=True, exceptions=True, inline=2000))
    except build.BuildError as e: return cfg, str(e)
from concurrent.futures import ProcessPoolExecutor
cfgs = ['avx2', 'sse2'] + (['avx2-noxsimd', 'sse41', 'avx512'] if c.deep else [])
with ProcessPoolExecutor(4) as ex:
    mods = list(ex.map(job, cfgs))
edges = 0
for cfg, mod in mods:
    if isinstance(mod, str):
        c.add(f'rt.cpp[{cfg}]', 'broken', mod); continue
    E = effects.Effects(mod)
    fns = [f for f in mod.funcs if f.startswith('d_rt_')]
    if len(fns) < 100: c.add('instances', 'broken', f'only {len(fns)} operations')
    for f in fns:
        eff, seen = E.of(f)
        edges += sum(len(E.calls[g]) for g in seen)
        bad = [(e, ch, i) for e, ch, i in eff if e != 'abort']
        hard = [b for b in bad if b[0] != 'indirect call']
        name = f'{f[5:]} [{cfg}]'
        n = sum(len(b.ins) for g in seen for b in mod.funcs[g].blocks)
        if hard:
            e, ch, i = hard[0]
            c.add(name, 'refuted', f'{e} is reachable', lines=forms.lines(mod.loc(i.dbg, 8)), instructions=n)
        elif bad:
            e, ch, i = bad[0]
            c.add(name, 'unknown', f'{e} at {mod.loc(i.dbg, 3)}', instructions=n)
        else:
            c.add(name, 'proved', '', instructions=n, points=len(seen))
done(c, extra=dict(call_edges=edges, configurations=cfgs))

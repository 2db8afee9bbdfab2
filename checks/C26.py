from lib import *
import build, effects, subprocess, glob
from llparse import parse_module
c = Check('C26', 'other', 'clang AST queries over every library header (templates included, whether or not instantiated) and an effect analysis of the LLVM IR of every driver translation unit.',
          'no variable with static or thread storage duration is mutable, and nothing reachable from the public operations reads or writes mutable globals, takes locks, or calls anything but memory management, mathematics and error handling')
SKIP = re.compile(r'(_test\.hpp$|/testing/|simd/neon\.hpp$|fft/backend/(mkl|vdsp|ipp)\.hpp$|algorithm/backend/(mkl|vdsp|ipp)\.hpp$)')
hdrs = [h for h in sorted(glob.glob(build.REPO + '/src/neo/**/*.hpp', recursive=True)) if not SKIP.search(h)]
wd = build.scratch()
tu = os.path.join(wd, 'all.cpp')
with open(tu, 'w') as f:
    f.write('#include <neo/algorithm.hpp>\n')
    for h in hdrs: f.write(f'#include <{h[len(build.REPO) + 5:]}>\n')
QUERIES = [
 ('mutable static storage', 'varDecl(anyOf(hasStaticStorageDuration(), hasThreadStorageDuration()), unless(isConstexpr()), unless(hasType(isConstQualified())), unless(parmVarDecl()))'),
 ('thread-local storage', 'varDecl(hasThreadStorageDuration())'),
]
def query(q):
    r = subprocess.run(['clang-query-18', '-c', 'set traversal IgnoreUnlessSpelledInSource', '-c', 'set bind-root true', '-c', f'match decl({q}, isExpansionInFileMatching("{re.escape(build.REPO)}/src/neo/"))', tu, '--', '-std=c++20', '-march=x86-64-v3',
                        '-DNEO_HAS_XSIMD=1', f'-I{build.REPO}/src', f'-I{build.ROOT}/shim', '-Wno-everything'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.stdout
def emptyq(out):
    return re.search(r'^(\d+) match(es)?\.', out, re.M)
for what, q in QUERIES:
    out = query(q)
    m = emptyq(out)
    if not m or re.search(r'error:', out):
        c.add(what, 'broken', out[-800:]); continue
    if m.group(1) == '0': c.add(f'{what}: none in {len(hdrs)} headers', 'proved', points=len(hdrs))
    else:
        locs = [l.replace(build.REPO + '/', '') for l in re.findall(r'^(\S+:\d+:\d+): note: "root" binds here', out, re.M)]
        c.add(what, 'refuted', f'{m.group(1)} declaration(s) with {what}', lines=locs)
# control: the same query sees the variables that are constant
out = query('varDecl(hasStaticStorageDuration())')
m = emptyq(out)
if not m or int(m.group(1)) < 20: c.add('control', 'broken', 'the query does not see the constants: ' + out[-400:])
DRV = ['conv', 'transforms', 'fft', 'compressed', 'complex', 'fixed', 'simdf', 'dense', 'madd', 'stats', 'norm', 'csr', 'units', 'units2', 'cpo', 'bits', 'fixedarr', 'rt']
OWN = re.compile(r'^(row_store|col_store|val_store)_|^_ZTV|^_ZTI')
def job(d):
    w = build.scratch()
    try: t = build.compile_ll(os.path.join(build.ROOT, 'drivers', d + '.cpp'), 'avx2', w, (), api='d_*', ndebug=True, exceptions=True, inline=2000)
    except build.BuildError as e: return d, 'broken', str(e), [], 0
    mod = parse_module(t)
    E = effects.Effects(mod)
    bad = []
    for f in mod.funcs:
        for e, i in E.direct[f]:
            if e in ('abort', 'allocation', 'deallocation', 'exception', 'indirect call', 'call of mark'): continue
            if re.match(r'call of _ZNSt7__cxx1112basic_string', e): continue
            if e.startswith('mutable global ') and OWN.match(e[15:]): continue
            bad.append((e, forms.lines(mod.loc(i.dbg, 8))))
    ctor = [g for g, v in mod.globals.items() if g.startswith('_ZGV') or (not v['const'] and not OWN.match(g) and 'external' not in v['link'] and not g.startswith('llvm.'))]
    for g in ctor: bad.append((f'mutable global {g}', []))
    return d, 'refuted' if bad else 'proved', '', bad, E.count
from concurrent.futures import ProcessPoolExecutor
with ProcessPoolExecutor(8) as ex:
    for d, st, msg, bad, n in ex.map(job, DRV):
        c.add(f'effects of {d}.cpp', st, msg or (f'{bad[0][0]}' if bad else ''), lines=bad[0][1] if bad else [], instructions=n)
done(c, extra=dict(headers=len(hdrs)))

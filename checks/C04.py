from lib import *
import re
c = Check('C04', 'other', EXPL, 'lane i of a batch operation is the scalar operation on lane i; loads and stores require no alignment beyond one element')
cfgs = ('avx2', 'sse2', 'avx512', 'sse41') if c.deep else ('avx2', 'sse2', 'avx512')
c.pairs([('simdf.cpp', x, ()) for x in cfgs], [(r'^sv_', dict(npts=60)), (r'_f16x', dict(tol=0.0))], expect=150)
# alignment: every vector access through a caller's pointer
def align_job(a):
    src, cfg = a
    wd = build.scratch()
    try:
        text = build.compile_ll(os.path.join(ROOT, 'drivers', src), cfg, wd)
    except build.BuildError as e:
        return [dict(name=f'align:{src}[{cfg}]', status='broken', detail=str(e))]
    mod = parse_module(text)
    import alignscan
    out = []
    for n, f in mod.funcs.items():
        if n.startswith('d_'):
            bad, cnt = alignscan.scan(mod, f, elem_of)
            r = dict(name=f'align:{n[2:]}[{cfg}]', status='refuted' if bad else 'proved', detail='; '.join(x[0] for x in bad[:3]), instructions=cnt)
            if bad:
                r['lines'] = [l for x in bad for l in x[1]][:8]
            out.append(r)
    return out
for src in ('simdf.cpp', 'fixedarr.cpp'):
    for cfg in cfgs:
        c.results += align_job((src, cfg))
done(c)

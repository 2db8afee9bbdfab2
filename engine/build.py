"""Compile driver translation units against /repo's current sources and simplify the IR (no vectorisation, unrolling or rotation)."""
import os, subprocess, tempfile, shutil, re, hashlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NEO_REPO', '/repo')
CONFIGS = {
    'avx2': ['-march=x86-64-v3', '-DNEO_HAS_XSIMD=1'],
    'avx2-noxsimd': ['-march=x86-64-v3'],
    'sse2': ['-march=x86-64', '-DNEO_HAS_XSIMD=1'],
    'sse41': ['-march=x86-64-v2', '-DNEO_HAS_XSIMD=1'],
    # ARM: the installed C++ headers are read for an AArch64 target (compile only)
    'neon': ['--target=aarch64-linux-gnu', '-nostdinc++', '-isystem', '/usr/include/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu', f'-I{ROOT}/shim_arm'],
    'avx512': ['-march=x86-64-v4', '-DNEO_HAS_XSIMD=1'],
}
BASE = ['-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-math-errno', '-ffp-contract=off', '-fno-exceptions', '-fcx-limited-range',
        '-fno-discard-value-names', '-gline-tables-only', '-fno-access-control', '-Wno-everything', '-S', '-emit-llvm']
PIPE = ('internalize,function(lower-expect,lower-constant-intrinsics),cgscc(inline),globaldce,'
        'function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,'
        'sroa,gvn<no-pre;no-load-pre>,instcombine<no-verify-fixpoint>,simplifycfg,dse,adce,mergereturn,loop-simplify,lcssa),globaldce')

class BuildError(Exception):
    pass

def run(cmd, **kw):
    # from the root directory: file names in the debug information stay absolute
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd='/', **kw)

def scratch():
    d = tempfile.mkdtemp(prefix='neo-sa-')
    import atexit
    atexit.register(shutil.rmtree, d, True)
    return d

def compile_ll(src, cfg, workdir, defs=(), api='d_*,r_*', ndebug=True, pipe=PIPE, extra=(), exceptions=False, inline=10000000):
    tag = hashlib.md5(repr((src, cfg, defs, extra)).encode()).hexdigest()[:10]
    raw = os.path.join(workdir, f'{tag}.ll')
    out = os.path.join(workdir, f'{tag}.opt.ll')
    base = [b for b in BASE if not (exceptions and b == '-fno-exceptions')]
    cmd = ['clang++-18'] + base + CONFIGS[cfg] + (['-DNDEBUG'] if ndebug else []) + [d if d.startswith('-') else f'-D{d}' for d in defs if not d.startswith('noinline:')] + list(extra) + \
          [f'-I{REPO}/src', f'-I{ROOT}/shim', f'-I{ROOT}/shim_py', f'-I{ROOT}/drivers', src, '-o', raw]
    r = run(cmd)
    if r.returncode != 0:
        raise BuildError('driver does not compile: ' + ' '.join(cmd) + '\n' + r.stderr[:3000])
    keep = '|'.join(d[9:] for d in defs if d.startswith('noinline:'))
    if keep:
        # functions an analysis replaces by their specification stay calls
        ls = open(raw).read().split('\n')
        for i, l in enumerate(ls):
            if l.startswith('define '):
                m = re.search(r'@"?([-\w$.]+)"?\(', l)
                if m and re.search(keep, m.group(1)): ls[i] = re.sub(r' (#\d+)', r' noinline \1', l, count=1)
        open(raw, 'w').write('\n'.join(ls))
    if pipe is None:
        return open(raw).read()
    opt = ['opt-18', '-S', f'-inline-threshold={inline}', f'-inlinecold-threshold={inline}', f'-passes={pipe}'] + \
          ['-internalize-public-api-list=' + api, raw, '-o', out]
    r = run(opt)
    if r.returncode != 0:
        raise BuildError('opt failed: ' + r.stderr[:2000])
    return open(out).read()

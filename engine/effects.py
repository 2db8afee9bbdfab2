"""Interprocedural effect analysis over LLVM IR: what a function may do, directly or through anything it calls."""
import re
MATH = set('''sin cos tan asin acos atan atan2 sinh cosh tanh exp exp2 expm1 log log2 log10 log1p pow sqrt cbrt hypot fmod remainder fabs floor ceil trunc round
rint nearbyint lround llround lrint llrint fma fmax fmin fdim ldexp frexp modf scalbn ilogb logb copysign sincos cexp csqrt cabs carg clog csin ccos cpow abs labs'''.split())
MATH |= {m + s for m in list(MATH) for s in 'fl'}
MEM = {'memcpy', 'memmove', 'memset', 'memcmp', 'bcmp', 'strlen', '__mulsc3', '__muldc3', '__divsc3', '__divdc3', '__mulxc3', '__powisf2', '__powidf2'}
ALLOC = re.compile(r'^(_Znwm|_Znam|_ZnwmSt11align_val_t|_ZnamSt11align_val_t|malloc|calloc|realloc|aligned_alloc|posix_memalign|_ZnwmRKSt9nothrow_t|_ZnamRKSt9nothrow_t)')
FREE = re.compile(r'^(_ZdlPv|_ZdaPv|free$)')
THROW = re.compile(r'^(__cxa_throw|__cxa_rethrow|_ZSt\d+__throw_|__cxa_allocate_exception|__cxa_bad_|_ZSt17rethrow_exception)')
ABORT = {'_ZSt9terminatev', 'abort', '__assert_fail', '__clang_call_terminate', '__cxa_begin_catch', '__cxa_end_catch', '__cxa_free_exception', '__gxx_personality_v0', '_Unwind_Resume',
         '_ZSt21__glibcxx_assert_failPKciS0_S0_', '_ZN9__gnu_cxx21zoneE'}
LOCK = re.compile(r'^(pthread_|__cxa_guard_|_ZNSt5mutex|_ZNSt15__shared_mutex|_ZNSt18condition_variable|__atomic_wait|_ZSt9call_once|sem_)')
INTR_BAD = re.compile(r'^llvm\.(eh\.sjlj|coro|readcyclecounter|returnaddress|thread\.pointer|trap)')

def classify(name):
    if name.startswith('llvm.'):
        if name.startswith('llvm.trap'): return 'abort'
        return 'opaque' if INTR_BAD.match(name) else None
    if name in MATH or name in MEM or name.startswith('__sincos'): return None
    if name in ABORT or name.startswith('_ZSt9terminate') or name.startswith('__glibcxx_assert'): return 'abort'
    if ALLOC.match(name): return 'allocation'
    if FREE.match(name): return 'deallocation'
    if THROW.match(name): return 'exception'
    if LOCK.match(name): return 'lock'
    if re.match(r'^_ZNSt\w*(error|exception|bad_\w+)[CD]\d', name) or re.match(r'^_ZNKSt\w*4whatEv', name): return 'exception'
    return 'call of ' + name

def globrefs(a):
    if isinstance(a, tuple):
        if len(a) == 2 and a[0] == 'g': yield a[1]
        else:
            for x in a: yield from globrefs(x)
    elif isinstance(a, list):
        for x in a: yield from globrefs(x)
    elif isinstance(a, dict):
        for x in a.values(): yield from globrefs(x)

class Effects:
    def __init__(self, mod):
        self.mod = mod
        self.direct = {}        # function -> [(effect, instruction)]
        self.calls = {}         # function -> [(callee, instruction)]
        self.count = 0
        for n, f in mod.funcs.items():
            d, c = [], []
            for b in f.blocks:
                for i in b.ins:
                    self.count += 1
                    if i.op in ('call', 'invoke'):
                        cal = i.x['callee']
                        if cal[0] == 'g':
                            if cal[1] in mod.funcs: c.append((cal[1], i))
                            else:
                                e = classify(cal[1])
                                if e: d.append((e, i))
                        elif cal[0] == 'asm':
                            if cal[1].strip('"'): d.append(('inline assembly', i))
                        else: d.append(('indirect call', i))
                    elif i.op in ('cmpxchg', 'atomicrmw', 'fence'): d.append(('atomic', i))
                    for g in globrefs([i.args]):
                        gv = mod.globals.get(g)
                        if gv is not None and (not gv['const'] or gv['tls']):
                            d.append(('mutable global ' + g, i))
            self.direct[n], self.calls[n] = d, c
    def of(self, fn):
        """all effects of fn: [(effect, chain of functions, instruction)]"""
        out, seen, st = [], {fn}, [(fn, (fn,))]
        while st:
            f, ch = st.pop()
            for e, i in self.direct[f]: out.append((e, ch, i))
            for g, i in self.calls[f]:
                if g not in seen:
                    seen.add(g)
                    st.append((g, ch + (g,)))
        return out, seen

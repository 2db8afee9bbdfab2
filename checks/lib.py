import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from check import *
import check as _c
import forms
from forms import only, few, F32, F64, I8, I16, I32, I64, UNDEF, sym, add, conv, dft, lin, S, Z, fmul, fadd, Thrown, Undecided, Defect, Mismatch
EXPL = ('The driver translation unit instantiates the library code for the analysed element types and targets; it is compiled to LLVM IR '
        '(never linked or run), every function is summarised by a loop-summarising gated-SSA analysis into closed terms and quantified guarded writes, '
        'and the summary is compared with the summary of the specification function: equality of ring normal forms proves the obligation for all inputs and '
        'sizes, otherwise both terms are interpreted over sampled (or, for narrow domains, all) valuations and a difference refutes it.')

def done(c, **kw):
    if os.environ.get('SHOW'):
        for r in c.results:
            if os.environ['SHOW'] == '2' or r['status'] != 'proved':
                print(r['name'], r['status'], str(r.get('detail'))[-160:], r.get('points'), r.get('time'))
    c.finish(**kw)

def lograng(lo, hi):
    a, b = math.log(lo), math.log(hi)
    return lambda rng, d: math.exp(a + (b - a) * rng.random())
def f32v(g):
    import struct
    return lambda rng, d: struct.unpack('f', struct.pack('f', g(rng, d)))[0]

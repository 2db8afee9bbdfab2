from lib import *
def wid(w, signed):
    m = (1 << w) - 1
    return (lambda v: v) if signed else (lambda v: v & m)

def specs():
    sp = []
    for w in (8, 16, 32, 64):
        U = (1 << w) - 1
        H = 1 << (w - 1)
        un = lambda v, U=U: v & U
        sp += [(rf'^bceilf?_{w}$', dict(pre=lambda a, U=U, H=H: 1 <= (a['x'] & U) <= H)),
               (rf'^forderu_{w}$', dict(pre=lambda a, U=U, H=H: 1 <= (a['x'] & U) <= H)),
               (rf'^forderi_{w}$', dict(pre=lambda a, H=H: 1 <= a['x'] <= H // 2)),
               (rf'^fsizeu_{w}$', dict(complete=('e',), modes={'e': list(range(0, w))}, npts=4 * w)),
               (rf'^fsizei_{w}$', dict(complete=('e',), modes={'e': list(range(0, w - 1))}, npts=4 * w)),
               (rf'^idivu_{w}$', dict(pre=lambda a, U=U: (a['y'] & U) >= 1 and (a['x'] & U) + (a['y'] & U) - 1 <= U)),
               (rf'^idivi_{w}$', dict(pre=lambda a, H=H: a['y'] >= 1 and a['x'] >= 0 and a['x'] + a['y'] - 1 < H)),
               (rf'^osizeu_{w}$', dict(pre=lambda a, U=U: (a['y'] & U) >= 1 and (a['x'] & U) >= 1 and (a['x'] & U) + (a['y'] & U) - 1 <= U)),
               (rf'^osizei_{w}$', dict(pre=lambda a, H=H: a['y'] >= 1 and a['x'] >= 1 and a['x'] + a['y'] - 1 < H)),
               (rf'^powu_{w}$', dict(modes={'e': list(range(0, w + 1))}, npts=1500, pre=lambda a, U=U: (a['b'] & U) ** (a['e'] & U) <= U)),
               (rf'^powi_{w}$', dict(modes={'e': list(range(0, w + 1))}, npts=1500, pre=lambda a, H=H: -H <= a['b'] ** a['e'] < H))]
        for b in (2, 3, 4, 5, 7, 8, 10, 16, 32, 64):
            sp += [(rf'^pows{b}u_{w}$', dict(complete=('e',), modes={'e': list(range(0, w))}, npts=4 * w, pre=lambda a, U=U, b=b: b ** a['e'] <= U)),
                   (rf'^pows{b}i_{w}$', dict(complete=('e',), modes={'e': list(range(0, w))}, npts=4 * w, pre=lambda a, H=H, b=b: b ** a['e'] < H))]
    return sp

c = Check('C05', 'other', EXPL, 'integer helpers equal their mathematical definition wherever the result is representable')
c.pairs([('bits.cpp', 'avx2', ())], specs(), expect=140, shards=6)
done(c)

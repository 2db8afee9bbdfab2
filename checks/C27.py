from lib import *
c = Check('C27', 'other', EXPL, 'fixed-point complex numbers store, replace, add and subtract both parts independently and saturated; the product combines both operands')
c.pairs([('fxcomplex.cpp', 'avx2', ())], (), expect=50)
# the defective product that known_findings.json lists is recognised by its exact value; any other product is reported
asis = {r['name'].split('asis_')[1]: r['status'] for r in c.results if 'asis_' in r['name']}
c.results = [r for r in c.results if 'asis_' not in r['name']]
if any(s == 'refuted' for s in asis.values()): c.known = []
done(c)

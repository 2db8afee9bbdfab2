"""Source of properties.jsonl and MANIFEST.json: python3 tools/catalog.py rewrites both."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'static: loop-summarising gated-SSA analysis of the LLVM IR, normal-form equivalence with a specification, term interpretation for refutation'
NOTE = ('Obligations reported as proved hold for all inputs and sizes over ideal reals/bit-precise integers (float rounding is abstracted); those reported as held agreed on '
        'every interpreted valuation of the extracted terms. Trusted: clang/opt 18 lowering, the IR parser and summariser, the stated specification. '
        'Undecidable obligations are reported as UNDECIDED and are not counted as discharged.')
P = []
def at(f): return f if f.startswith('extra/') else 'src/neo/' + f
def prop(id, title, statement, over, text, why, files, mech, tech=TECH, note=NOTE):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[at(f) for f in files], mechanism=[dict(name=n, where=at(w)) for n, w in mech]), _tech=tech, _note=note))
NA = []
def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    NA.append(dict(property=id, reason=reason))

from entries import fill
fill(prop, na)

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
nas = {n['property'] for n in NA}
M = dict(version=1, setup_cmd='python3 tools/setup.py',
         checks=[dict(property=p['id'], quick_cmd=f"python3 checks/{p['id']}.py quick", thorough_cmd=f"python3 checks/{p['id']}.py thorough",
                      technique=p['_tech'], level='other', level_note=p['_note']) for p in P if p['id'] not in nas],
         not_applicable=NA)
json.dump(M, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(M['checks']), 'checks')

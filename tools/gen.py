#!/usr/bin/env python3-vt
"""Regenerate properties.jsonl and MANIFEST.json from each property module's META."""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from symx import patches
patches.install()
from tools.notapplicable import NA

props, checks = [], []
for f in sorted(glob.glob(os.path.join(HERE, 'props', 'p[0-9]*.py'))):
    pid = os.path.basename(f)[:-3].upper()
    m = importlib.import_module('props.' + pid.lower()).META
    assert len(m['title']) <= 80, pid
    props.append(dict(id=pid, title=m['title'], statement=m['statement'], quantifier=dict(over=m['over'], text=m['text']),
                      why_tests_cant=m['why'], anchors=dict(files=m['files'], mechanism=[dict(name=x, where=m['files'][0]) for x in m['mech']])))
    checks.append(dict(property=pid, quick_cmd='python3-vt run.py ' + pid, thorough_cmd='python3-vt run.py %s --tier thorough' % pid,
                       technique='symbolic execution of the real Python functions; every path goal decided by Z3 (canonical real algebra, NRA, interval branch-and-bound)',
                       level='model_checking',
                       level_note=m.get('note') or 'Holds for every real-valued input within the bounds stated in the evidence, on every path of the real functions; arithmetic is over the reals (double rounding below 1e-10 relative is not modelled), z3, mpmath and the sandbox libm are trusted, iterative root finders are replaced by their contract where a harness says so. Goals the solver left open are listed in the evidence as inconclusive.'))
for n in NA:
    props.append(dict(id=n['id'], title=n['title'], statement=n['statement'], quantifier=dict(over=n['over'], text=n['text']),
                      why_tests_cant=n['why'], anchors=dict(files=n['files'], mechanism=[dict(name=x, where=n['files'][0]) for x in n['mech']])))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
man = dict(version=1, setup_cmd='python3-vt -c "import z3, mpmath, numpy, scipy; import symx.patches as p; p.install()"', checks=checks,
           not_applicable=[dict(property=n['id'], reason=n['reason']) for n in NA])
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props:
    jsonschema.validate(p, sch)
print(len(checks), 'checks', len(NA), 'not applicable')

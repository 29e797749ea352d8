"""Regenerate DESIGN.md: tools/design_head.md, one entry per property (from each META), tools/design_tail.md, findings."""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from symx import patches
patches.install()
from symx import harness as H
from tools.notapplicable import NA

out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read().rstrip(), '', '## Properties', '']
for f in sorted(glob.glob(os.path.join(HERE, 'props', 'p[0-9]*.py'))):
    pid = os.path.basename(f)[:-3].upper()
    m = importlib.import_module('props.' + pid.lower()).META
    hs = H.REG[pid]
    out += ['### %s %s' % (pid, m['title']), '', m['statement'], '',
            '* Decided over: %s.' % m['text'],
            '* Why tests cannot: %s.' % m['why'],
            '* Code: %s (%s).' % ('; '.join(m['mech']), ', '.join('`%s`' % x for x in m['files']))]
    if m.get('note'):
        out += ['* Limits: %s' % m['note']]
    out += ['* Harnesses (%d; functions and bounds of each are in the evidence): %s.' % (len(hs), ', '.join('`%s`' % n for n in dict.fromkeys(h.name.split('[')[0] for h in hs))), '']
out += ['## Not applicable', '']
for n in NA:
    out += ['* **%s %s** -- %s.' % (n['id'], n['title'], n['reason'])]
out += ['', open(os.path.join(HERE, 'tools', 'design_tail.md')).read().rstrip(), '', '## Findings', '',
        'Every entry of `known_findings.json`. `fixed` entries were repaired by a `fix:` commit in /repo and suppress nothing.', '']
for x in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']:
    out += ['* %s' % (x.get('record') or '%s (open) `%s`: %s' % (x['property'], x.get('harness'), x.get('what') or x.get('reason') or x.get('label')))]
out += ['', '## Planted bugs (`seeded/`)', '', '| change | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    out += ['| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m.get('caught_by', 'the check of ' + m['property']))]
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')

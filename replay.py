#!/usr/bin/env python3-vt
"""replay.py FILE: run a counterexample against the unpatched package.

Exit 1 and a line REPRODUCED ... when the property is violated by the real code."""
import importlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    d = json.load(open(sys.argv[1]))
    mode = sys.argv[2] if len(sys.argv) > 2 else 'float'
    if mode == 'mp':
        from symx import patches
        patches.install()
        import mpmath
        mpmath.mp.dps = 40
    else:
        sys.path.insert(0, os.environ.get('FLUIDS_REPO', '/repo'))
        import fluids  # noqa
    from symx import harness as H
    importlib.import_module('props.' + d['property'].lower())
    h = [x for x in H.REG[d['property']] if x.name == d['harness']][0]
    only = os.environ.get('REPLAY_CASE')
    for n, case in enumerate(d['cases']):
        if only is not None and str(n) != only:
            continue
        case = dict(case)
        case['choices'] = d['choices']
        st, failed = H.run_concrete(h, case, mode == 'mp')
        if mode == 'mp':
            print('MP', st, failed[:1])
            sys.exit({'ok': 0, 'skip': 0, 'violated': 1, 'exception': 2}[st])
        print('case', n, case['inputs'], case['choices'], st, failed[:2])
        if st in ('violated', 'exception'):
            if d.get('mp', True) and (st == 'violated' or d['label'] == 'path not encoded'):
                # must also be violated in multi-precision arithmetic (not a rounding artefact)
                env = dict(os.environ, REPLAY_CASE=str(n))
                try:
                    p = subprocess.run([sys.executable, os.path.abspath(__file__), sys.argv[1], 'mp'], env=env, capture_output=True, text=True, timeout=25)
                    print('   multi-precision:', p.stdout.strip()[-300:])
                    if p.returncode == 0:
                        continue
                except subprocess.TimeoutExpired:
                    print('   multi-precision: timeout')
            print('REPRODUCED input=%s choices=%s -> %s' % (json.dumps(case['inputs']), json.dumps(case['choices']), '; '.join('%s: %s' % x for x in failed[:2])))
            sys.exit(1)
    print('NOT REPRODUCED')
    sys.exit(0)


main()

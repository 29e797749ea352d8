"""addfinding.py '<json object>': append to known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
d = json.load(open(p))
d['findings'].append(json.loads(sys.argv[1]))
open(p, 'w').write('{"findings": [\n' + ',\n'.join(' ' + json.dumps(x) for x in d['findings']) + '\n]}\n')

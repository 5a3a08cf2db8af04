"""record a repaired defect: tools/fixed.py PROP COMMIT WHAT"""
import json, os, sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(P))
prop, commit, what = sys.argv[1:4]
n = len(d['findings']) + 1
d['findings'].append({'id': 'F%02d' % n, 'property': prop, 'status': 'fixed', 'commit': commit, 'class': '', 'match': '',
                      'what': 'fixed: property=%s %s %s' % (prop, commit, what)})
with open(P, 'w') as f:
    f.write('{"findings": [\n' + ',\n'.join(' ' + json.dumps(x) for x in d['findings']) + '\n]}\n')

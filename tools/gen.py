"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the checks present."""
import json
import os
import sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
sys.dont_write_bytecode = True
import props
with open(R + '/properties.jsonl', 'w') as f:
    for x in props.PROPS:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
checks, na = [], []
for x in props.PROPS:
    i = x['id']
    if i in getattr(props, 'NA', {}):
        na.append({'property': i, 'reason': props.NA[i]})
    elif os.path.exists(R + '/checks/%s.py' % i.lower()):
        checks.append({
            'property': i, 'quick_cmd': './run.sh %s quick' % i, 'thorough_cmd': './run.sh %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'symbolic execution of the Python source with z3 deciding each assertion (bounded)',
            'level': 'model_checking',
            'level_note': 'Bounded: every value of the symbolic inputs within the sizes stated in the evidence, exact arithmetic, '
                          'numpy/scipy through the stated contracts; counterexamples are replayed on the real code before being reported.'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks read the sources of /repo as they are', 'source_commits': []},
     'checks': checks, 'not_applicable': na, 'notes': 'See DESIGN.md.'}
with open(R + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', len(na), 'not')


# sections of DESIGN.md that follow from other files
def fill(s, tag, body):
    a, b = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + '\n' + body + '\n' + s[j:]


s = open(R + '/DESIGN.md').read()
kf = json.load(open(R + '/known_findings.json'))
s = fill(s, 'fixed', '\n'.join('* %s' % e['entry'][len('fixed: property='):] for e in kf if e['status'] == 'fixed'))
rows = []
for d in sorted(os.listdir(R + '/seeded')) if os.path.isdir(R + '/seeded') else []:
    x = json.load(open(R + '/seeded/%s/meta.json' % d))
    rows.append('* `%s` (caught by %s): needs %s' % (d, x['property'], x['needs']))
s = fill(s, 'seeds', '\n'.join(rows))
open(R + '/DESIGN.md', 'w').write(s)

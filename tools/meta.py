#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property list below."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, note, state=None):
    P.append((dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m) for n, m in (state or [])],
            observe_at=[observe], hook_needed=None)), note))

exec(open(os.path.join(here, 'tools', 'properties.py')).read())

with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p, _ in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
have = {os.path.basename(x).split('_')[0] for x in glob.glob(os.path.join(here, 'harness', '**', '*.go'), recursive=True)}
TECH = "symbolic execution of the real code's SSA with SMT (Z3/cvc5)"
checks, na = [], []
for p, note in P:
    if p['id'] in NOT_APPLICABLE:
        na.append(dict(property=p['id'], reason=NOT_APPLICABLE[p['id']])); continue
    assert p['id'] in have, p['id'] + ' has no harness'
    checks.append(dict(property=p['id'], quick_cmd='./run.sh %s quick' % p['id'], thorough_cmd='./run.sh %s thorough' % p['id'],
        technique=TECH, level='model_checking', level_note=note))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
    notes='Bounds of every check are in its evidence file (coverage.harnesses.*.bounds) and in DESIGN.md.'),
    open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
missing = have - {p['id'] for p, _ in P} - {'common', 'vsym.go'}
print(len(checks), 'checks', len(na), 'not applicable', 'without property:', sorted(m for m in missing if not m.startswith('common')))

# The generated parts of DESIGN.md: per property its harnesses and bounds, and the planted bugs.
import re
def harnesses(pid):
    out = []
    for path in sorted(glob.glob(os.path.join(here, 'harness', '**', pid + '_*.go'), recursive=True)):
        src = open(path).read()
        regs = re.findall(r'vsym\.Register\("(\w+)"', src)
        for name in regs:
            m = re.search(r'((?:^//[^\n]*\n)*)^func ' + name + r'\(\) \{(.*?)\}$', src, re.S | re.M)
            if not m:
                continue
            doc = ' '.join(l[2:].strip() for l in m.group(1).splitlines())
            bounds = re.findall(r'vsym\.Bound\("([^"]*)", *([^,]+), *([^)]+)\)', m.group(2))
            out.append((name, os.path.relpath(os.path.dirname(path), os.path.join(here, 'harness')), doc,
                        '; '.join('%s %s (thorough %s)' % b for b in bounds)))
    return out
sec = []
for p, note in P:
    sec.append('### %s %s\n\n%s\n' % (p['id'], p['title'], p['statement']))
    if p['id'] in NOT_APPLICABLE:
        sec.append('Not applicable: ' + NOT_APPLICABLE[p['id']] + '\n'); continue
    sec.append('Quantified %s. Observed at: %s. %s\n' % (p['quantifier']['text'], '; '.join(p['anchors']['observe_at']), note.replace(BND, '')))
    hs = harnesses(p['id'])
    if len(set(d for _, _, d, _ in hs if d)) < len([1 for h in hs if h[2]]):  # generated copies
        seen = set(); uniq = []
        for h in hs:
            if h[2] not in seen or not h[2]:
                seen.add(h[2]); uniq.append(h)
        hs = uniq
    for n, d, doc, b in hs:
        sec.append('* `%s` (%s): %s%s' % (n, d, doc or '(see source)', (' Bounds: ' + b + '.') if b else ''))
    sec.append('')
bugs = ['| bug | property | needs | caught by the quick check |', '|---|---|---|---|']
det = {}
try:
    for l in open(os.path.join(here, 'tools', 'detected.txt')):
        f = l.split(None, 3)
        det[f[0]] = ('yes: ' + f[3].strip() if len(f) > 3 else 'yes') if f[2] == 'rc=1' else 'no'
except FileNotFoundError:
    pass
for d in sorted(os.listdir(os.path.join(here, 'seeded'))) if os.path.isdir(os.path.join(here, 'seeded')) else []:
    m = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))
    bugs.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], re.sub(r'^yes: \d+s *', 'yes: ', det.get(d, '?'))))
D = os.path.join(here, 'DESIGN.md')
s = open(D).read()
for tag, body in (('PROPERTIES', '\n'.join(sec)), ('BUGS', '\n'.join(bugs))):
    a, b = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
    if a in s:
        s = s[:s.index(a) + len(a)] + '\n' + body + '\n' + s[s.index(b):]
open(D, 'w').write(s)

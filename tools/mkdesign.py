#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/, properties.jsonl, the checks of harness/props,
seeded/ and known_findings.json."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def read(p):
    return open(f'{ROOT}/{p}').read()

props = [json.loads(l) for l in read('properties.jsonl').split('\n') if l]
text = {l.split('|')[0]: l.split('|')[1:] for l in read('tools/design/props.md').split('\n') if '|' in l}
checks = {}
for f in sorted(glob.glob(ROOT + '/harness/props/*.go')):
    for p, n in re.findall(r'fw\.Add\("(C\d\d)", "([^"]+)"', open(f).read()):
        checks.setdefault(p, []).append(n)
caught = json.loads(read('tools/design/caught.json'))
plants = []
for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(f))
    plants.append((m['property'], f.split('/')[-2], m, caught.get(f.split('/')[-2], 'not run')))
plants.sort(key=lambda p: p[:2])
kf = json.loads(read('known_findings.json'))
out = [read('tools/design/head.md').rstrip('\n')]
for p in props:
    how, why = text[p['id']][0], text[p['id']][1]
    out.append(f"\n### {p['id']} {p['title']}\n\n{how}\n")
    out.append(f"*Beyond the tests:* {why}\n")
    out.append('*Checks:* ' + ', '.join(sorted(checks.get(p['id'], []))) + '.')
    mine = [x for x in plants if x[0] == p['id']]
    if mine:
        out.append('\n*Planted bugs:* ' + ', '.join(f'{i} ({c})' for _, i, _, c in mine) + '.')
out.append('\n' + read('tools/design/tail.md').rstrip('\n'))
out.append('\n## Planted bugs\n\nEach was written from the statement of a property and the code, before the check was looked at;\nthe last column is the check of the property that reports it at the quick tier.\n')
out.append('| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|')
for p, i, m, c in plants:
    cell = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    out.append(f"| {i} | {p} | {cell(m['needs'])} | {cell(m['what_it_breaks'])} | {c} |")
out.append(f"\n## Findings\n\n### Recorded, not repaired ({len(kf['findings'])} inputs)\n\n`known_findings.json` lists the exact inputs; stable tests pin the behaviour.\n")
for f in kf['findings']:
    out.append(f"* {f['property']}: {f['what']}")
out.append(f"\n### Repaired ({len(kf['fixed'])} commits in /repo)\n")
for f in kf['fixed']:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', f, re.S)
    out.append(f"* {m.group(1)} {m.group(2)}: {m.group(3)}")
open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')

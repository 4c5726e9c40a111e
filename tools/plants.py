#!/usr/bin/env python3
"""plants.py [ID...]: apply each planted bug of seeded/ to /repo in turn, run the quick
check of its property, undo the change, and write which check caught it to
tools/design/caught.json.  /repo must be clean and nothing else may use it meanwhile."""
import glob, json, os, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = ROOT + '/tools/design/caught.json'

def run(*c, **k):
    return subprocess.run(c, capture_output=True, text=True, **k)

assert run('git', '-C', '/repo', 'status', '--porcelain').stdout == '', '/repo is not clean'
caught = json.load(open(OUT)) if os.path.exists(OUT) else {}
ids = sys.argv[1:] or sorted(d.split('/')[-2] for d in glob.glob(ROOT + '/seeded/*/meta.json'))
for k in list(caught):
    if not os.path.exists(f'{ROOT}/seeded/{k}'):
        del caught[k]
for i in ids:
    prop = json.load(open(f'{ROOT}/seeded/{i}/meta.json'))['property']
    r = run('git', '-C', '/repo', 'apply', f'{ROOT}/seeded/{i}/patch.diff')
    if r.returncode:
        caught[i] = 'patch does not apply'
        print(i, r.stderr)
        continue
    try:
        r = run('bash', ROOT + '/check.sh', prop, 'quick', cwd=ROOT, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
    finally:
        run('git', '-C', '/repo', 'checkout', '--', '.')
    m = re.search(r'^VIOLATION property=\S+ replay=(\S+)$', r.stdout, re.M)
    check = 'missed'
    if r.returncode == 1 and m:
        check = 'caught'
        name = os.path.basename(m.group(1))
        check = re.sub(r'-[0-9a-f]{12}\.json$', '', name).split('-', 1)[1]
    caught[i] = check
    print(i, prop, check, flush=True)
    json.dump(caught, open(OUT, 'w'), indent=1, sort_keys=True)

#!/usr/bin/env python3
"""developer helper: plant.py FILE  -- FILE defines BUGS, a list of dicts
(id, property, needs, breaks, edits=[(file, old, new), ...], demo).  Makes the
change in a scratch copy of /repo, confirms tests and demonstration, stores
seeded/<id>/ and reports whether the property's check catches it."""
import json, os, shutil, subprocess, sys, concurrent.futures as cf
PY = '/opt/venv/bin/python'
BASE = json.load(open('/opt/vp/BASELINE.json'))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')


def one(b):
    d = f'/tmp/bug/{b["id"]}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=d)
    for f, old, new in b['edits']:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) != 1:
            return b['id'], f'edit matches {s.count(old)} times: {old[:60]!r}'
        open(p, 'w').write(s.replace(old, new))
    out = f'/verif/seeded/{b["id"]}'
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True).stdout)
    open(out + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    open(out + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD OPENBLAS_NUM_THREADS=1 exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    msg = []
    r = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', capture_output=True, text=True, env=ENV, timeout=300)
    if r.returncode: msg.append('DEMO FAILS ON UNCHANGED: ' + (r.stdout + r.stderr)[-400:])
    r = subprocess.run(['bash', out + '/demo.sh'], cwd=d, capture_output=True, text=True, env=ENV, timeout=300)
    if not r.returncode: msg.append('DEMO PASSES ON BUG')
    env = dict(ENV, PYTHONPATH=d + ':/opt/vp/pytest_plugins')
    r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'vp_seed', '-W', 'ignore:unclosed file <_io.BufferedReader:ResourceWarning', 'qsymm'], cwd=d, capture_output=True, text=True, env=env)
    if r.returncode: msg.append('TESTS: ' + '\n'.join(r.stdout.splitlines()[-6:]))
    for c in ([b['property']] if '--all' not in sys.argv else [x[:-3].upper() for x in sorted(os.listdir('/verif/checks')) if x.startswith('c')]):
        env = dict(ENV, PYTHONPATH=d + ':/verif', VERIF_SEED='1', VERIF_TIER='quick', VERIF_DEBUG='1', VERIF_EVID=f'/tmp/bug/ev-{b["id"]}')
        if not os.path.exists(f'/verif/checks/{c.lower()}.py'):
            continue
        r = subprocess.run([PY, '-W', 'ignore', f'/verif/checks/{c.lower()}.py'], cwd='/verif', capture_output=True, text=True, env=env)
        o = r.stdout + r.stderr
        hit = [l[:170] for l in o.splitlines() if l.startswith('  clause')][:2]
        if c == b['property'] or r.returncode:
            msg.append(f'{c}: ' + ('CAUGHT ' + ' | '.join(hit) if r.returncode == 1 else f'MISSED rc={r.returncode} ' + (o[-300:] if r.returncode else '')))
    shutil.rmtree(d)
    return b['id'], '\n     '.join(msg)


ns = {}
exec(open(sys.argv[1]).read(), ns)
sel = [a for a in sys.argv[2:] if not a.startswith('-')]
with cf.ThreadPoolExecutor(4) as ex:
    for i, m in ex.map(one, [b for b in ns['BUGS'] if not sel or b['id'] in sel]):
        print(i, '\n    ', m, flush=True)

#!/usr/bin/env python3
"""Writes /verif/seeded from the definitions below. mkseeded.py [--test] [id ...]; --test confirms each change in a scratch
copy: it builds, the stable tests pass, the demonstration passes without and fails with it."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'tools', 'seedsrc')
sys.path.insert(0, S)
from bugs import BUGS
SCR = '/tmp/seedtest'


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def write(i, b):
    d = os.path.join(V, 'seeded', i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = os.path.join(SCR, 'src-' + i)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(SCR, exist_ok=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    for f, old, new in b['edits']:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit('%s: %d matches in %s of %r' % (i, s.count(old), f, old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w, 'diff'])
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    shutil.rmtree(w)
    shutil.copy(os.path.join(S, 'h.py'), d)
    open(os.path.join(d, 'demo.py'), 'w').write('from h import *\n\n' + b['demo'].strip('\n') + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def adapt(script, w):
    return open(script).read().replace('/repo', w)


def test(i):
    d = os.path.join(V, 'seeded', i)
    base = os.path.join(SCR, 'base')
    if not os.path.isdir(base):
        os.makedirs(SCR, exist_ok=True)
        subprocess.check_call(['cp', '-a', '/repo', base])
        shutil.rmtree(base + '/_build', ignore_errors=True)
        r = sh('bash', '-c', adapt('/opt/vp/build.sh', base))
        assert r.returncode == 0, r.stdout[-2000:]
    r0 = sh('bash', d + '/demo.sh', cwd=base)
    w = os.path.join(SCR, 'mut')
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['cp', '-a', base, w])
    shutil.rmtree(w + '/_build')
    subprocess.check_call(['git', '-C', w, 'apply', d + '/patch.diff'])
    t = adapt('/opt/vp/test.sh', w).replace('bash /opt/vp/build.sh', 'true').replace('/opt/vp/venv', '@VENV@').replace('@VENV@', '/opt/vp/venv')
    b = sh('bash', '-c', adapt('/opt/vp/build.sh', w))
    if b.returncode:
        return i + ': DOES NOT BUILD\n' + b.stdout.decode()[-1500:]
    open(SCR + '/t.sh', 'w').write(t)
    sh('bash', SCR + '/t.sh', SCR + '/out.json')
    out = json.load(open(SCR + '/out.json'))
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    lost = sorted(stable - set(out['passed']))
    r1 = sh('bash', d + '/demo.sh', cwd=w)
    shutil.rmtree(w)
    ok = r0.returncode == 0 and r1.returncode != 0 and not lost
    return '%s: %s demo %d/%d, tests lost %s %s' % (i, 'ok' if ok else 'BAD', r0.returncode, r1.returncode, lost,
                                                  (r1.stdout if r0.returncode == 0 else r0.stdout).decode(errors='replace')[-300:].strip())


a = sys.argv[1:]
t = '--test' in a
ids = [x for x in a if not x.startswith('-')] or list(BUGS)
for i in ids:
    write(i, BUGS[i])
    if t:
        print(test(i), flush=True)
shutil.rmtree(SCR, ignore_errors=True)

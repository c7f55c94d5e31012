#!/usr/bin/env python3
"""Applies changes to scratch copies of /repo and runs checks against them.
usage: mutate.py [-j N] FILE.py [name ...]      FILE.py defines M = {name: (property, [(file, old, new), ...])}
       mutate.py --seeded [name ...]            the patches under seeded/
Results go to stdout; nothing is left behind."""
import os, subprocess, sys, tempfile, shutil, json, time, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '/tmp/mut'


def prepare(name, edits=None, patch=None):
    d = os.path.join(BASE, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    r = os.path.join(d, 'repo')
    subprocess.check_call(['git', 'clone', '-q', '/repo', r])
    if patch:
        subprocess.check_call(['git', '-C', r, 'apply', patch])
    for f, old, new in edits or []:
        p = os.path.join(r, f)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit('%s: %d matches in %s for %r' % (name, s.count(old), f, old))
        open(p, 'w').write(s.replace(old, new))
    return d, r


def check(d, r, pid):
    env = dict(os.environ, VERIF_REPO=r, VERIF_WORK=os.path.join(d, 'work'), VERIF_EVID=os.path.join(d, 'evid'),
               VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
    os.makedirs(os.path.join(d, 'work'), exist_ok=True)
    t = time.time()
    p = subprocess.run([sys.executable, os.path.join(V, 'check.py'), pid], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout, time.time() - t


def main():
    a = sys.argv[1:]
    if a[0] == '--seeded':
        names = a[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))
        todo = []
        for n in names:
            m = json.load(open(os.path.join(V, 'seeded', n, 'meta.json')))
            todo.append((n, [m['property']], None, os.path.join(V, 'seeded', n, 'patch.diff')))
    else:
        spec = importlib.util.spec_from_file_location('m', a[0])
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        todo = [(n, p if isinstance(p, list) else p.split(), e, None) for n, (p, e) in m.M.items() if not a[1:] or n in a[1:]]
    for n, pids, e, patch in todo:
        d, r = prepare(n, e, patch)
        for pid in pids:
            rc, out, dt = check(d, r, pid)
            if rc not in (0, 1):
                verdict = 'ERROR'
            else:
                verdict = 'caught' if rc == 1 else 'MISSED'
            print('%-22s %s %s (%.0f s)' % (n, pid, verdict, dt), flush=True)
            why = [l for l in out.splitlines() if l.strip()]
            for l in (why[:6] if rc == 1 else why[-8:] if rc else []):
                print('      ' + l[:200], flush=True)
        shutil.rmtree(d)


if __name__ == '__main__':
    main()

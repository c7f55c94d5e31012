#!/usr/bin/env python3
"""Systematic small changes to /repo's sources (operators, constants, deleted statements, results), each built in a
scratch copy and put to scaled-down checks.
usage: automut.py [-j N] [-n NUMBER] [-s SEED] [FILE.c ...]      survivors are listed at the end and in /tmp/automut.log
       automut.py --full LOG     runs the survivors of a log against the unscaled checks"""
import os, random, re, shutil, subprocess, sys, threading, time, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '/tmp/mut'
PROPS = {'main.c': 'C21 C04 C01 C07 C22 C23 C24', 'store.c': 'C05 C06 C21 C24', 'store-local.c': 'C08 C01 C05 C18 C06 C22',
         'store-http.c': 'C12 C11 C13 C14 C15 C23 C24', 'target.c': 'C04 C02 C07 C18 C22', 'index.c': 'C07 C06 C08',
         'caibx.c': 'C17 C08 C01 C22', 'chunker.c': 'C10 C09 C17 C18', 'chunk.c': 'C14 C16 C09', 'encrypt.c': 'C15 C16 C13',
         'utils.c': 'C18 C20 C15 C17 C16 C22', 'sha.c': 'C19 C09', 'csn-tool.c': 'C16 C15', 'patchdd.c': 'C20 C23 C24', 'log.c': 'C24 C22 C16 C20'}
SWAP = [(r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ']), (r' >= ', [' > ']), (r' == ', [' != ']),
        (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']),
        (r' % ', [' / ']), (r'\(!', ['(']), (r'\+\+', ['']), (r'--;', [';']), (r' \+= ', [' = ', ' -= ']), (r' -= ', [' = ']), (r' \|= ', [' = ']),
        (r'return -1;', ['return 0;']), (r'return 0;', ['return -1;', 'return 1;']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
        (r'\bcontinue;', ['break;']), (r'\bbreak;', ['continue;']), (r'(?<![\w.%"])(\d+)(?![\w.x])', ['N+1', 'N-1'])]


def mutants(f, repo='/repo'):
    s = open(os.path.join(repo, f)).read()
    lines = s.split('\n')
    r, skip = [], False
    for i, l in enumerate(lines):
        t = l.strip()
        if re.match(r'static const uint32_t buzhash', t):
            skip = True
        if skip:
            skip = t != '};'
            continue
        if not t or t.startswith(('#', '//', '*', '/*', 'u_log', 'fprintf(stderr', '"', 'fputs', 'u_assert', 'u_build', 'printf')) or 'u_log' in t:
            continue
        if re.search(r'u_notnull|err_|0x[0-9a-f]{8}', t):
            continue
        code = re.sub(r'//.*', '', l)
        for pat, reps in SWAP:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2:
                    continue
                for rep in reps:
                    if rep in ('N+1', 'N-1'):
                        n = int(m.group(1)) + (1 if rep == 'N+1' else -1)
                        if n < 0:
                            continue
                        new = code[:m.start()] + str(n) + code[m.end():]
                    else:
                        new = code[:m.start()] + rep + code[m.end():]
                    r.append((f, i, l, new))
        if re.match(r'^\s+[^={}]*(=[^=].*|\(.*\));$', code) and not re.match(r'^\s*(return|struct|const|static|int|size_t|ssize_t|char|uint|off_t|bool|for|while|if|goto|void|long|CURL|unsigned|time_t|ZSTD_)\b', code):
            r.append((f, i, l, re.match(r'\s*', l).group(0) + ';'))
        if re.match(r'^\s+goto ', code):
            r.append((f, i, l, re.match(r'\s*', l).group(0) + ';'))
    return r


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(n, m, scale):
    f, i, old, new = m
    d = os.path.join(BASE, 'a%d' % n)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/work')
    r = d + '/repo'
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', r])
        lines = open(os.path.join(r, f)).read().split('\n')
        assert lines[i] == old
        lines[i] = new
        open(os.path.join(r, f), 'w').write('\n'.join(lines))
        b = run('cmake -S . -B b -G Ninja -DBUILD_TESTING=OFF -DBUILD_CSN_TOOL=ON -DBUILD_PATCHDD=ON >/dev/null 2>&1 && ninja -C b', shell=True, cwd=r)
        if b.returncode:
            return 'nobuild', ''
        shutil.rmtree(r + '/b')
        for p in PROPS[f].split():
            env = dict(os.environ, VERIF_REPO=r, VERIF_WORK=d + '/work', VERIF_EVID=d + '/evid', VERIF_SEED='1', VERIF_TIER='quick', VERIF_SCALE=str(scale))
            q = run([sys.executable, os.path.join(V, 'check.py'), p], env=env)
            if q.returncode == 1:
                return 'caught', p
            if q.returncode != 0:
                if 'failed' in q.stdout and ('compil' in q.stdout or 'cmake' in q.stdout):
                    return 'nobuild', ''
                return 'error', p + ' ' + q.stdout[-300:].replace('\n', ' | ')
        return 'SURVIVED', ''
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    j, number, seed, files, scale, todo = 3, 10 ** 9, 1, [], 0.2, None
    while a:
        x = a.pop(0)
        if x == '-j': j = int(a.pop(0))
        elif x == '-n': number = int(a.pop(0))
        elif x == '-s': seed = int(a.pop(0))
        elif x == '--full':
            scale = 1
            todo = []
            for l in open(a.pop(0)):
                if l.startswith(('SURVIVED', 'error')):
                    f, i, old, new = l.rstrip('\n').split('\t')[1:5]
                    todo.append((f, int(i) - 1, eval(old), eval(new)))
        else: files.append(x)
    if todo is None:
        todo = [m for f in files or PROPS for m in mutants(f)]
        random.Random(seed).shuffle(todo)
        todo = todo[:number]
    q = queue.Queue()
    for n, m in enumerate(todo):
        q.put((n, m))
    lock, cnt = threading.Lock(), {}
    log = open('/tmp/automut.log', 'a')

    def work():
        while True:
            try:
                n, m = q.get_nowait()
            except queue.Empty:
                return
            t = time.time()
            try:
                v, p = one(n, m, scale)
            except Exception as e:
                v, p = 'error', repr(e)
            with lock:
                cnt[v] = cnt.get(v, 0) + 1
                print('\t'.join([v, m[0], str(m[1] + 1), repr(m[2]), repr(m[3]), p, '%.0f s' % (time.time() - t)]), file=log, flush=True)
    ts = [threading.Thread(target=work) for _ in range(j)]
    for t in ts: t.start()
    for t in ts: t.join()
    print(len(todo), cnt)


if __name__ == '__main__':
    main()

"""C14: the URLs asked for."""
import random
from prog import *


def base_of(arg):
    b = arg.rsplit('#', 1)[0] if '#' in arg else arg
    return b[:-1] if b.endswith('/') else b


def items(r, n):
    out = []
    for q in range(n):
        seg = lambda k: ''.join(r.choice('abcXYZ019-._~%:@!$&()*+,;=?') for _ in range(k))
        k = r.random()
        path = '/'.join(seg(r.choice([0, 1, 3, 8])) for _ in range(r.randint(0, 4)))
        if k < 0.1:
            path = '/'.join(seg(r.choice([60, 200, 255])) for _ in range(r.choice([1, 4, 5, 8, 17, 40])))
        elif k < 0.2:
            path = seg(r.choice([85, 96, 100, 127, 128, 200, 226, 255, 256, 257, 511, 512, 900, 1023, 1024, 4095]))
        elif k < 0.3:
            path = '\u00e4\u20ac/' + path
        b = r.choice(['http://', 'https://', 'http:', 'http', 'http://h:8080/', 'http://user:pw@h/', 'http://[::1]:80/', 'HTTP'[:0] + 'http://x/']) + path
        b += r.choice(['', '', '/', '/', '//', '///'])
        key = None
        f = r.choice(['', '', '', '#', '#encrypt=key:', '#encrypt=key:', '#encrypt=env:', '#encrypt=file:', '#two', '#comma', '#commas', '#more', '#lead', '#bogus', '#encrypt', '#crypt=x', '#/'])
        if ':' in f or f in ('#two', '#comma', '#commas', '#more', '#lead'):
            key = r.randbytes(32)
        nid = r.randint(1, 4)
        datas = [r.randbytes(r.randint(48, 120)) for _ in range(nid)]
        if r.random() < 0.4:
            # ids starting with small digits
            while sha(datas[0])[r.choice([0, 1])] >= 16:
                datas[0] = r.randbytes(60)
        seq = [r.randrange(nid) for _ in range(r.randint(1, 6))]
        out.append((b, f, key, datas, seq, r.random() < 0.85, r.choice(['csn', 'casync', 'casync=']), r.getrandbits(30)))
    return out


def run_url(it):
    b, f, key, datas, seq, have, app, seed = it
    r = random.Random(seed)
    d = scratchdir()
    try:
        J = lambda *a: os.path.join(d, *a)
        arg, env = b + f, {}
        if f.endswith('key:'):
            arg += key.hex()
        elif f.endswith('env:'):
            arg += 'K'
            env['K'] = key.hex()
        elif f.endswith('file:'):
            wfile(J('key'), key.hex().encode() + b'\n')
            arg += J('key')
        elif f in ('#two', '#comma', '#commas', '#more', '#lead'):
            e = 'encrypt=key:'
            arg = b + '#' + {'#two': e + r.choice([key, r.randbytes(32)]).hex() + ',' + e + key.hex() + r.choice(['', ',']),
                             '#comma': e + key.hex() + ',', '#commas': e + key.hex() + ',,',
                             '#more': e + key.hex() + ',' + r.choice(['x', 'encrypt', 'encrypt:', ' ' + e + key.hex(), '#']),
                             '#lead': r.choice([',', 'x,', 'crypt=,']) + e + key.hex()}[f].replace('#', '')
        os.makedirs(J('srv'))
        have = have or r.random() < 0.5
        have_all = True
        for i in set(seq):
            if not have and r.random() < 0.5:
                have_all = False
                continue
            x = zstd_raw(datas[i], 100)
            n = sha(datas[i]).hex() + '.cacnk'
            if key:
                x = xchacha(key, sha(datas[i])[:24], x)
                n += '.enc'
            wfile(J('srv', n), x)
        wfile(J('t'), b'')
        wfile(J('i'), caibx([(len(datas[i]), sha(datas[i])) for i in seq], (16, 100, 200)))
        cfg = ['store 1 ' + base_of(arg), 'dir 1 ' + J('srv')]
        if r.random() < 0.2:
            cfg.append('resp 1 conn %d 200 0 -1 - 0' % r.choice([6, 7, 28]))
        cfg.append('def 1 ok 0 200 0 -1 @ok 0')
        argv = [J('i'), J('t'), arg] if app == 'csn' else \
            (['--store=' + arg] if app == 'casync=' else ['--store', arg]) + ['extract', J('i'), J('t')]
        x = call('csn' if app == 'csn' else 'casync', argv, d, cfg, env=env)
        ev = [dict(e='req', url=list(os.fsencode(l.split(' ', 5)[5]))) for l in x['log'] if l.startswith('Q ')]
        ev.append(dict(e='exit', rc=arc(x)))
        return dict(arg=list(os.fsencode(arg)), ids=[list(sha(datas[i])) for i in seq], have=have_all, ev=ev), \
            'store %r, exit %d\nurls: %s\n%s' % (arg[:300], x['rc'], [bytes(e['url'])[:300] for e in ev[:-1]],
                                               '\n'.join(x['err'].strip().splitlines()[-2:])[:600])
    finally:
        shutil.rmtree(d)

"""C16: csn-tool crypt."""
import random, re, socket
from prog import *

B = lambda s: list(os.fsencode(s))


def gen(n, seed):
    out = T.tlc('CsnToolGen', 'CsnToolGen.cfg', args=['-simulate', 'num=%d' % n, '-depth', '5', '-seed', str(seed)], workers=1)
    r = [json.loads(json.loads(l)[4:]) for l in out.splitlines() if l.startswith('"CASE')]
    if not r:
        raise CheckError('CsnToolGen: ' + out[-2000:])
    return r


def from_gen(r, cases):
    """abstract ids of one digit become ids of 64"""
    out = []
    for c in cases:
        ids = {'0': r.randbytes(32).hex(), 'A': r.choice([r.randbytes(32).hex().upper(), r.randbytes(32).hex()])}

        def path(p):
            s = bytes(p).decode()
            if s in ('-', '\0'):
                return None if s == '\0' else s
            d, b = os.path.split(s)
            i = b.split('.')[0]
            i = ''.join(ids.get(x, x) for x in i)
            return os.path.join(d, i + b[len(b.split('.')[0]):]) if '.' in b else s
        runs = []
        for h in c['hist']:
            runs.append(dict(key=h['key'], items=[(path(i), path(o)) for i, o in h['items']], bad=h['bad'], cut=h['cut']))
        out.append(([(path(f['p']), f['b']) for f in c['first']], ['a'], runs, r.getrandbits(30), False))
    return out


def rnd_name(r, ids):
    i = r.choice(ids)
    k = r.random()
    if k < 0.75:
        n = i + r.choice(['.cacnk', '.cacnk.enc'])
    else:
        n = r.choice([i[:-1] + '.cacnk', i + '0.cacnk', i + '.cacnk.en', i + '.cacnk.enc.enc', i + '.cacnk.encx', i[:60] + '.cacnk.cacnk', i + 'xcacnk',
                      i + '.CACNK', '.cacnk', i, '', i[:-1] + 'g.cacnk', i[:-1] + '\x10.cacnk', ' ' + i[1:] + '.cacnk', i[:-4] + '.cacnk.enc',
                      'x' + i[1:] + '.cacnk', i[:63] + '/.cacnk', i + '.cacnk.encfoo'[:10], i + '.cacnkkenc', '0x' + i[2:] + '.cacnk', i + '.cacnk/',
                      i[:-1] + ':.cacnk', i[:-1] + '`.cacnk', i[:-1] + '@.cacnk.enc', i + '-cacnk', i + '.cacnk '])
    return os.path.join(r.choice(['', '', 'a', 'b', 'a/c', 'nodir', '.x', 'r\rd']), n)


def items(r, n, asan=False):
    out = []
    for q in range(n):
        ids = [r.randbytes(32).hex() for _ in range(2)]
        if r.random() < 0.3:
            ids[1] = ids[1].upper()
        if r.random() < 0.2:
            ids[1] = ids[0][:48] + ids[1][48:]          # the same nonce
        fs = {}
        for _ in range(r.randint(1, 5)):
            p = rnd_name(r, ids)
            if not p.startswith('nodir') and not p.endswith('/') and os.path.basename(p) and '/.cacnk' not in p:
                fs[p] = r.choice([1, 2, 3, 3])
        names = list(fs) or ['x']
        runs = []
        for _ in range(r.randint(1, 4)):
            m = r.random()
            nm = lambda: r.choice(names) if r.random() < 0.6 else rnd_name(r, ids)
            tog = lambda p: p[:-4] if p.endswith('.enc') else p + '.enc'
            if m < 0.45:
                it = [(nm(), None) for _ in range(r.choice([1, 1, 2, 3, 5]))]
                if r.random() < 0.4:
                    it = [x for x in it for _ in range(r.choice([1, 1, 2]))]
                if r.random() < 0.4:
                    it += [(tog(x), None) for x, _ in it[:1]]
                it = [(x, o) for x, o in it if '\n' not in x]
                mode = 'list' if r.random() < 0.7 or len(it) != 1 else 'arg'
            else:
                it = [(nm(), r.choice(['out', 'out2', 'a/out', '-', 'b', 'nodir/out', nm(), './-']))]
                mode = 'arg'
            cfg = []
            if r.random() < 0.35 and it:
                v = r.choice(it)
                k = r.choice(['werr', 'werr0', 'rerr', 'wshort', 'rshort', 'eintr', 'wlate'])
                cfg = [(k, v)]
            pad = r.choice([4095, 4096, 4091, 4092, 4090, 4094, 4093, 3000]) if r.random() < (0.5 if asan else 0.12) and mode == 'arg' and not cfg else 0
            runs.append(dict(pad=pad, key=r.choice([1, 1, 1, 2, 0]), items=it, bad=cfg, mode=mode, cut=mode == 'list' and r.random() < 0.1, nl=r.choice(['\n', '\n', '\n', '\r\n', '\n\n']) if r.random() < 0.2 else '\n',
                             last=r.random() < 0.8, usage=r.choice([None] * 30 + ['none', 'help', 'many', 'two', 'nocmd', 'toph', 'tophelp', 'badcmd', 'noname', 'longcmd'])))
        out.append((list(fs.items()), ['a', 'b', 'a/c', '.x', 'r\rd'], runs, r.getrandbits(30), asan))
    return out


def run_case(it):
    files, dirs, runs, seed, asan = it
    r = random.Random(seed)
    d = scratchdir()
    try:
        w = os.path.join(d, 'w')
        os.makedirs(w)
        for x in dirs:
            os.makedirs(os.path.join(w, x), exist_ok=True)
        keys = [None, r.randbytes(32), r.randbytes(32)]
        base = {0: b'', 1: r.randbytes(r.choice([16, 40, 5000])), 2: r.randbytes(r.choice([33, 64, 100])), 3: r.randbytes(r.choice([20, 200, 100000]))}
        known = {b'': (0, ())}
        for b in (1, 2, 3):
            known[base[b]] = (b, ())
        for p, b in files:
            wfile(os.path.join(w, p), base[b])

        def ident(x):
            """what this content is"""
            c = known.get(x)
            return dict(b=c[0], k=[list(y) for y in c[1]]) if c else dict(b=99, k=[[len(x), [int(sha(x)[0])]]])

        def names(p):
            n = os.path.basename(p)
            m = re.match(r'([0-9a-fA-F]{64})\.cacnk(\.enc)?$', n)
            return m.group(1) if m else None

        def learn(p, key):
            """all that can come out of converting what is known"""
            i = names(p)
            if i is None or key == 0:
                return
            t = (key, tuple(int(c, 16) for c in i[:48]))
            for x, (b, k) in list(known.items()):
                if b and len(k) < 4:
                    k2 = tuple(sorted(set(k) ^ {t}))
                    known.setdefault(xchacha(keys[key], bytes.fromhex(i)[:24], x), (b, k2))

        def tree():
            o = []
            for root, ds, fs in os.walk(w):
                for f in fs:
                    p = os.path.relpath(os.path.join(root, f), w)
                    p = './-' if p == '-' else p
                    o.append(dict(p=B(p), **ident(open(os.path.join(root, f), 'rb').read())))
            return sorted(o, key=lambda x: x['p'])
        start = tree()
        ev, txt = [], []
        norm = lambda p: p
        for q, h in enumerate(runs):
            mode = h.get('mode') or ('list' if len(h['items']) > 1 else 'arg')
            key = 'key:' + (keys[h['key']].hex() if h['key'] else r.choice(['', 'xyz', '0' * 63]))
            cfg, fault = [], False
            bad = h['bad']
            if bad and not isinstance(bad[0], tuple):
                # item number n is to fail, by an error while writing (or reading)
                n = bad[0]
                i, o = h['items'][n - 1]
                bad = [(r.choice(['werr', 'wlate', 'rerr']), (i, o))]
            for k, (i, o) in bad:
                o2 = o or (i[:-4] if i.endswith('.enc') else i + '.enc')
                # not if the file is somewhere else in the list, too
                fault = k in ('werr', 'werr0', 'rerr', 'wlate')
                P = os.path.join(w, i if k in ('rerr', 'rshort') else o2)
                cfg.append('file f ' + P)
                cfg.append({'werr': 'io f w 1 err 28', 'werr0': 'io f w 1 err 5', 'rerr': 'io f r 1 err 5', 'wshort': 'iopat f w short 7',
                            'rshort': 'iopat f r short 9', 'eintr': 'iopat f w eintr 2', 'wlate': 'io f w 2 err 28'}[k])
                if k == 'wlate':
                    cfg.append('io f w 1 short 1')
            for i, o in h['items']:
                learn(i, h['key'])
            argv = ['crypt', key]
            pad = h.get('pad', 0)
            stdin = b''
            cut = h.get('cut', False) and not h.get('usage')
            if mode == 'list':
                nl = h.get('nl', '\n')
                if nl == '\n\n':
                    nl = '\n'
                stdin = os.fsencode(nl.join(i for i, o in h['items']) + (nl if h.get('last', True) or cut else ''))
            else:
                i, o = h['items'][0]
                if pad:
                    # ./ again and again up to some length
                    k = max(0, (pad - len(os.fsencode(i))) // 2)
                    i2 = ('/' if (pad - len(os.fsencode(i))) % 2 and k else '').join(['./' * k, i]) if not i.startswith('/') else i
                    lng = len(os.fsencode(i2))
                else:
                    i2 = i
                argv += [i2] + ([o] if o else [])
            u = h.get('usage')
            its = h['items']
            if pad and not u:
                # what cannot be named is not there
                i, o = its[0]
                its = [(i if lng <= 4095 else 'nodir/' + os.path.basename(i),
                        o if o else None if lng <= 4095 - 4 * (not i.endswith('.enc')) else 'nodir/out')]
            if u:
                argv = {'none': ['crypt'], 'help': ['crypt', '-h'], 'many': ['crypt', key, 'a', 'b', 'c'], 'two': ['crypt', '--help', 'a'],
                        'nocmd': [], 'toph': ['-h'], 'tophelp': ['--help'] + argv, 'badcmd': ['cript'] + argv[1:], 'noname': [''] + argv[1:],
                        'longcmd': ['crypt1'] + argv[1:]}[u]
            if mode == 'list' and its and not its[-1][0] and not h.get('last', True) and not cut:
                its = its[:-1]       # nothing behind the last line end
            closed, env = rnd_stdio(r, ([0] if mode == 'list' else []) + ([1] if any(o and o.endswith('-') for i, o in its) else []))
            x = tool(w, d, argv, cfg, stdin, asan, cut, dict(closed=closed, env=env))
            so = []
            if x['out'] and not u:
                so = [ident(x['out'])]
            elif its and its[0][1] == '-' and not u and x['rc'] == 0:
                so = [ident(b'')]
            if x['log'] and not any(l.startswith(('RE ', 'WE ')) for l in x['log']):
                fault = False
            elif not x['log']:
                fault = False
            ev.append(dict(e='run', key=h['key'], items=[{'in': B(i), 'out': B(o) if o else [0]} for i, o in its], fault=fault, rc=arc(x),
                           usage=bool(u), help=u in ('toph', 'tophelp'), cut=cut, fs=tree(), stdout=so))
            txt.append('%s %s stdin %r%s %s -> %d %s' % (argv[:1], argv[2:], stdin[:300], ' and an error' if cut else '', cfg, x['rc'], x['err'].strip()[-200:]))
        return dict(fs=start, dirs=[B(x + '/') for x in dirs + ['.']], ev=ev), 'files %s\n%s' % (files, '\n'.join(txt))
    finally:
        shutil.rmtree(d)


def tool(w, d, argv, cfg, stdin, asan, cut, kw):
    if cut:
        # a list that ends in an error: the other end of a connection is closed with something unread
        a, b = socket.socketpair()
        a.sendall(stdin)
        b.sendall(b'x')
        a.close()
        try:
            return call('csn-tool', argv, d, cfg, stdin=b, asan=asan, preexec=lambda: os.chdir(w), **kw)
        finally:
            b.close()
    return call('csn-tool', argv, d, cfg, stdin=stdin, asan=asan, preexec=lambda: os.chdir(w), **kw)

"""C09, C10: the chunker."""
import random
from prog import *
from prog import _ctx

NONE = -1


def disc_of(avg):
    return discriminator(avg)


def rnd_params(r):
    k = r.random()
    if k < 0.15:
        mn, mx = r.choice([(1, 48), (0, 49), (10, 47), (48, 50), (47, 49), (1, 3), (49, 51)])
        return mn, (mn + mx) // 2 if (mn + mx) // 2 > max(mn, 1) else mn + 1 if mn else 2, mx
    mn = r.choice([0, 1, 16, 47, 48, 49, 50, 64, 95, 96, 97, 100, 128])
    avg = max(2, mn + r.choice([1, 2, 5, 16, 60, 150]))
    return mn, avg, avg + r.choice([1, 2, 16, 60, 150, 300])


def rnd_data(r, n, mx):
    k = r.random()
    if k < 0.55:
        return r.randbytes(n)
    if k < 0.7:
        return bytes(n)
    if k < 0.8:
        return bytes([r.randrange(256)]) * n
    if k < 0.9:
        u = r.randbytes(r.choice([1, 2, 3, 47, 48, 49, 96, 100]))
        return (u * (n // len(u) + 1))[:n]
    b = bytearray(r.randbytes(n))
    for _ in range(3):
        if n > 1:
            o = r.randrange(n)
            k = min(n - o, r.choice([10, 48, 100, mx]))
            b[o:o + k] = bytes(k)
    return bytes(b)


# ------------------------------------------------------------ the incremental interface

def api_items(r, n, asan=False, big=False):
    out = []
    for q in range(n):
        p = rnd_params(r)
        mx = p[2]
        data = rnd_data(r, r.choice([0, 1, 47, 48, 49, 100, 96, 500, mx, mx - 1, mx + 1, 2 * mx, 1000, 1500]), mx)
        out.append((p, data, r.getrandbits(32), r.choice(['one', 'small', 'mixed', 'mixed', 'whole', 'window', 'empty']), asan))
    return out


def run_api(it):
    p, data, seed, how, asan = it
    r = random.Random(seed)
    exe = os.path.join(_ctx['asan' if asan else 'plain'], 'chunkh')
    pr = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    import threading

    def late():
        hung()
        pr.kill()
    watch = threading.Timer(60, late)
    watch.start()

    def say(b):
        pr.stdin.write(b)
        pr.stdin.flush()

    def ask(b):
        say(b + b'\n')
        return pr.stdout.readline().decode().split()

    ev, pos, start = [], 0, 0
    rc = 0
    try:
        a = ask(b'I %d %d %d' % p)
        assert a and a[0] == 'I'
        if a[1] != '0':
            raise EOFError
        say(b'D %d\n' % len(data) + data)
        n = 0
        while len(ev) < 4000:
            rest = len(data) - pos
            k = dict(one=lambda: 1, small=lambda: r.randint(1, 5), whole=lambda: rest, window=lambda: r.choice([47, 48, 49, 1]),
                     empty=lambda: r.choice([0, 0, 1, 30, 100]),
                     mixed=lambda: r.choice([0, 1, 1, 2, 3, 40, 47, 48, 49, 60, 100, p[2], rest]))[how]()
            k = min(k, rest)
            a = ask(b'F %d' % k)
            if not a:
                raise EOFError
            ret = int(a[1])
            ev.append(dict(e='feed', n=k, ret=ret if ret < 2**31 else -2))
            pos += k if ret == NONE else ret
            if ret == NONE:
                if pos == len(data):
                    if r.random() < 0.5:
                        n += 1
                        if n < 3:
                            continue
                    break
                if r.random() < 0.01:
                    # given up in the middle of a chunk
                    ask(b'R') if r.random() < 0.5 else ask(b'I %d %d %d' % p)
                    ev.append(dict(e='reset'))
                    start = pos
                continue
            # at a boundary: sometimes try to go on (the unit tests ask for this, too)
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                m = min(len(data) - pos, r.choice([1, 48, 100]))
                a = ask(b'F %d' % m)
                ev.append(dict(e='feed', n=m, ret=int(a[1])))
                if int(a[1]) != 0:
                    raise EOFError
            a = ask(b'G')
            ev.append(id_event(data, start, pos, a[1]))
            ask(b'R') if r.random() < 0.8 else ask(b'I %d %d %d' % p)
            ev.append(dict(e='reset'))
            start = pos
        a = ask(b'G')
        ev.append(id_event(data, start, pos, a[1]))
        ev.append(dict(e='end'))
    except (EOFError, BrokenPipeError, IndexError):
        ev.append(dict(e='died'))
    try:
        pr.stdin.close()
    except BrokenPipeError:
        pass
    err = pr.stderr.read().decode(errors='replace')
    rc = pr.wait()
    watch.cancel()
    if rc != 0:
        ev.append(dict(e='died'))
    return dict(kind='api', min=p[0], avg=p[1], max=p[2], disc=disc_of(p[1]), d=list(data), ev=ev), \
        'chunker %s fed %s, %d bytes %s\n%s' % (p, how, len(data), data[:60].hex(), err[-1500:])


def id_event(data, start, pos, hx):
    h = bytes.fromhex(hx)
    for a, b in [(start, pos)] + [(start, x) for x in range(start, len(data) + 1)] + [(x, pos) for x in range(0, pos)]:
        if sha(data[a:b]) == h:
            return dict(e='id', **{'from': a, 'to': b})
    return dict(e='id', **{'from': -1, 'to': -1})


# ------------------------------------------------------------ local stores

def scan_items(r, n, asan=False):
    out = []
    for q in range(n):
        p = rnd_params(r)
        mx = p[2]
        size = r.choice([0, 1, 47, 48, 49, 100, 700, mx, 2 * mx, 2000, 3000])
        if q % 12 == 0:
            # around the size of the read buffer
            p = r.choice([(64, 90, 128), (1000, 1300, 2048), (64, 1000, 4096), (48, 100, 1024), (500, 600, 8192)])
            size = 8192 * r.choice([1, 1, 2]) + r.choice([-1, 0, 1, 47, 48, 49])
        data = rnd_data(r, size, mx)
        io = r.choice(['', '', 'short', 'one', 'eintr', 'both'])
        out.append((p, data, r.getrandbits(32), io, asan))
    return out


def run_scan(it):
    p, data, seed, io, asan = it
    r = random.Random(seed)
    cs = ref_chunks(data, p)
    ents, seen = [], set()

    def add(o, l):
        h = sha(data[o:o + l])
        if l > 0 and o >= 0 and o + l <= len(data) and h not in seen:
            seen.add(h)
            ents.append((o, l, h))
    for o, l in cs:
        add(o, l)
    for o, l in r.sample(cs, min(len(cs), 12)):
        k = r.random()
        if k < 0.3:
            add(o, l + r.choice([-1, 1, 48]))
        elif k < 0.5:
            add(o + r.choice([-1, 1]), l)
        elif k < 0.7:
            add(o, min(l, r.randint(1, l)))
        else:
            add(r.randrange(len(data)), r.randint(1, p[2]))
    r.shuffle(ents)
    d = scratchdir()
    try:
        J = lambda *a: os.path.join(d, *a)
        os.makedirs(J('srv'))
        for o, l, h in ents:
            wfile(J('srv', h.hex() + '.cacnk'), zstd_raw(data[o:o + l], 100000))
        total = sum(l for o, l, h in ents)
        wfile(J('t'), b'')
        wfile(J('seed'), data)
        wfile(J('i'), caibx([(l, h) for o, l, h in ents], p))
        cfg = ['file target ' + J('t'), 'file store1 ' + J('seed'), 'store 2 http://h.test/s', 'dir 2 ' + J('srv'),
               'def 2 ok 0 200 0 -1 @ok 0']
        if io in ('short', 'both'):
            cfg.append('iopat store1 r short %d' % r.choice([1, 7, 47, 48, 49, 100, 1000]) if len(data) < 4000 else
                       'iopat store1 r short %d' % r.choice([100, 1000, 4095]))
        if io == 'one' and len(data) < 4000:
            cfg.append('iopat store1 r short 1')
        if io in ('eintr', 'both'):
            cfg.append('iopat store1 r eintr %d' % r.choice([2, 3, 5]))
        if r.random() < 0.3:
            cfg.append('blk store1')
        x = call('csn', [J('i'), J('t'), J('seed'), 'http://h.test/s'], d, cfg, asan=asan)
        asked = [l.split(' ')[5].split('/')[-1].split('.')[0] for l in x['log'] if l.startswith('Q ')]
        out = open(J('t'), 'rb').read()
        good = out == b''.join(data[o:o + l] for o, l, h in ents)
        ev = []
        for o, l, h in ents:
            same, q = [], data.find(data[o:o + l])
            while q >= 0 and len(same) < 20000:
                same.append(q)
                q = data.find(data[o:o + l], q + 1)
            ev.append(dict(e='find', len=l, same=same, found=h.hex() not in asked, off=o))
        ev.append(dict(e='end', rc=arc(x) if good or x['rc'] else 5))
        return dict(kind='scan', min=p[0], avg=p[1], max=p[2], disc=disc_of(p[1]), d=list(data), ev=ev), \
            'local store of %d bytes, sizes %s, io %s, exit %d\n%s\n%s' % (
                len(data), p, io, x['rc'], data[:60].hex(), '\n'.join(x['err'].strip().splitlines()[-3:]))
    finally:
        shutil.rmtree(d)


def check_ref(chk, r, n, big=0):
    """the stand-in for the definition used where TLC would be too slow must agree with it"""
    ts = []
    for q in range(n + big):
        p = rnd_params(r)
        data = rnd_data(r, r.choice([0, 1, 48, 49, 500, 1500, 2 * p[2]]), p[2])
        if q >= n:
            p = (16384, 65536, 262144)
            data = r.randbytes(r.randint(30000, 90000))
        ts.append(dict(kind='cut', min=p[0], avg=p[1], max=p[2], disc=disc_of(p[1]), d=list(data),
                       ev=[dict(e='cut', off=o, len=l) for o, l in ref_chunks(data, p)] + [dict(e='end')]))
    acc, g, d = T.validate('ChunkerTrace', ts, batch=60)
    if len(acc) != len(ts):
        bad = [t for i, t in enumerate(ts) if i not in acc]
        raise CheckError('reference chunker differs from spec/Chunker.tla: %s' % str(bad[0])[:1000])
    chk.trans += g
    chk.states += d
    chk.parts['reference against Chunker.tla'] = dict(cut=len(ts), accepted=len(acc))




# ------------------------------------------------------------ large stores, default sizes

def big_one(it):
    params, size, kind, seed = it
    r = random.Random(seed)
    data = bytearray(r.randbytes(size))
    if kind == 'zeros':
        o = r.randrange(size // 2)
        data[o:o + size // 3] = bytes(len(data[o:o + size // 3]))
    elif kind == 'repeat':
        u = bytes(data[:r.randint(1000, 100000)])
        data = bytearray((u * (size // len(u) + 1))[:size])
    data = bytes(data)
    cs = ref_chunks(data, params)
    ents = list(dict.fromkeys((l, sha(data[o:o + l])) for o, l in cs))
    d = scratchdir()
    try:
        J = lambda *a: os.path.join(d, *a)
        os.makedirs(J('srv'))
        wfile(J('t'), b'')
        wfile(J('seed'), data)
        r.shuffle(ents)
        wfile(J('i'), caibx(ents, params))
        x = call('csn', [J('i'), J('t'), J('seed'), 'http://h.test/s'], d, ['store 2 http://h.test/s', 'dir 2 ' + J('srv'),
                 'def 2 ok 0 200 0 -1 @ok 0'])
        asked = sum(l.startswith('Q ') for l in x['log'])
        where = {}
        for o, l in cs:
            where.setdefault(sha(data[o:o + l]), (o, l))
        good = open(J('t'), 'rb').read() == b''.join(data[where[h][0]:][:l] for l, h in ents)
        return dict(ok=x['rc'] == 0 and not asked and good), 'local store of %d bytes (%s, seed %d), sizes %s: exit %d, %d chunks, %d downloads asked for, target %s\n%s' % (
            size, kind, seed, params, x['rc'], len(ents), asked, good, x['err'][-300:])
    finally:
        shutil.rmtree(d)


def big(chk, r, n):
    """Stores too large to have TLC cut them: cut by ref/ref.c, which check_ref compares with the specification."""
    items = [(r.choice([(16384, 65536, 262144), (16384, 65536, 262144), (4096, 16384, 65536), (64, 256, 1024)]),
              r.choice([300000, 3000000, 8192 * 100, 10000001]), r.choice(['random', 'zeros', 'repeat']), r.getrandbits(30))
             for _ in range(n)]
    res = run_items('chunkc', 'big_one', items)
    chk.evals += n
    chk.parts['large stores'] = dict(runs=n, ok=sum(x[0]['ok'] for x in res))
    for it, x in zip(items, res):
        if not x[0]['ok']:
            y = run_items('chunkc', 'big_one', [it])[0]
            if not y[0]['ok']:
                chk.violation('plain', dict(mod='chunkc', fn='big_one', item=it), 'every chunk of a local store is found in it: not so\n' + y[1])

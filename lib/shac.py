"""C19: hashing with an emulated kernel crypto socket."""
import random, zlib
from prog import *
import tlc as T
from fam import *

ERRS = [5, 12, 11, 32, 104, 90, 126, 1, 22]
DRIVERS = ['-', 'sha256', 'sha256-generic', 'sha256-avx2', 'sha256-' + 'x' * 56]
BAD = ['', 'md5', 'nonexistent', 'sha256-' + 'x' * 57, 'x' * 63, 'x' * 64, 'x' * 65, 'y' * 290]


def gen():
    out = T.tlc('MCSha', 'ShaGen.cfg', workers=4)
    cs = [json.loads(json.loads(l)[4:])['h'] for l in out.splitlines() if l.startswith('"CASE')]
    if not cs:
        raise CheckError('ShaGen: ' + out[-2000:])
    cs = [list(x) for x in sorted({json.dumps(c): c for c in cs}.values(), key=json.dumps)]
    g, d = T.stats(out)
    return cs, g, d


def from_gen(r, cs):
    """a history in blocks -> (operations, script)"""
    out = []
    for h in cs:
        b = r.choice([1, 2, 3, 7, 31, 32, 33, 63, 64, 65, 1000, 4096, 16384, 16385, 65536 if r.random() < 0.3 else 5])
        ops = [('I', r.choice(DRIVERS), True)]
        if not any(e[0] in ('send', 'recv', 'eintr', 'err', 'short') for e in h) and r.random() < 0.5:
            ops = []
        cfg, n = [], 0
        for q, e in enumerate(h):
            if e[0] == 'call':
                ops.append(('D', e[1] * b, r.choice([0, 0, 1, 3])))
                left = e[1]
                continue
            n += 1
            o = 's' if e[0] == 'send' or e[1] == 'send' else 'r'
            if e[0] == 'send':
                left -= e[1]
                if left:
                    cfg.append('algop %d s short %d' % (n, e[1] * b))
            elif e[0] == 'eintr':
                cfg.append('algop %d %s eintr' % (n, o))
            elif e[0] == 'err':
                cfg.append('algop %d %s err %d' % (n, o, r.choice(ERRS)))
            elif e[0] == 'short':
                cfg.append('algop %d r short %d' % (n, r.choice([0, 1, 16, 20, 28, 31])))
        out.append((ops, cfg, r.getrandbits(30), None))
    return out


def items(r, n, asan=False):
    out = []
    for q in range(n):
        ops = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.random()
            if k < 0.75:
                ops.append(('I', r.choice(DRIVERS), True))
            elif k < 0.88:
                ops.append(('I', r.choice(BAD), False))
            for _ in range(r.randint(0, 5)):
                ops.append(('D', r.choice([0, 1, 2, 31, 32, 33, 55, 56, 63, 64, 65, 119, 120, 127, 128, 1000, 4095, 4096, 4097, 65535, 65536, 65537,
                                           r.randint(1, 300), r.randint(1, 5000), 262144 if r.random() < 0.3 else 9]), r.choice([0, 0, 0, 1, 2, 7])))
            if r.random() < 0.4 and k < 0.75:
                ops.append(('X',))
        cfg = []
        fail = None
        if r.random() < 0.12:
            fail = r.choice(['socket', 'bind', 'accept'])
            cfg.append('alg %s %d' % (fail, r.choice([97, 2, 13, 24, 93, 22])))
        d = r.choice([0, 0.05, 0.2, 0.5])
        for k in range(1, 60):
            if r.random() < d:
                w = r.choice(['short'] * 4 + ['eintr'] * 3 + ['err'])
                o = r.choice('sr*')
                z = r.choice([1, 2, 31, 63, 64, 65, 1000, 4096, 16384, 0 if o == 'r' else 1])
                cfg.append('algop %d %s %s %d' % (k, o, w, z if w == 'short' else r.choice(ERRS)))
        # a socket that is still in use when another is asked for is not what is meant
        o2, on = [], False
        for o in ops:
            if o[0] == 'I' and on:
                o2.append(('X',))
                on = False
            if o[0] == 'I':
                on = o[2] and not fail
            elif o[0] == 'X':
                on = False
            o2.append(o)
        out.append((o2, cfg, r.getrandbits(30), fail))
    return out


def run_case(it, asan=False):
    ops, cfg, seed, fail = it[:4]
    r = random.Random(seed)
    d = scratchdir()
    try:
        s, datas = b'', []
        for o in ops:
            if o[0] == 'I':
                s += b'I ' + (o[1] or ' ').encode() + b'\n' if o[1] else b''
            elif o[0] == 'X':
                s += b'X'
            else:
                b = r.randbytes(o[1])
                datas.append(b)
                s += b'D%d %d\n' % (o[1], o[2]) + b
        ops = [o for o in ops if o[0] != 'I' or o[1]]
        x = call('shah', [], d, cfg, stdin=s, asan=len(it) > 4 and it[4])
        ev, ki, kd, sent = [], iter([o for o in ops if o[0] == 'I']), iter(datas), 0
        b = b''
        for l in x['log']:
            f = l.split(' ')
            if f[0] == 'i':
                ev.append(dict(e='init', rc=int(f[1]), works=next(ki)[2] and not fail))
            elif f[0] == 'x':
                ev.append(dict(e='deinit'))
            elif f[0] == 'D':
                b, sent = next(kd), 0
                ev.append(dict(e='call', len=len(b)))
            elif f[0] == 'd':
                ev.append(dict(e='ret', rc=int(f[1]), right=f[2] == sha(b).hex() and f[3] == '1'))
            elif f[:2] == ['ALG', 'send']:
                n, c = int(f[2]), int(f[4])
                off = next((o for o in (sent, 0) if o + n <= len(b) and zlib.crc32(b[o:o + n]) == c), -1)
                ev.append(dict(e='send', off=off, n=n, more=f[3] == '1'))
                sent += n
            elif f[:2] == ['ALG', 'recv']:
                ev.append(dict(e='recv', n=int(f[2])))
            elif f[0] == 'ALG' and f[1] in ('intr', 'fail'):
                ev.append(dict(e=f[1]))
            elif f[0] == 'ALG' and f[1] == 'accept' and fail != 'accept':
                ev.append(dict(e='open'))
        if x['rc'] != 0:
            ev.append(dict(e='crash'))
        return dict(ev=ev), 'operations %s\nscript %s\nstatus %d %s\n%s' % (
            [o for o in ops], cfg, x['rc'], x['err'][-300:], '\n'.join(x['log'][-80:]))
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------ whole runs

def kcapi(r, n):
    """scenarios of other families with hashing by the emulated kernel, with and without faults"""
    fams = [random_, clean_, near, side, repeat, prefix_, length_, tiny, bodies, faulty_, crash]
    each = max(1, n // len(fams))
    for f in fams:
        for s in f(r, each):
            s.name = 'kcapi ' + s.name
            for q, x in enumerate(s.runs):
                s.runs[q] = x = dict(x, cfg=list(x['cfg']), env=dict(x['env']))
                x['env']['CSN_KCAPI_DRIVER'] = r.choice(DRIVERS[1:])
                if x['argv'] is None and r.random() < 0.9:
                    x['app'] = 'csn'
                k = r.random()
                if k < 0.06 and x['app'] == 'csn' and not x['muts'] and not x['initfail']:
                    x['cfg'].append(r.choice(['alg socket 97', 'alg bind 2', 'alg accept 12']))
                    x['mayfail'] = True
                    continue
                if k < 0.35:
                    continue
                rate = r.choice([0.02, 0.2, 0.5])
                fatal = r.random() < 0.6
                for m in range(1, 200):
                    if r.random() < rate:
                        w = r.choice(['short', 'short', 'eintr', 'eintr'] + ['err'] * fatal)
                        o = r.choice('sr*') if fatal else r.choice('ss*' if w == 'eintr' else 's')
                        x['cfg'].append('algop %d %s %s %d' % (m, o, w, r.choice([1, 31, 64, 1000, 4096]) if w == 'short' else r.choice(ERRS)))
            yield s

"""C20: patchdd."""
import random
from prog import *

MIB = 1 << 20


def gen():
    out = T.tlc('PatchddGen', 'PatchddGen.cfg', workers=2)
    r = [json.loads(json.loads(l)[4:]) for l in out.splitlines() if l.startswith('"CASE')]
    if not r:
        raise CheckError('PatchddGen: ' + out[-2000:])
    g, d = T.stats(out)
    return r, g, d


def from_gen(r, cases):
    """units of a quarter of a block; the first byte of a different unit differs"""
    U = MIB // 4
    out = []
    for c in cases:
        seed = r.getrandbits(30)
        n = len(c['d']) * U
        m = max(0, n + c['x'] * U)
        diffs = [k * U + o for k, v in enumerate(c['d']) if v for o in (0, r.randrange(U))]
        a, op, nth, k = c['a']
        cls = {'s': 'src', 'd': 'dst', 'w': 'dst'}[op]
        rw = 'w' if op == 'w' else 'r'
        kk = {'short': [1, 1, U, U + 1][k], 'eintr': 0, 'err': r.choice([5, 28, 30]), 'kill': [0, 1, U + 3][k], 'none': 0}[a]
        cfg = [] if a == 'none' else ['io %s %s %d %s %d' % (cls, rw, nth, a, kk)]
        out.append((seed, n, m, diffs, cfg, [], False))
    return out


def items(r, n, asan=False):
    out = []
    for q in range(n):
        size = r.choice([0, 1, 7, 8, 9, 15, 511, 512, 4096, 4097, MIB - 1, MIB, MIB + 1, MIB + 7, MIB + 8, 2 * MIB - 3, 2 * MIB, 2 * MIB + 5,
                         3 * MIB + 12345, r.randrange(3 * MIB), r.randrange(100)])
        extra = r.choice([0, 0, 0, 1, 512, 100000, MIB, -1, -1, -512, -MIB])
        if size + extra < 0:
            extra = 0
        diffs = []
        if size:
            nb = (size + MIB - 1) // MIB
            for _ in range(r.choice([0, 1, 1, 2, 5])):
                b = r.randrange(nb) * MIB
                e = min(size, b + MIB)
                diffs.append(r.choice([b, e - 1, r.randrange(b, e), r.randrange(b, e) // 8 * 8, r.randrange(b, e) | 7 if (e - b) > 8 else b, max(b, e - r.randint(1, 16))]))
            diffs = [min(x, size - 1) for x in diffs]
            if r.random() < 0.1:
                diffs = 'all'
        cfg = []
        k = r.random()
        if k < 0.2:
            cfg.append('iopat %s %s short %d' % (r.choice(['src', 'dst']), r.choice('rw'), r.choice([MIB - 1, 100000, 65536, 33333])))
        elif k < 0.3:
            cfg.append('iopat %s %s eintr %d' % (r.choice(['src', 'dst']), r.choice('rw'), r.choice([2, 3])))
        elif k < 0.42 and size:
            cfg.append('ioerr %s %d %d 5' % (r.choice(['src', 'dst']), r.randrange(size), r.choice([1, 512])))
        elif k < 0.54:
            cfg.append('io dst w %d err %d' % (r.randint(1, 3), r.choice([5, 28, 30])))
        elif k < 0.64:
            cfg.append('fsyncerr dst %d' % r.choice([5, 28, 122]))
        elif k < 0.72:
            cfg.append('io dst w %d kill %d' % (r.randint(1, 3), r.choice([0, 1, 1000, MIB])))
        elif k < 0.78 and size:
            cfg.append('at read-%s %d trunc @%s@ %d' % ((lambda x: (x, r.randint(1, 3), x))(r.choice(['src', 'dst'])) + (r.randrange(size),)))
        if r.random() < 0.2:
            cfg.append('iopat dst w short %d' % r.choice([MIB - 1, 99999, 500000]))
        kind = r.choice([None] * 12 + ['nosrc', 'nodst', 'noarg', 'onearg', 'help', 'same', 'link', 'dirsrc', 'extra', 'sameas'])
        out.append((r.getrandbits(30), size, size + extra, diffs, cfg, kind, asan))
    return out


def run_case(it):
    seed, n, m, diffs, cfg, kind, asan = it
    r = random.Random(seed)
    d = scratchdir()
    try:
        S, D = os.path.join(d, 'src'), os.path.join(d, 'dst')
        src = bytearray(r.randbytes(n))
        if r.random() < 0.2:
            src[n // 3:] = bytes(n - n // 3)
        dst = bytearray(src[:m]) + r.randbytes(max(0, m - n))
        if diffs == 'all':
            dst[:n] = bytes(b ^ 0xff for b in src[:m])
        else:
            for x in diffs:
                if x < len(dst):
                    dst[x] ^= r.choice([1, 0x80, 0xff])
        src, dst = bytes(src), bytes(dst)
        wfile(S, src)
        wfile(D, dst)
        sizes = [n, m]
        argv = [S, D]
        args = True
        if kind == 'nosrc':
            os.unlink(S)
            sizes[0] = -1
        elif kind == 'nodst':
            os.unlink(D)
            sizes[1] = -1
        elif kind in ('noarg', 'onearg', 'help'):
            args = False
            argv = [] if kind == 'noarg' else [S] if kind == 'onearg' else ['--help', D] if r.random() < 0.5 else ['-h', S, D]
        elif kind == 'same':
            os.unlink(S)
            os.link(D, S)
            src, sizes[0] = dst, m
        elif kind == 'link':
            os.rename(D, D + '.real')
            os.symlink(D + '.real', D)
        elif kind == 'dirsrc':
            os.unlink(S)
            os.mkdir(S)
            sizes[0] = -1
        elif kind == 'extra':
            argv.append('extra')
        n = len(src)
        first = []
        for b in range((n + MIB - 1) // MIB):
            e = min(n, (b + 1) * MIB)
            x, y = src[b * MIB:e], dst[b * MIB:e]
            f = e - b * MIB
            if x != y:
                lo, hi = 0, len(x)          # the first difference, by bisection
                while hi - lo > 1:
                    mid = (lo + hi) // 2
                    if x[:mid] == y[:mid]:
                        lo = mid
                    else:
                        hi = mid
                f = lo
            first.append(b * MIB + f)
        trunc = [c for c in cfg if ' trunc ' in c]
        if kind == 'same':
            trunc, cfg = [], []
        c = ['file src ' + S, 'file dst ' + D] + [x.replace('@src@', S).replace('@dst@', D) for x in cfg]
        if not trunc and kind not in ('same', 'dirsrc'):
            c += ['blk ' + y for y in ('src', 'dst') if r.random() < 0.3]
        closed, env = rnd_stdio(r)
        x = call('patchdd', argv, d, c, asan=asan, timeout=120, closed=closed, env=env)
        ev, bp = [], 0
        for l in x['log']:
            f = l.split(' ')
            if f[0] == 'W':
                off, k = int(f[2]), int(f[3])
                b = x['bin'][bp:bp + k] if k > 0 else b''
                bp += max(k, 0)
                if f[1] != 'dst':
                    ev.append(dict(e='wsrc'))
                elif k > 0:
                    ev.append(dict(e='w', off=off, len=k, data=b == src[off:off + k]))
            elif f[0] in ('RE', 'WE') and f[4] != '4':
                ev.append(dict(e='fault'))
            elif f[0] == 'SYNC' and f[1] == 'dst':
                ev.append(dict(e='sync', ok=not any(y.startswith('fsyncerr') for y in c)))
            elif f[0] == 'KILL':
                ev.append(dict(e='kill'))
            elif f[0] == 'A' and trunc:
                ev.append(dict(e='fault'))
            elif f[0] == 'MOD' or f[0] in ('OW', 'OC') and not f[2].startswith('/dev/'):
                ev.append(dict(e='modified'))
        rd = lambda p: open(p, 'rb').read() if os.path.isfile(p) else None
        now, snow = rd(D), rd(S)
        fired = any(l.startswith('A ') for l in x['log'])
        nn = now if now is not None else b''
        same = now == (dst if kind != 'nodst' else None)
        # a file cut short by the script cannot be compared as a whole
        rest = (len(nn) == len(dst) and nn[n:] == dst[n:]) or fired or kind == 'nodst'
        srcok = fired or kind in ('same', 'dirsrc') or snow == (src if kind != 'nosrc' else None)
        ev.append(dict(e='exit', rc=arc(x), copied=nn[:n] == src and len(nn) >= n, rest=rest, src=srcok, same=same or fired, killed=x['killed']))
        return dict(n=sizes[0], m=sizes[1], args=args, first=first, ev=ev), 'sizes %d %d, differences at %s, %s %s, closed %s, exit %d\n%s' % (
            n, len(dst), str(diffs)[:200], cfg, kind, closed, x['rc'], x['err'][-300:])
    finally:
        shutil.rmtree(d)


# ---- beyond 4 GiB: sparse files; blocks in which nothing is to be done are left out of the trace

def big_items(r, n):
    out = []
    for q in range(n):
        size = r.choice([(1 << 32) + r.choice([1, 5000, MIB, 3 * MIB + 77]), (1 << 32) + (1 << 31) + 12345, (1 << 31) + 3 * MIB + 9])
        if q % 4 == 0:
            size = (1 << 32) + 3 * MIB + 77
        if q % 4 == 3:
            size = 64 * MIB + 5
        extra = r.choice([0, 0, 1, MIB, (1 << 32)])
        at = [0, size - 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 5, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, r.randrange(size), r.randrange(size), max(0, size - MIB - 1)]
        diffs = r.sample([x for x in at if x < size], r.choice([0, 1, 2, 4])) + [size - 1 - r.randrange(min(size >> 1, 3000))] * (q % 4 < 2)
        out.append((r.getrandbits(30), size, size + extra, sorted(set(diffs))))
    return out


def run_big(it):
    seed, n, m, diffs = it
    r = random.Random(seed)
    d = scratchdir()
    try:
        S, D = os.path.join(d, 'src'), os.path.join(d, 'dst')
        some = sorted({x // MIB for x in diffs} | {0, (n - 1) // MIB})      # the blocks kept
        num = {b: k for k, b in enumerate(some)}
        src, dst = {}, {}
        for b in some:
            ln = min(MIB, n - b * MIB)
            src[b] = r.randbytes(ln)
            x = bytearray(src[b])
            for z in diffs:
                if z // MIB == b:
                    x[z % MIB] ^= r.choice([1, 0x80])
            dst[b] = bytes(x)
        for p, sz, c in ((S, n, src), (D, m, dst)):
            with open(p, 'wb') as f:
                f.truncate(sz)
                for b in some:
                    f.seek(b * MIB)
                    f.write(c[b])
        first, skipped = [], 0
        for b in some:
            z = [x for x in diffs if x // MIB == b]
            first.append(num[b] * MIB + (z[0] % MIB if z else len(src[b])))
            skipped += (z[0] % MIB if z else len(src[b]))
        skipped += n - sum(len(src[b]) for b in some)
        x = call('patchdd', [S, D], d, ['file src ' + S, 'file dst ' + D], timeout=300)
        ev, bp = [], 0
        for l in x['log']:
            f = l.split(' ')
            if f[0] == 'W':
                off, k = int(f[2]), int(f[3])
                b = x['bin'][bp:bp + k] if k > 0 else b''
                bp += max(k, 0)
                if f[1] != 'dst':
                    ev.append(dict(e='wsrc'))
                elif k > 0:
                    q, o = divmod(off, MIB)
                    ev.append(dict(e='w', off=num[q] * MIB + o if q in num else 0, len=k, data=q in num and b == src[q][o:o + k]))
            elif f[0] in ('RE', 'WE') and f[4] != '4':
                ev.append(dict(e='fault'))
            elif f[0] == 'SYNC' and f[1] == 'dst':
                ev.append(dict(e='sync', ok=True))
            elif f[0] == 'MOD' or f[0] in ('OW', 'OC') and not f[2].startswith('/dev/'):
                ev.append(dict(e='modified'))
        ok = {}
        for p, sz in ((S, n), (D, m)):
            good = os.path.getsize(p) == sz
            with open(p, 'rb') as f:
                for b in some:
                    f.seek(b * MIB)
                    good = good and f.read(len(src[b])) == src[b]
                    rest = f.read((b + 1) * MIB - f.tell()) if f.tell() < (b + 1) * MIB else b''
                    good = good and not rest.strip(b'\0')
                o = 0           # everything else is empty
                while good and o < sz:
                    try:
                        o = os.lseek(f.fileno(), o, os.SEEK_DATA)
                    except OSError:
                        break
                    b = o // MIB
                    if b not in num:
                        f.seek(o)
                        good = not f.read((b + 1) * MIB - o).strip(b'\0')
                    o = (b + 1) * MIB
            ok[p] = good
        ev.append(dict(e='exit', rc=arc(x), copied=ok[D], rest=ok[D], src=ok[S], same=False, killed=False))
        nn = num[some[-1]] * MIB + len(src[some[-1]])
        return dict(n=nn, m=nn + min(m - n, MIB), args=True, first=first, ev=ev, blocks=(n + MIB - 1) // MIB, skipped=str(skipped)), \
            'sizes %d %d, differences at %s, exit %d\n%s' % (n, m, diffs, x['rc'], x['err'][-300:])
    finally:
        shutil.rmtree(d)

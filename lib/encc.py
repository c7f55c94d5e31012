"""C15: encryption of chunks."""
import random
import re
from prog import *

HEX = b'0123456789abcdef'


def samples(r, inp, out, base=0, n=3):
    """[(offset, in, out)] within blocks of 64 bytes counted from -base"""
    L = len(inp)
    if not L or len(out) != L:
        return []
    blocks = {0, L - 1} | {r.randrange(L) for _ in range(n - 2)}
    o = []
    for p in sorted(blocks):
        b = (base + p) // 64 * 64 - base
        a, e = max(0, b), min(L, b + 64)
        o.append((a, list(inp[a:e]), list(out[a:e])))
    return [dict(p=a, **{'in': i, 'out': u}) for a, i, u in dict((x[0], x) for x in o).values()]


# ------------------------------------------------------------ the functions

def api_items(r, n):
    out = []
    for q in range(n):
        ops, key = [], r.choice([r.randbytes(32), r.randbytes(32), bytes(32), b'\xff' * 32, bytes(range(32))])
        ids = [r.choice([r.randbytes(24), r.randbytes(24), b'\xff' * 24, bytes(24)]) for _ in range(2)]
        ids.append(ids[0][:16] + r.randbytes(8))
        ids.append(r.randbytes(16) + ids[0][16:])
        for _ in range(r.randint(1, 4)):
            ops.append(('R', r.choice(ids)))
            for _ in range(r.randint(0, 4)):
                ops.append(('D', r.choice([1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 255, 256, 257, 511, 512, 513,
                                           1000, 1023, 1024, 4096, 5000, r.randint(1, 3000), 16384, 65536 if r.random() < 0.2 else 300])))
        if q % 40 == 0:
            ops += [('R', ids[0]), ('D', 4 << 20), ('D', 5), ('D', 1 << 20)]
        out.append((key, ops, r.getrandbits(30)))
    return out


def run_api(it):
    key, ops, seed = it
    r = random.Random(seed)
    d = scratchdir()
    try:
        s, ins = b'K' + key, []
        for k, v in ops:
            if k == 'R':
                s += b'R' + v
            else:
                b = r.randbytes(v)
                ins.append(b)
                s += b'D%d %d\n' % (v, r.random() < 0.5) + b
        x = call('crypth', [os.path.join(d, 'out')], d, stdin=s, shim=False)
        res = [l.split() for l in x['out'].decode().splitlines()]
        data = open(os.path.join(d, 'out'), 'rb').read() if os.path.exists(os.path.join(d, 'out')) else b''
        ev, p, k, id_, pos = [], 0, 0, None, 0
        for (o, v), q in zip(ops, res[1:]):
            if o == 'R':
                ev.append(dict(e='restart', id=list(v), rc=int(q[1])))
                id_, pos = v, 0
            else:
                i, u = ins[k], data[p:p + v]
                k += 1
                p += v
                want = xchacha(key, id_, bytes(pos) + i)[pos:]
                ev.append(dict(e='do', n=v, rc=int(q[1]), agree=u == want, s=samples(r, i, u, pos)))
                pos += v
        if x['rc'] != 0 or len(res) != len(ops) + 1:
            ev.append(dict(e='crash'))
        return dict(key=list(key), form='', text=[], there=False, ev=ev), 'key %s, operations %s, status %d %s' % (
            key.hex(), [(o, v if o == 'D' else v.hex()) for o, v in ops], x['rc'], x['err'][-300:])
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------ keys

def key_text(r, key, q):
    """(form, text, there)"""
    h = key.hex().encode()
    if r.random() < 0.3:
        h = bytes(c - 32 if 97 <= c <= 102 and r.random() < 0.5 else c for c in h)
    form = r.choice(['key', 'env', 'file', 'file'])
    k = r.random()
    t = h
    if k < 0.3:
        pass
    elif k < 0.55:
        # one character is no digit: all bytes are tried in turn
        c = q % 256
        if form != 'file' and c == 0:
            form = 'file'
        p = r.choice([0, 1, 31, 62, 63, r.randrange(64), r.randrange(64)])
        t = h[:p] + bytes([c]) + h[p + 1:]
        if r.random() < 0.15:
            t = bytes([c or 16]) * 64
    elif k < 0.7:
        n = r.choice([0, 1, 2, 31, 32, 33, 62, 63, 63, 65, 65, 66, 66, 96, 127, 128, 128, 129, 256])
        t = (h * 5)[:n]
    elif k < 0.8:
        t = r.choice([b'0x', b' ', b'\n', b'\r\n', b'\t', b'key:', b'"', b'\xef\xbb\xbf']) + h
        if r.random() < 0.3:
            t = t[:64]
    elif k < 0.9:
        t = h + r.choice([b' ', b'\t', b'\x0b', b'x', b'#', b'0', b'\n0', b'\n\n#', b'\nfoo\n', b'\r\n ' if form == 'file' else b' ', h])
    else:
        p = r.randrange(1, 64)
        t = h[:p] + r.choice([b'\n', b'\r\n', b'\n\n', b':', b' ', b'-']) + h[p:]
    if form == 'file':
        t += r.choice([b'', b'\n', b'\n', b'\r\n', b'\r', b'\n\n', b'\n\r', b'\r\n\r\n\n', b'\n \n', b'\0', b'\n\0', b'\0\n' if r.random() < 0.3 else b'\n'])
    there = form == 'key' or r.random() < 0.96
    if r.random() < 0.03:
        form = r.choice(['none', 'KEY', 'hex', ''])
    return form, t, there


def key_args(form, text, there, d):
    """-> (keyspec bytes, env)"""
    if form == 'key':
        return b'key:' + text, {}
    if form == 'env':
        return b'env:THE_KEY', ({b'THE_KEY': text} if there else {})
    if form == 'file':
        p = os.path.join(d, 'key')
        if there:
            wfile(p, text)
        return b'file:' + os.fsencode(p), {}
    return {'none': b'x' + text, 'KEY': b'KEY:' + text, 'hex': b'hex:' + text, '': b''}[form], {}


def fix(form, t):
    """what cannot be passed on"""
    return form == 'file' or b'\0' not in t


def tool_items(r, n, asan=False):
    out = []
    q = 0
    while len(out) < n:
        q += 1
        key = r.choice([r.randbytes(32), r.randbytes(32), bytes(r.choice([0, 1, 0x0a, 0xa0]) for _ in range(32))])
        kt = key_text(r, key, q)
        if fix(kt[0], kt[1]):
            out.append((key, kt, r.choice(['out', 'derive', 'list', 'list', 'stdout']), r.getrandbits(30), asan))
    return out


def run_tool(it):
    key, (form, text, there), mode, seed, asan = it
    r = random.Random(seed)
    d = scratchdir()
    try:
        spec, env = key_args(form, text, there, d)
        t = text.rstrip(b'\r\n') if form == 'file' else text
        if len(t) == 64 and all(c in b'0123456789abcdefABCDEF' for c in t):
            key = bytes.fromhex(t.decode())     # for the comparison of what is not sampled
        cfg = []
        if form == 'file' and r.random() < 0.3:
            cfg = ['file key ' + os.path.join(d, 'key'), 'iopat key r short %d' % r.choice([1, 7, 63, 64])]
        n = r.randint(1, 4) if mode == 'list' else 1
        files = []
        for k in range(n):
            id_ = r.choice([r.randbytes(32)] * 4 + [files[0][0]] if files else [r.randbytes(32)])
            sub = os.path.join(d, 'd%d' % k)
            enc = r.random() < 0.5
            p = os.path.join(sub, id_.hex() + '.cacnk' + ('.enc' if enc else ''))
            b = r.randbytes(r.choice([1, 2, 63, 64, 65, 100, 1000, 4096, 5000, 70000, 300000 if r.random() < 0.3 else 10]))
            wfile(p, b)
            o = os.path.join(d, 'out') if mode == 'out' else p[:-4] if enc else p + '.enc'
            files.append((id_, p, b, o))
        argv = ['crypt', spec]
        if mode != 'list':
            argv.append(files[0][1])
        if mode in ('out', 'stdout'):
            argv.append(files[0][3] if mode == 'out' else '-')
        x = call('csn-tool', argv, d, cfg, env=env, asan=asan, stdin=''.join(f[1] + '\n' for f in files).encode() if mode == 'list' else b'')
        ev = []
        for id_, p, b, o in files:
            got = x['out'] if mode == 'stdout' else open(o, 'rb').read() if os.path.exists(o) else b''
            made = bool(got) if mode == 'stdout' else os.path.exists(o)
            ev.append(dict(e='file', id=list(id_), made=made, same=os.path.exists(p) and open(p, 'rb').read() == b,
                           agree=got == xchacha(key, id_[:24], b), s=samples(r, b, got, 0) if made else []))
            if made and len(got) != len(b):
                ev[-1]['agree'] = False
        ev.append(dict(e='exit', rc=arc(x)))
        return dict(key=list(key), form=form, text=list(text), there=there, ev=ev), 'key %r as %s (%s), %s, exit %d\n%s' % (
            text, form, there, mode, x['rc'], x['err'][-400:])
    finally:
        shutil.rmtree(d)


def large_items(r, n):
    return [(r.randbytes(32), r.randbytes(32), (1 << 32) + r.choice([1, 64, 100, 4096, 1 << 20, 123456789]), r.getrandbits(30)) for _ in range(n)]


def room():
    """a file of 4 GiB takes 9 GB of memory"""
    m = int(re.search(r'MemAvailable: *(\d+)', open('/proc/meminfo').read()).group(1)) >> 20
    v = os.statvfs(T.scratch())
    return m >= 14 and v.f_bavail * v.f_frsize > 6 << 30


def run_large(it):
    key, id_, size, seed = it
    r = random.Random(seed)
    d = scratchdir()
    try:
        p, o = os.path.join(d, id_.hex() + '.cacnk'), os.path.join(d, 'out')
        at = sorted({0, 1, 100, 1 << 30, (1 << 30) - 1, (1 << 31) - 1, 1 << 31, 3 << 30, (1 << 32) - 1, size - 1, size - (1 << 32), (size - (1 << 32)) + 64}
                    | {r.randrange(size) for _ in range(8)} | {min(size - 1, (1 << 32) + k) for k in (0, 63, 64, 5000)})
        with open(p, 'wb') as f:
            f.truncate(size)
            for a in at:
                f.seek(a)
                f.write(r.randbytes(min(5, size - a)))
        x = call('csn-tool', ['crypt', 'key:' + key.hex(), p, o], d, ['file in ' + p], timeout=300)
        made, s = os.path.exists(o), []
        agree = made and os.path.getsize(o) == size
        if agree:
            with open(p, 'rb') as f, open(o, 'rb') as g:
                for b in sorted({a // 64 for a in at}):
                    f.seek(b * 64)
                    g.seek(b * 64)
                    s.append({'b': b, 'o': 0, 'in': list(f.read(64)), 'out': list(g.read(64))})
        if x['rc'] == -9:       # memory has run out after all
            return dict(key=list(key), form='key', text=list(key.hex().encode()), there=True, ev=[]), ''
        ev = [dict(e='large', id=list(id_), made=made, same=os.path.getsize(p) == size, agree=agree, s=s), dict(e='exit', rc=arc(x))]
        return dict(key=list(key), form='key', text=list(key.hex().encode()), there=True, ev=ev), 'file of %d bytes, exit %d\n%s' % (size, x['rc'], x['err'][-300:])
    finally:
        shutil.rmtree(d)


def csn_items(r, n):
    out = []
    q = 7
    while len(out) < n:
        q += 3
        key = r.randbytes(32)
        kt = key_text(r, key, q)
        if kt[0] in ('none', '') or (kt[0] != 'file' and b'#' in kt[1]):
            continue
        if fix(kt[0], kt[1]):
            out.append((key if r.random() < 0.93 else r.randbytes(32), kt, r.choice(['csn', 'casync', 'last']), r.getrandbits(30)))
    return out


def run_csn(it):
    key, (form, text, there), app, seed = it
    r = random.Random(seed)
    d = scratchdir()
    try:
        J = lambda *a: os.path.join(d, *a)
        spec, env = key_args(form, text, there, d)
        datas = [r.randbytes(r.choice([48, 100, 1000, 40000])) for _ in range(r.randint(1, 3))]
        os.makedirs(J('srv'))
        os.makedirs(J('srv2'))
        for x in datas:
            b = zstd_raw(x, 300)
            wfile(J('srv', sha(x).hex() + '.cacnk.enc'), xchacha(key, sha(x)[:24], b))
            wfile(J('srv2', sha(x).hex() + '.cacnk'), b)
        before = r.randbytes(100)
        wfile(J('t'), before)
        wfile(J('i'), caibx([(len(x), sha(x)) for x in datas], (16, 100, 200)))
        cfg = ['store 1 http://h', 'dir 1 ' + J('srv'), 'store 2 http://g', 'dir 2 ' + J('srv2')]
        pieces = ','.join(str(r.choice([1, 3, 18, 64, 100, 1000])) for _ in range(20)) if r.random() < 0.7 else '0'
        cfg += ['def 1 ok 0 200 0 -1 @ok ' + pieces, 'def 2 ok 0 200 0 -1 @ok 0']
        arg = b'http://h#encrypt=' + spec
        stores = [arg]
        argv = [J('i'), J('t')] + stores if app == 'csn' else ['--store', arg, 'extract', J('i'), J('t')]
        if app == 'last':
            argv = [J('i'), J('t'), 'http://g', arg]
        x = call('casync' if app == 'casync' else 'csn', argv, d, cfg, env=env)
        img = b''.join(datas)
        now = open(J('t'), 'rb').read()
        asked = any(l.startswith('Q ') for l in x['log'])
        if app == 'last':
            # the other store has everything: what counts is whether the key is accepted
            ok = x['rc'] == 0 and now[:len(img)] == img
            t = dict(key=list(bytes.fromhex('00' * 32)), form=form, text=list(text), there=there, ev=[])
            t['ev'] = [dict(e='gate', rc=arc(x), asked=asked, done=ok, same=now == before)]
        else:
            t = dict(key=list(key), form=form, text=list(text), there=there,
                     ev=[dict(e='csn', rc=arc(x), asked=asked, held=now[:len(img)] == img)])
            if not t['ev'][0]['held'] and now != before:
                t['ev'].append(dict(e='touched'))
        return t, 'key %r as %s (%s), app %s, exit %d, asked %s\n%s' % (text, form, there, app, x['rc'], asked, x['err'][-400:])
    finally:
        shutil.rmtree(d)

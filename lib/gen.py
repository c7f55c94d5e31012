"""Generators of scenarios for the extraction engine."""
import random
from common import *
from csn import *

P = (64, 128, 512)


class Pool:
    """Chunks as the casync chunker cuts them with given parameters."""

    def __init__(self, seed, params=P, n=40, size=30000):
        r = random.Random(seed)
        data = r.randbytes(size)
        self.params = params
        ch = [data[o:o + l] for o, l in ref_chunks(data, params)][:-1]
        seen, self.chunks = set(), []
        for c in ch:
            if c not in seen and len(self.chunks) < n:
                seen.add(c)
                self.chunks.append(c)
        # remainders: no boundary inside
        self.tails = []
        while len(self.tails) < 6:
            t = r.randbytes(r.choice([1, 2, 17, 47, 48, 49, 63, 100]))
            if len(ref_chunks(t, params)) == 1:
                self.tails.append(t)

    def ids(self, n, off=0):
        return [(sha(c), c) for c in self.chunks[off:off + n]]


def nearmiss(h, bit):
    b = bytearray(h)
    b[bit // 8] ^= 1 << (bit % 8)
    return bytes(b)


def entries_of(ids, seq):
    return [(i, len(ids[i - 1][1])) for i in seq]


def image_of(ids, seq):
    return b''.join(ids[i - 1][1] for i in seq)


# ------------------------------------------------------------ http answers

HTML = b'<html><head><title>404 Not Found</title></head></html>\n'


def pieces(r, n=400):
    m = r.random()
    if m < 0.35:
        return '0'
    if m < 0.5:
        return '1'
    if m < 0.6:
        return str(r.choice([2, 3, 4, 5, 7]))
    if m < 0.8:
        return ','.join(str(r.randint(1, 9)) for _ in range(r.randint(1, 5))) + ',%d' % r.choice([1, 50, 1000])
    return ','.join(str(r.randint(1, max(1, n))) for _ in range(4))


ERR_STATUS = [400, 401, 403, 405, 406, 407, 408, 409, 411, 412, 416, 418, 429, 451, 499, 500, 501, 502, 503, 504, 507, 511, 599]
NON200 = [201, 202, 203, 204, 206, 226, 300, 304, 399]
CONN = [7, 6, 28]
FATAL = [3, 5, 16, 18, 35, 47, 52, 55, 56, 60, 92]


def right_body(ids, n, enc, comp=None):
    h, d = ids[n - 1]
    b = body_of(d, comp)
    return xchacha(enc, h, b) if enc else b


def bad_answer(r, ids, enc, n=None):
    """an answer with status 200 that does not carry the chunk asked for. n: id asked for, if known
    (for encrypted stores, bodies can only be crafted if it is)"""
    kinds = ['empty', 'tiny', 'html', 'magic', 'plain', 'garbage']
    if enc is None or n is not None:
        kinds += ['other', 'trunc', 'flip', 'empty-frame', 'longer', 'shorter', 'over', 'tail', 'twice']
    k = r.choice(kinds)
    other = lambda: ids[r.randrange(len(ids))][1] or b'x'
    E = (lambda b: xchacha(enc, ids[n - 1][0], b)) if enc else (lambda b: b)
    if k == 'empty':
        return 'baddata', b''
    if k == 'tiny':
        return 'baddata', E(b'\x28\xb5\x2f\xfd'[:r.randint(1, 3)]) if enc is None or n is not None else b'ab'
    if k == 'html':
        return 'baddata', HTML * r.choice([1, 1, 5, 100])
    if k == 'magic':
        # encrypted stores: does not even decrypt to the magic number
        return 'baddata', (b'\x28\xb5\x2f\xfd' if enc else b'') + b'\xff' * r.choice([10, 200])
    if k == 'plain':
        return 'baddata', other()
    if k == 'garbage':
        return 'baddata', b'\x00' + r.randbytes(r.choice([3, 60, 3000]))
    d = ids[n - 1][1] if n is not None else other()
    if k == 'other':
        if n is None:
            return 'badsum', zstd(r.randbytes(77))
        return 'badsum', E(zstd(bytes([d[0] ^ 1]) + d[1:]))
    if k == 'trunc':
        b = zstd_raw(d, 31)
        return 'badsum', E(b[:r.randint(9, len(b) - 1)])
    if k == 'flip':
        x = bytearray(d)
        p = r.randrange(len(x))
        x[p] ^= 1 << r.randrange(8)
        return 'badsum', E(zstd(bytes(x)))
    if k == 'empty-frame':
        return 'badsum', E(zstd(b''))
    if k == 'longer':
        return 'badsum', E(zstd(d + b'\x00'))
    if k == 'tail':
        return 'baddata', E(zstd(d) + b'\0' + r.randbytes(r.choice([8, 100, 20000])))
    if k == 'twice':
        return 'badany', E(zstd(d) + zstd(d))
    if k == 'shorter':
        return 'badsum', E(zstd(d[:-1]))
    if k == 'over':
        return 'badany', E(zstd(d + r.randbytes(300000)))


def answer(r, o, ids, enc, n=None):
    if o == 'ok':
        return resp('ok', body='@ok', pieces=pieces(r), redir=r.random() < 0.1)
    if o == 'miss':
        b = r.choice([None, HTML, '@valid'])
        if b == '@valid':
            m = n or 1
            b = right_body(ids, m, enc) if ids[m - 1][1] is not None else HTML
        return resp('miss', status=r.choice([404, 410]), body=b, pieces=pieces(r), redir=r.random() < 0.1)
    if o == 'err':
        b = r.choice([None, HTML, '@valid'])
        if b == '@valid':
            m = n or 1
            b = right_body(ids, m, enc) if ids[m - 1][1] is not None else HTML
        return resp('err', status=r.choice(ERR_STATUS), body=b, pieces=pieces(r), redir=r.random() < 0.1)
    if o == 'conn':
        if r.random() < 0.5:
            return resp('conn', code=r.choice(CONN))
        return resp('conn', code=28, stall=r.choice([0, 1, 3, 4, 5, 9, 30, 60]), body='@ok', pieces=pieces(r))
    if o == 'fatal':
        if r.random() < 0.5:
            return resp('fatal', code=r.choice(FATAL))
        return resp('fatal', code=r.choice([18, 52, 56, 92]), stall=r.choice([0, 1, 5, 20]), body='@ok', pieces=pieces(r))
    if o == 'bad':
        if r.random() < 0.25:
            # not a 200, but with a body that would be right
            m = n or 1
            b = right_body(ids, m, enc) if ids[m - 1][1] is not None else HTML
            return resp('baddata', status=r.choice(NON200), body=r.choice([b, None]), pieces=pieces(r))
        t, b = bad_answer(r, ids, enc, n)
        return resp(t, body=b, pieces=pieces(r), redir=r.random() < 0.1)
    raise ValueError(o)


# a store answers that it does not have what "@ok" asks for: the tag of the
# answer is turned into "miss" by the shim, also for stalled transfers

def rnd_http(r, ids, faulty=0.3, full=False, enc=None, n_script=12):
    real = [n for n, (h, d) in enumerate(ids, 1) if d is not None]
    have = set(real) if full else set(n for n in real if r.random() < 0.7)
    script = []
    if r.random() < faulty * 2:
        for _ in range(r.randint(1, n_script)):
            o = 'ok' if r.random() > faulty else r.choice(['miss', 'err', 'err', 'conn', 'conn', 'bad', 'bad', 'fatal' if r.random() < 0.3 else 'conn'])
            script.append(answer(r, o, ids, enc))
    if enc is None and r.random() < 0.15:
        enc = r.randbytes(32)
        script = [x for x in script if x['o'] in ('ok', 'miss', 'err', 'conn', 'fatal') and not isinstance(x['body'], bytes)]
    return http(have, script, enc=enc, comp=r.choice([None, None, 'raw', 'sum', 'nosize', 'max']))


# ------------------------------------------------------------ local stores

def local_content(r, ids, pool, which=None, tail=True, junk=0.2):
    if which is None:
        which = [n for n, (h, d) in enumerate(ids, 1) if d is not None and r.random() < 0.5]
        r.shuffle(which)
    parts = []
    for n in which:
        if r.random() < junk:
            parts.append(r.choice(pool.chunks[-8:]))
        parts.append(ids[n - 1][1])
    b = b''.join(parts)
    if tail and r.random() < 0.5:
        b += r.choice(pool.tails)
    return b


def side_of(content, params):
    return caibx([(l, sha(content[o:o + l])) for o, l in ref_chunks(content, params)], params)


def wrong_side(r, content, ids, params):
    """(index, usable): a side-loaded index that is wrong in some way"""
    cs = [(l, sha(content[o:o + l])) for o, l in ref_chunks(content, params)]
    real = [h for h, d in ids]
    k = r.choice(['swap', 'stale', 'oob', 'huge', 'zero', 'params', 'params', 'params', 'trunc', 'magic', 'shift', 'missing', 'empty', 'near', 'dup'])
    if k == 'swap' and len(cs) > 1:
        a, b = r.sample(range(len(cs)), 2)
        cs[a], cs[b] = (cs[a][0], cs[b][1]), (cs[b][0], cs[a][1])
        return caibx(cs, params), True
    if k == 'stale' and cs:
        cs = [(l, r.choice(real) if r.random() < 0.6 else h) for l, h in cs]
        return caibx(cs, params), True
    if k == 'oob':
        cs += [(r.randint(1, 400), h) for h in r.sample(real, min(3, len(real)))]
        return caibx(cs, params), True
    if k == 'huge':
        cs.insert(r.randint(0, len(cs)), (r.choice([BUFSIZE + 1, BUFSIZE * 5, 2**31, 2**32 - 1]), r.choice(real)))
        return caibx(cs, params), True
    if k == 'zero':
        cs.insert(r.randint(0, len(cs)), (r.choice([0, 2**32, -5]), r.choice(real)))
        return caibx(cs, params), False
    if k == 'params':
        # made with other chunk sizes: with the chunks of those, or with some or none of the right ones
        q = list(params)
        j = r.randrange(3)
        q[j] = max(1, q[j] + r.choice([1, -1, 1, -1, 10, -10, q[j], -q[j] // 2]))
        if tuple(q) == tuple(params):
            q[j] += 1
        m = r.random()
        if m < 0.4 and q[0] <= q[1] <= q[2]:
            cs = [(l, sha(content[o:o + l])) for o, l in ref_chunks(content, q)]
        elif m < 0.9:
            cs = [(l, h if r.random() < 0.5 else sha(b'x')) for l, h in cs]
        return caibx(cs, tuple(q)), False
    if k == 'trunc':
        b = caibx(cs, params)
        return b[:r.randrange(len(b))], False
    if k == 'magic':
        b = bytearray(caibx(cs, params))
        b[r.choice([8, 15, 56, 60])] ^= 1 << r.randrange(8)
        return bytes(b), False
    if k == 'shift' and cs:
        cs[0] = (cs[0][0] + r.choice([1, -1, 5]), cs[0][1])
        return caibx(cs, params), True
    if k == 'missing':
        return False, False
    if k == 'empty':
        return caibx([], params), True
    if k == 'near' and cs:
        j = r.randrange(len(cs))
        cs[j] = (cs[j][0], nearmiss(cs[j][1], r.randrange(256)))
        return caibx(cs, params), True
    return caibx(cs, params), True


def rnd_local(r, ids, pool, side=0.3, full=False):
    which = None
    if full:
        which = [n for n, (h, d) in enumerate(ids, 1) if d is not None]
        r.shuffle(which)
    c = local_content(r, ids, pool, which)
    if r.random() < side:
        if r.random() < 0.4:
            return local(c, side_of(c, pool.params))
        s, ok = wrong_side(r, c, ids, pool.params)
        return local(c, s, side_ok=ok)
    return local(c)


# ------------------------------------------------------------ target

def mangle(r, d):
    k = r.choice(['junk', 'flip', 'zero', 'half', 'last', 'first'])
    if not d:
        return d
    if k == 'junk':
        return bytes([d[0] ^ 255]) + r.randbytes(len(d) - 1)
    if k == 'flip':
        b = bytearray(d)
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        return bytes(b)
    if k == 'zero' and any(d):
        return bytes(len(d))
    if k == 'half':
        c = r.randint(0, len(d) - 1)
        return d[:c] + bytes([d[c] ^ 255]) + r.randbytes(len(d) - c - 1)
    if k == 'last':
        return d[:-1] + bytes([d[-1] ^ 0x80])
    return bytes([d[0] ^ 1]) + d[1:]


def slot_fill(ids, e):
    i, l = e
    d = ids[i - 1][1]
    if d is None:
        d = b'\x55' * min(l, 4096)
    l = min(l, 1 << 20)
    return (d + bytes(l))[:l]


def rnd_target(r, ids, entries, prefix=None, ok=0.3):
    n = len(entries)
    if prefix is None:
        prefix = r.choice([0, 0, r.randint(0, n), n, max(0, n - 1)])
    b = b''
    for p, e in enumerate(entries):
        d = slot_fill(ids, e)
        if p < prefix or (p > prefix and r.random() < ok):
            b += d
        elif p == prefix or r.random() < 0.8:
            b += mangle(r, d)
        else:
            o = slot_fill(ids, r.choice(entries))
            b += (o + bytes(len(d)))[:len(d)]
    k = r.random()
    if k < 0.15:
        b = b[:r.randint(0, len(b))]
    elif k < 0.2:
        b = b''
    elif k < 0.6:
        b += r.randbytes(r.choice([1, 10, 4096]))
    return b


def rnd_seq(r, nid, maxlen=12):
    k = r.random()
    n = r.randint(1, maxlen)
    if k < 0.3:
        return [r.randint(1, nid) for _ in range(n)]
    if k < 0.55:
        s = []
        while len(s) < n:
            s += [r.randint(1, nid)] * r.randint(1, 4)
        return s[:n]
    if k < 0.75:
        a, b = r.randint(1, nid), r.randint(1, nid)
        return [(a, b)[j % 2] for j in range(n)]
    s = list(range(1, nid + 1))
    r.shuffle(s)
    return s[:n]


def io_noise(r, stores):
    """short and interrupted transfers, which must not change anything"""
    cfg = []
    cl = ['target', 'index'] + ['store%d' % k for k in range(1, stores + 1)] + ['side%d' % k for k in range(1, stores + 1)]
    for c in cl:
        for op in 'rw':
            if r.random() < 0.4:
                cfg.append('iopat %s %s short %d' % (c, op, r.choice([1, 3, 7, 40, 41, 100])))
            if r.random() < 0.3:
                cfg.append('iopat %s %s eintr %d' % (c, op, r.choice([2, 3, 5])))
    return cfg


def rnd_stores(r, ids, pool, n=None, kinds=('http', 'http', 'local', 'local', 'target'), last_full=0.6, faulty=0.3):
    n = n or r.randint(1, 4)
    st = []
    for k in range(n):
        t = r.choice(kinds)
        full = k == n - 1 and r.random() < last_full
        if t == 'target' and any(s['t'] == 'target' for s in st):
            t = 'local'
        if t == 'target' and full:
            t = 'http'
        if t == 'http':
            st.append(rnd_http(r, ids, 0 if full and r.random() < 0.7 else faulty, full))
        elif t == 'local':
            st.append(rnd_local(r, ids, pool, full=full))
        else:
            st.append(target_store())
    return st


def rnd_scn(r, pool, name='random', nid=None, maxlen=12, runs=None, noise=0.3, kills=0.3, odd=0.0, faulty=0.3, **kw):
    nid = nid or r.randint(1, 7)
    ids = pool.ids(nid, r.randint(0, len(pool.chunks) - nid - 8))
    seq = rnd_seq(r, nid, maxlen)
    if r.random() < 0.3:
        ids.append((lambda t: (sha(t), t))(r.choice(pool.tails)))
        seq.append(len(ids))
    entries = entries_of(ids, seq)
    if r.random() < odd:
        p = r.randrange(len(entries))
        i, l = entries[p]
        entries[p] = (i, r.choice([0, 2**32, 2**33, BUFSIZE + 1, 2**32 - 1, l + 1, max(1, l - 1), 1]))
        if r.random() < 0.3:
            # an id nobody has, almost like one that exists
            ids.append((nearmiss(ids[i - 1][0], r.choice([0, 7, 8, 63, 64, 127, 128, 191, 192, 248, 255])), None))
            entries[p] = (len(ids), l)
    nr = runs or r.choice([1, 1, 1, 2, 3])
    rs = []
    for k in range(nr):
        st = rnd_stores(r, ids, pool, faulty=faulty, **kw)
        cfg = io_noise(r, len(st)) if r.random() < noise else []
        if k < nr - 1 or r.random() < 0.15:
            x = r.random()
            if x < kills * 0.7:
                cfg.append('io target w %d kill %d' % (r.randint(1, max(1, len(entries))), r.choice([0, 1, 10, 60, 100000])))
            elif x < kills:
                cfg.append('at req %d kill' % r.randint(1, 8))
            elif x < kills + 0.2:
                cfg.append('io target w %d err %d' % (r.randint(1, max(1, len(entries))), r.choice([5, 28, 30])))
        rs.append(rspec(st, cfg=cfg, app=r.choice(['csn', 'csn', 'csn', 'casync'])))
    sc = Scn(ids, entries, rnd_target(r, ids, entries), rs, params=pool.params, name=name)
    return sc

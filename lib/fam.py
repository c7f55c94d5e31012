"""Families of scenarios. Each takes (rng, n) and yields scenarios."""
import itertools
from gen import *

_pools = {}


def pool(params=P, n=40, size=30000, seed=5):
    k = (params, n, size, seed)
    if k not in _pools:
        _pools[k] = Pool(seed, params, n, size)
    return _pools[k]


POOLS = [(P, 40, 30000), ((48, 300, 1000), 40, 60000), ((100, 256, 300), 40, 40000), ((64, 65, 96), 40, 30000),
         ((1, 100, 700), 40, 30000)]


def rpool(r):
    p = r.choice(POOLS) if r.random() < 0.5 else POOLS[0]
    return pool(p[0], p[1], p[2], r.randint(1, 4))


def scn(ids, entries, target, runs, pl, name, **kw):
    return Scn(ids, entries, target, runs, params=pl.params, name=name, **kw)


# ------------------------------------------------------------ general

def random_(r, n):
    for i in range(n):
        yield rnd_scn(r, rpool(r), odd=0.12)


def clean_(r, n):
    """well-formed, well-behaved stores: extraction in all its variants has to succeed"""
    for i in range(n):
        yield rnd_scn(r, rpool(r), name='clean', faulty=0.0, noise=0.2, kills=0.0, last_full=1.0)


def faulty_(r, n):
    for i in range(n):
        yield rnd_scn(r, rpool(r), name='faulty', faulty=0.7, noise=0.1, kills=0.0, last_full=0.8, runs=1)


# ------------------------------------------------------------ verification of data

def near(r, n):
    """ids that are almost the id of the data some store offers"""
    for q in range(n):
        p = rpool(r)
        ids = p.ids(4, r.randint(0, 20))
        bit = (q % 32) * 8 + r.randrange(8)
        j = r.randint(1, 3)
        h, d = ids[j - 1]
        ids.append((nearmiss(h, bit), None))     # id 5
        k = r.choice(['http', 'http', 'enc', 'side', 'prefix', 'reuse', 'reuse2', 'known', 'scan', 'prefixlast', 'hold'])
        L = len(d)
        pre = [r.randint(1, 4) for _ in range(r.randint(0, 3))]
        E = entries_of(ids[:4], pre) + [(5, L)]
        junk = local(r.choice(p.tails))
        full = http({1, 2, 3, 4})
        tgt = r.randbytes(r.choice([0, 50, 2000]))
        if k in ('http', 'enc'):
            st = [http({1, 2, 3, 4}, serve={5: ('badsum', zstd(d))}, enc=r.randbytes(32) if k == 'enc' else None)]
            if r.random() < 0.5:
                st.append(http({1, 2, 3, 4}, serve={5: ('badsum', zstd(d))}))
        elif k == 'side':
            c = b''.join(ids[x - 1][1] for x in (2, 3, 1, 4))
            cs = [(l, sha(c[o:o + l])) for o, l in ref_chunks(c, p.params)]
            cs = [(l, ids[4][0] if hh == h else hh) for l, hh in cs]
            st = [local(c, caibx(cs, p.params)), full]
        elif k in ('prefix', 'prefixlast'):
            E = ([] if k == 'prefix' else E[:-1]) + [(5, L)] + ([] if k == 'prefix' else [])
            tgt = b''.join(d if i == 5 else ids[i - 1][1] for i, l in E)
            st = [full]
        elif k == 'reuse':
            E = entries_of(ids[:4], pre + [j]) + [(5, L)]
            st = [full]
        elif k == 'reuse2':
            E = entries_of(ids[:4], pre + [j, j]) + [(5, L)]
            st = [target_store(), full]
        elif k == 'known':
            E = entries_of(ids[:4], pre + [j, j % 3 + 1]) + [(5, L)]
            st = [target_store(), full]
        elif k == 'hold':
            # present in the target, later in the index
            E = entries_of(ids[:4], [4, j]) + [(5, L)]
            tgt = r.randbytes(E[0][1]) + d + d
            st = [target_store(), full]
        else:
            c = b''.join(ids[x - 1][1] for x in (2, 3, 1, 4))
            st = [local(c), full]
        yield scn(ids, E, tgt, [rspec(st, app=r.choice(['csn', 'casync']))], p, 'near-' + k)


def length_(r, n):
    """entries whose declared length is not that of the chunk; repeated ids with other lengths"""
    for q in range(n):
        p = rpool(r)
        ids = p.ids(4, r.randint(0, 20))
        seq = [r.randint(1, 4) for _ in range(r.randint(1, 6))]
        E = entries_of(ids, seq)
        for _ in range(r.randint(1, 2)):
            x = r.randrange(len(E))
            i, l = E[x]
            l2 = r.choice([max(l - 1, 0), l + 1, l // 2, l * 2, 1, BUFSIZE, BUFSIZE + 1, BUFSIZE + 2, l + 256, l + 65536, 2**31, 2**32 - 1, 0, 2**32 + l, l + 4])
            if r.random() < 0.5:
                E.insert(x + 1, (i, l2))
            else:
                E[x] = (i, l2)
        c = b''.join(ids[x][1] for x in range(4))
        st = [r.choice([http({1, 2, 3, 4}), local(c), local(c, side_of(c, p.params)), target_store()])]
        st.append(http({1, 2, 3, 4}))
        prefix = r.choice([None, len(E), 0])
        yield scn(ids, E, rnd_target(r, ids, E, prefix), [rspec(st)], p, 'length')


# ------------------------------------------------------------ prefix, resumption, crashes

def prefix_(r, n):
    for q in range(n):
        p = rpool(r)
        nid = r.randint(2, 6)
        ids = p.ids(nid, r.randint(0, 20))
        seq = rnd_seq(r, nid, r.choice([4, 10, 30]))
        E = entries_of(ids, seq)
        img = image_of(ids, seq)
        pf = r.randint(0, len(seq))
        off = sum(l for i, l in E[:pf])
        k = r.choice(['junk', 'short', 'shortin', 'near-first', 'near-last', 'near-mid', 'zero', 'shift', 'dev', 'exact', 'longer', 'hole'])
        t = bytearray(img)
        if k == 'junk':
            t[off:] = r.randbytes(len(img) - off)
        elif k == 'short':
            t = t[:off]
        elif k == 'shortin':
            t = t[:max(0, r.randint(off, len(img)) - r.choice([0, 1]))]
        elif k.startswith('near') and pf < len(seq):
            a = {'near-first': 0, 'near-last': E[pf][1] - 1}.get(k, r.randrange(E[pf][1]))
            t[off + a] ^= 1 << r.randrange(8)
        elif k == 'zero':
            t[off:] = bytes(len(img) - off)
        elif k == 'shift':
            t = t[:off] + b'\x00' + t[off:]
        elif k == 'longer':
            t += r.randbytes(r.choice([1, 511, 5000]))
        elif k == 'hole' and pf < len(seq):
            t[off:off + E[pf][1]] = bytes(E[pf][1])
        st = rnd_stores(r, ids, p, r.randint(1, 3), last_full=1.0, faulty=0.1)
        if r.random() < 0.4:
            st.insert(0, target_store()) if not any(s['t'] == 'target' for s in st) else None
        yield scn(ids, E, bytes(t), [rspec(st, app=r.choice(['csn', 'casync']))] * r.choice([1, 1, 2]), p, 'prefix-' + k)


def crash(r, n):
    """killed at every write, at every kind of partial write, at requests; then run again"""
    for q in range(n):
        p = rpool(r)
        nid = r.randint(1, 5)
        ids = p.ids(nid, r.randint(0, 20))
        seq = rnd_seq(r, nid, 8)
        E = entries_of(ids, seq)
        nr = r.choice([1, 1, 2, 3])
        runs = []
        for k in range(nr):
            st = rnd_stores(r, ids, p, r.randint(1, 3), last_full=0.8, faulty=0.2)
            w = r.randint(1, max(1, len(E) - k))
            L = E[min(w, len(E)) - 1][1]
            m = r.random()
            cfg = []
            if m < 0.5:
                cfg = ['io target w %d kill %d' % (w, r.choice([0, 1, L // 2, L - 1, L, 1 << 20]))]
            elif m < 0.6:
                cfg = ['at req %d kill' % r.randint(1, len(E) + 1)]
            elif m < 0.65:
                cfg = ['at reqend %d kill' % r.randint(1, len(E) + 1)]
            elif m < 0.75:
                cfg = ['io target w %d err %d' % (w, r.choice([5, 28, 30, 122]))]
            elif m < 0.9:
                cfg = ['iopat target w short %d' % r.choice([1, 10, 40, 100]),
                       'io target w %d %s' % (r.randint(1, 60), r.choice(['kill 3', 'kill 0', 'err 28', 'kill 100000']))]
            runs.append(rspec(st, cfg=cfg, app=r.choice(['csn', 'csn', 'casync'])))
        good = [http(set(range(1, nid + 1)))]
        if r.random() < 0.4:
            good.insert(0, target_store())
        if r.random() < 0.3:
            good.insert(0, rnd_local(r, ids, p))
        runs.append(rspec(good))
        yield scn(ids, E, rnd_target(r, ids, E), runs, p, 'crash')


def crash_all(r, n):
    """one small image, every write of the first run cut at every of several places"""
    out = 0
    while out < n:
        p = rpool(r)
        nid = r.randint(1, 4)
        ids = p.ids(nid, r.randint(0, 20))
        seq = rnd_seq(r, nid, 4)
        E = entries_of(ids, seq)
        tgt = rnd_target(r, ids, E, 0, 0.2)
        st = [http(set(range(1, nid + 1)))]
        if r.random() < 0.5:
            st = [target_store()] + st
        for w in range(1, len(E) + 1):
            L = E[w - 1][1]
            for c in (0, 1, L - 1, L):
                yield scn(ids, E, tgt, [rspec(st, cfg=['io target w %d kill %d' % (w, c)]), rspec(st)], p, 'crash-all')
                out += 1
                if out >= n:
                    return


# ------------------------------------------------------------ repetitions

def repeat(r, n):
    for q in range(n):
        p = rpool(r)
        nid = r.randint(1, 6)
        ids = p.ids(nid, r.randint(0, 20))
        seq = rnd_seq(r, nid, r.choice([6, 14, 30]))
        E = entries_of(ids, seq)
        full = http(set(range(1, nid + 1)))
        k = r.random()
        if k < 0.35:
            st = [full]
        elif k < 0.85:
            st = [target_store(), full]
            if r.random() < 0.3:
                st.insert(r.randint(0, 2), rnd_local(r, ids, p))
            if r.random() < 0.2:
                st.insert(1, rnd_http(r, ids, 0.3))
        else:
            st = [full, target_store(), full]
        yield scn(ids, E, rnd_target(r, ids, E), [rspec(st, app=r.choice(['csn', 'casync']))], p, 'repeat')


def many(r, n):
    """long indices: tables grow beyond what was estimated; few distinct bytes per entry"""
    for q in range(n):
        nid = r.choice([60, 130, 200, 257, 300])
        p = pool((64, 65, 96), 330, 40000)
        nid = min(nid, len(p.chunks) - 9)
        ids = p.ids(nid)
        seq = list(range(1, nid + 1))
        r.shuffle(seq)
        m = r.choice(['twice', 'interleave', 'once', 'pairs', 'reverse'])
        if m == 'twice':
            s2 = seq[:]
            r.shuffle(s2)
            seq = seq + s2
        elif m == 'interleave':
            out = []
            for a, x in enumerate(seq):
                out += [x, seq[r.randint(0, a)]]
            seq = out
        elif m == 'pairs':
            seq = [x for x in seq for _ in (0, 1)]
        elif m == 'reverse':
            seq = seq + seq[::-1]
        E = entries_of(ids, seq)
        k = r.choice(['target', 'target', 'local', 'side', 'both'])
        full = http(set(range(1, nid + 1)))
        if k == 'target':
            st = [target_store(), full]
        elif k == 'local':
            st = [local(b''.join(ids[x][1] for x in r.sample(range(nid), nid // 2))), full]
        elif k == 'side':
            c = b''.join(ids[x][1] for x in r.sample(range(nid), nid * 2 // 3))
            st = [local(c, side_of(c, p.params)), full]
        else:
            c = b''.join(ids[x][1] for x in range(nid))
            st = [target_store(), local(c)]
        pf = r.choice([0, len(E) // 2, len(E) - 1])
        yield scn(ids, E, rnd_target(r, ids, E, pf, 0.1), [rspec(st)], p, 'many-' + k + '-' + m)


def churn(r, n):
    """new chunks and recent ones alternate: the table of the target is searched between all insertions"""
    for q in range(n):
        nid = r.choice([9, 10, 12, 17, 18, 30, 50])
        p = pool((64, 65, 96), 330, 40000)
        ids = p.ids(nid, r.randint(0, 50))
        seq = []
        for x in range(1, nid + 1):
            seq.append(x)
            for _ in range(r.randint(0, 3)):
                seq.append(max(1, x - r.choice([0, 1, 1, 1, 2, 2, 3, 5, 8, 20])))
        if r.random() < 0.3:
            seq = [r.randint(1, nid) for _ in range(3 * nid)]
        E = entries_of(ids, seq)
        pf = r.choice([0, 0, r.randint(0, len(E))])
        yield scn(ids, E, rnd_target(r, ids, E, pf, 0.1),
                  [rspec([target_store(), http(set(range(1, nid + 1)))])], p, 'churn')


# ------------------------------------------------------------ store chain

def casync_argv(r, st, pure=None):
    """stores as options of casync: in one word or two, with options that are ignored in between"""
    a = []
    one = r.choice([True, False, None]) if pure is None else pure
    for k, s in enumerate(st, 1):
        o = r.choice(['--store', '--seed'])
        if one or (one is None and r.random() < 0.5):
            a += ['%s=@STORE%d' % (o, k)]
        else:
            a += [o, '@STORE%d' % k]
        if r.random() < 0.1:
            a += r.choice([['--seed-output=no'], ['--seed-output', 'yes']])
    return a + ['extract', '@IDX@', '@TGT@']


def chain(r, n):
    """several stores, each with its own mixture of answers; who is asked what and in which order"""
    for q in range(n):
        p = rpool(r)
        nid = r.randint(2, 7)
        ids = p.ids(nid, r.randint(0, 20))
        seq = rnd_seq(r, nid, 14)
        E = entries_of(ids, seq)
        ns = r.choice([2, 3, 4, 5, 9, 17])
        st = []
        for k in range(ns):
            m = r.random()
            some = set(x for x in range(1, nid + 1) if r.random() < 0.4)
            if m < 0.45:
                st.append(rnd_http(r, ids, r.choice([0, 0.3, 0.8]), n_script=8))
            elif m < 0.55:
                st.append(http(some, [answer(r, 'ok', ids, None) for _ in range(r.randint(0, 3))] + [answer(r, 'fatal', ids, None)]))
            elif m < 0.8:
                st.append(rnd_local(r, ids, p))
            elif m < 0.9 and not any(s['t'] == 'target' for s in st):
                st.append(target_store())
            else:
                st.append(http(some))
        if r.random() < 0.7:
            st.append(http(set(range(1, nid + 1))))
        app = r.choice(['csn', 'casync'])
        yield scn(ids, E, rnd_target(r, ids, E), [rspec(st, app=app, argv=casync_argv(r, st) if app == 'casync' else None)], p, 'chain')


def tiny(r, n):
    """empty and tiny images, targets and seeds, zero entries, very small and large seeds"""
    for q in range(n):
        p = rpool(r)
        nid = r.choice([0, 1, 1, 2, 3])
        ids = p.ids(max(nid, 1), r.randint(0, 20))
        if r.random() < 0.4:
            t = r.choice(p.tails)
            ids.append((sha(t), t))
        seq = [] if nid == 0 else [r.randint(1, len(ids)) for _ in range(nid)]
        E = entries_of(ids, seq)
        st = []
        for _ in range(r.randint(1, 3)):
            c = r.choice([b'', b'x', r.randbytes(47), r.randbytes(48), r.choice(p.tails), bytes(300), bytes(100000),
                          ids[-1][1], b''.join(d for h, d in ids), r.randbytes(20000)])
            m = r.random()
            if m < 0.7:
                st.append(local(c))
            elif m < 0.85:
                st.append(local(c, side_of(c, p.params)))
            else:
                s, ok = wrong_side(r, c, ids, p.params)
                st.append(local(c, s, side_ok=ok))
        if r.random() < 0.3:
            st.insert(0, target_store())
        if r.random() < 0.8:
            st.append(http(set(range(1, len(ids) + 1))))
        t = rnd_target(r, ids, E) if seq else r.choice([b'', b'x', r.randbytes(5000)])
        yield scn(ids, E, t, [rspec(st, app=r.choice(['csn', 'casync']))], p, 'tiny')


def nostore(r, n):
    """no store at all, or none that has anything"""
    for q in range(n):
        p = rpool(r)
        ids = p.ids(3, r.randint(0, 20))
        seq = rnd_seq(r, 3, 5)
        E = entries_of(ids, seq)
        st = r.choice([[], [target_store()], [local(b'')], [http(set())], [http(set()), local(b'abc')]])
        yield scn(ids, E, rnd_target(r, ids, E, r.choice([len(E), None])), [rspec(st, app='csn' if st else 'casync')], p, 'nostore')


def mixedlast(r, n):
    """the only store that has a chunk is anywhere in the chain; all others do anything but deliver it"""
    for q in range(n):
        p = rpool(r)
        nid = r.randint(1, 4)
        ids = p.ids(nid, r.randint(0, 20))
        seq = rnd_seq(r, nid, 8)
        E = entries_of(ids, seq)
        ns = r.randint(2, 5)
        g = r.randrange(ns)
        st = []
        for k in range(ns):
            if k == g:
                st.append(http(set(range(1, nid + 1)), comp=r.choice(COMPS)) if r.random() < 0.6
                          else local(b''.join(d for h, d in ids)))
                continue
            o = r.choice(['miss', 'err', 'conn', 'bad', 'bad', 'fatal', 'local', 'side', 'mix'])
            if o == 'local':
                st.append(local(r.choice([b'', r.randbytes(3000)])))
            elif o == 'side':
                c = r.randbytes(3000)
                s, ok = wrong_side(r, c, ids, p.params)
                st.append(local(c, s, side_ok=ok))
            elif o == 'mix':
                st.append(http(set(), [answer(r, r.choice(['miss', 'err', 'bad', 'bad', 'conn']), ids, None) for _ in range(30)]))
            else:
                st.append(http(set(), [], default=answer(r, o, ids, None)))
        yield scn(ids, E, rnd_target(r, ids, E), [rspec(st)], p, 'mixed')


# ------------------------------------------------------------ side-loaded indices

def side(r, n):
    for q in range(n):
        p = rpool(r)
        nid = r.randint(2, 7)
        ids = p.ids(nid, r.randint(0, 20))
        seq = rnd_seq(r, nid, 10)
        E = entries_of(ids, seq)
        c = local_content(r, ids, p, junk=0.3)
        if r.random() < 0.1:
            c = b''
        ok = True
        m = r.random()
        if m < 0.5:
            s, ok = wrong_side(r, c, ids, p.params)
        elif m < 0.7:
            # index of what the store was once
            s = side_of(local_content(r, ids, p), p.params)
        else:
            s = side_of(c, p.params)
        if m >= 0.5 and c and r.random() < 0.7:
            b = bytearray(c)
            for _ in range(r.choice([1, 1, 3])):
                x = r.randrange(len(b))
                b[x] ^= 1 << r.randrange(8)
            c = bytes(b)
            if r.random() < 0.3:
                c = c[:r.randrange(len(c))]
        st = [local(c, s, side_ok=ok)]
        if r.random() < 0.3:
            st.insert(0, target_store())
        if r.random() < 0.3:
            st.insert(0, rnd_local(r, ids, p, side=0.7))
        if r.random() < 0.8:
            st.append(http(set(range(1, nid + 1))))
        cfg = []
        if ok and c and r.random() < 0.08:
            o = r.randrange(len(c))
            k = st.index([x for x in st if x['t'] == 'local' and x['content'] is c][0])
            st[k] = local(c, s, ioerr=[(o, r.choice([1, 100]))], scanerr=True)
        yield scn(ids, E, rnd_target(r, ids, E), [rspec(st, cfg=cfg)], p, 'side')


def localio(r, n):
    """stores that can be scanned but not read any more, or change after the scan"""
    for q in range(n):
        p = rpool(r)
        nid = r.randint(2, 6)
        ids = p.ids(nid, r.randint(0, 20))
        seq = rnd_seq(r, nid, 10)
        E = entries_of(ids, seq)
        c = local_content(r, ids, p, which=[x for x in range(1, nid + 1) if r.random() < 0.7])
        st = [local(c)]
        muts = []
        m = r.random()
        if m < 0.5 and c:
            o = r.randrange(len(c))
            st = [local(c, ioerr=[(o, r.choice([1, 10, 500, 1 << 20]))])]
            if r.random() < 0.4:
                st.append(local(c))
        elif c:
            o = r.randrange(len(c))
            d = bytearray(c[o:o + r.choice([1, 1, 30, 1000])])
            d[0] ^= 1 << r.randrange(8)
            k = r.random()
            if k < 0.5:
                muts = [('eof-store1', 1, 1, o, bytes(d))]
            elif k < 0.8:
                muts = [('write', r.randint(1, 4), 1, o, bytes(d))]
            else:
                st.insert(0, http(set(range(1, nid + 1)), [OK] * r.randint(0, 3), default=MISS))
                muts = [('req', r.randint(1, 4), 2, o, bytes(d))]
        if r.random() < 0.7:
            st.append(http(set(range(1, nid + 1))))
        yield scn(ids, E, rnd_target(r, ids, E), [rspec(st, muts=muts)], p, 'localio')


def aliased(r, n):
    """the target is also a local store by another name, or changes while it is a store"""
    for q in range(n):
        p = rpool(r)
        nid = r.randint(2, 6)
        ids = p.ids(nid, r.randint(0, 20))
        seq = rnd_seq(r, nid, 10)
        E = entries_of(ids, seq)
        st = [alias(r.choice(['symlink', 'hardlink', 'dot']))]
        if r.random() < 0.2:
            st.insert(0, target_store())
        if r.random() < 0.8:
            st.append(http(set(range(1, nid + 1))))
        # content: chunks somewhere else than where they belong
        t = b''.join(ids[r.randint(1, nid) - 1][1] for _ in range(r.randint(1, 8)))
        if r.random() < 0.3:
            t = r.randbytes(r.randint(1, 90)) + t
        yield scn(ids, E, t, [rspec(st)], p, 'aliased')


def targetmut(r, n):
    """somebody else writes to the target during the run, which is also a store"""
    for q in range(n):
        p = rpool(r)
        nid = r.randint(2, 4)
        ids = p.ids(nid, r.randint(0, 20))
        seq = rnd_seq(r, nid, 10)
        E = entries_of(ids, seq)
        b = slot_bounds(scn(ids, E, b'', [], p, ''))
        pf = r.choice([0, 0, 1, len(E) // 2])
        s = r.randrange(len(E))
        d = bytearray(ids[E[s][0] - 1][1])
        d[r.randrange(len(d))] ^= 4
        # only after the slot has been written or skipped for sure does it matter; before that it must
        # not touch the prefix that is still being looked at
        w = max(1, s + 1 - pf) + r.randint(0, 2)
        st = [target_store(), http(set(range(1, nid + 1)))]
        yield scn(ids, E, rnd_target(r, ids, E, pf, 0.0), [rspec(st, muts=[('write', w, 'target', b[s][0], bytes(d))])], p, 'targetmut')


# ------------------------------------------------------------ http

def retry(r, n):
    """failures to connect, in every number, followed by every kind of answer"""
    for q in range(n):
        p = rpool(r)
        nid = r.randint(1, 5)
        ids = p.ids(nid, r.randint(0, 20))
        seq = rnd_seq(r, nid, 8)
        E = entries_of(ids, seq)
        enc = r.randbytes(32) if r.random() < 0.3 else None
        sc = []
        for _ in range(r.randint(1, 4)):
            sc += [answer(r, 'conn', ids, enc) for _ in range(r.choice([1, 2, 3, 5, 6, 7, 8, 9, 9, 10, 11]))]
            o = r.choice(['ok', 'ok', 'miss', 'err', 'bad', 'fatal']) if r.random() < 0.9 else 'conn'
            if o == 'bad' and enc:
                o = 'ok'
            sc.append(answer(r, o, ids, enc))
        st = [http(set(range(1, nid + 1)), sc, enc=enc, comp=r.choice(COMPS))]
        if r.random() < 0.7:
            st.append(http(set(range(1, nid + 1))))
        yield scn(ids, E, rnd_target(r, ids, E, 0), [rspec(st)], p, 'retry')


def threshold(r, n):
    """failures up to and beyond the number that is tolerated, with resets in between"""
    p = pool((64, 65, 96), 330, 40000)
    for q in range(n):
        nid = 80
        ids = p.ids(nid, r.randint(0, 200))
        seq = list(range(1, nid + 1))
        E = entries_of(ids, seq)
        sc = []
        while len(sc) < 75:
            m = r.choice([1, 3, 9, 10, 10, 10, 11, 12])
            for _ in range(m):
                if r.random() < 0.12:
                    sc += [answer(r, 'conn', ids, None) for _ in range(10)]
                else:
                    sc.append(answer(r, 'err', ids, None))
                if r.random() < 0.15:
                    sc.append(answer(r, r.choice(['miss', 'bad0', 'conn']).replace('bad0', 'miss'), ids, None))
            o = r.choice(['ok', 'ok', 'miss', 'bad', 'badsum'])
            if o == 'badsum':
                sc.append(resp('badsum', body=zstd(b'something else')))
            else:
                sc.append(answer(r, o, ids, None))
        st = [http(set(range(1, nid + 1)), sc)]
        if r.random() < 0.3:
            st.append(http(set(range(1, nid + 1)), sc[r.randint(1, 20):]))
        st.append(http(set(range(1, nid + 1))))
        yield scn(ids, E, r.randbytes(1000), [rspec(st)], p, 'threshold')


def bodies(r, n):
    """answers that are completed but do not carry the chunk, between answers that do"""
    for q in range(n):
        p = rpool(r)
        nid = r.randint(2, 6)
        ids = p.ids(nid, r.randint(0, 20))
        seq = list(range(1, nid + 1)) * 2
        r.shuffle(seq)
        E = entries_of(ids, seq)
        enc = r.randbytes(32) if r.random() < 0.3 else None
        sc = []
        # ids are asked for in the order of the index, as long as this store is the only one asked
        for pos, i in enumerate(seq[:6]):
            if pos and seq[pos - 1] == i and sc and sc[-1]['o'] == 'ok':
                continue
            o = r.choice(['bad', 'bad', 'ok', 'miss', 'err'])
            sc.append(answer(r, o, ids, enc, i if enc is None or pos == 0 else None))
        st = [http(set(range(1, nid + 1)), sc, enc=enc, comp=r.choice(COMPS))]
        if r.random() < 0.8:
            st.append(http(set(range(1, nid + 1)), enc=r.choice([None, r.randbytes(32)])))
        yield scn(ids, E, rnd_target(r, ids, E, 0), [rspec(st)], p, 'bodies')


def statuses(r, n):
    """every status, with the right body, another one or none"""
    codes = [200] + NON200 + [404, 410] + ERR_STATUS + [100, 101, 199, 299, 301, 302, 303, 305, 307, 308, 402, 414, 415, 421, 422, 423, 424, 425, 426, 428, 431, 444, 495, 505, 506, 508, 510, 520, 530, 598]
    for q in range(n):
        p = rpool(r)
        ids = p.ids(3, r.randint(0, 20))
        E = entries_of(ids, [1, 2, 3])
        c = codes[q % len(codes)]
        enc = r.randbytes(32) if r.random() < 0.2 else None
        o = 'ok' if c == 200 else 'miss' if c in (404, 410) else 'err' if c >= 400 else 'baddata'
        b = r.choice([right_body(ids, 1, enc), HTML, None])
        if c == 200:
            b = right_body(ids, 1, enc)
        first = resp(o, status=c, body=b, pieces=pieces(r), redir=r.random() < 0.2)
        st = [http({1, 2, 3}, [first], enc=enc), http({1, 2, 3})]
        yield scn(ids, E, rnd_target(r, ids, E, 0), [rspec(st)], p, 'status-%d' % c)


def delivery(r, n):
    """bodies in all kinds of pieces, whole and after aborted attempts"""
    for q in range(n):
        p = rpool(r)
        nid = r.randint(1, 4)
        ids = p.ids(nid, r.randint(0, 20))
        E = entries_of(ids, list(range(1, nid + 1)))
        enc = r.randbytes(32) if r.random() < 0.5 else None
        comp = r.choice(COMPS)
        sc = []
        for i in range(nid):
            L = len(body_of(ids[i][1], comp))
            for _ in range(r.choice([0, 0, 0, 1, 2, 5])):
                sc.append(resp('conn', code=28, stall=r.choice([0, 1, 2, 3, 4, 5, 6, 12, 17, 18, 19, 63, 64, 65, L - 1, L, r.randint(0, L)]),
                               body='@ok', pieces=pieces(r, L)))
            k = r.random()
            if k < 0.3:
                a = (q * 7 + i) % (L - 1) + 1 if L > 1 else 1
                pc = '%d,100000' % a
            elif k < 0.5:
                a = r.randint(1, max(1, min(20, L - 2)))
                pc = '%d,%d,100000' % (a, r.randint(1, 70))
            else:
                pc = pieces(r, L)
            sc.append(resp('ok', body='@ok', pieces=pc))
        yield scn(ids, E, rnd_target(r, ids, E, 0), [rspec([http(set(range(1, nid + 1)), sc, enc=enc, comp=comp)])], p, 'delivery')


def networked(r, s, stalls=3):
    """The scenario with servers that are real, or None if it cannot be had. A stall takes 2 s, or 7 s."""
    if s.sparse or len(s.entries) > 300:
        return None
    left = stalls
    for u in s.runs:
        if u['muts'] or u['argv'] is not None or u['argv0'] is not None or u['stdio'] is not None or u['idxerr'] or u['initfail']:
            return None
        u['net'] = True
        for k in s_http(u):
            if k['base'] or k['arg'] or k['default']['code'] not in (0, 7):
                return None
            if k['default']['code'] == 7:
                k['script'] = []
            sc = []
            for p in k['script']:
                p = dict(p)
                if p['status'] < 200 or p['status'] in (204, 205, 304, 408, 417):
                    p['status'] = {204: 202, 205: 203, 304: 300}.get(p['status'], 503 if p['status'] > 400 else 206)
                    if p['o'] in ('ok', 'miss'):
                        return None
                if p['o'] == 'conn':
                    slow = p['stall'] >= 0
                    if slow and r.random() < 0.7:
                        p['stall'], slow = -1, False
                    left -= 3 if slow else 1
                    if left < 0:
                        continue
                elif r.random() < 0.03:
                    p['slow'] = True
                sc.append(p)
            k['script'] = sc
    return s


def s_http(u):
    return [k for k in u['stores'] if k['t'] == 'http']


def net_(r, n):
    """libcurl itself, talking to servers on the loopback interface"""
    fams = [(random_, 6), (clean_, 2), (faulty_, 4), (bodies, 3), (statuses, 70), (delivery, 6), (retry, 3), (near, 4), (prefix_, 2), (chain, 2), (many, 1),
            (down, 1)]
    q = 0
    while q < n:
        f, c = r.choice(fams)
        l = list(f(random.Random(r.random()), c))
        r.shuffle(l)
        for s in l[:3]:
            if any(s_http(u) for u in s.runs):
                s = networked(r, s)
                if s:
                    s.name = 'net-' + s.name
                    yield s
                    q += 1
                    if q == n:
                        return


def down(r, n):
    """no server at all where some of the stores should be"""
    for q in range(n):
        p = rpool(r)
        nid = r.randint(1, 6)
        ids = p.ids(nid, r.randint(0, 20))
        E = entries_of(ids, [r.randint(1, nid) for _ in range(r.randint(1, 10))])
        st = [http(set(range(1, nid + 1)), default=resp('conn', code=7) if r.random() < 0.5 else OK, enc=r.choice([None, r.randbytes(32)]))
              for _ in range(r.randint(1, 3))]
        yield scn(ids, E, rnd_target(r, ids, E, 0), [rspec(st)], p, 'down')


# ------------------------------------------------------------ I/O

def io(r, n):
    for q in range(n):
        yield rnd_scn(r, rpool(r), name='io', noise=1.0, kills=0.1, faulty=0.1, last_full=0.9, runs=r.choice([1, 1, 2]))


def ioerr(r, n):
    """hard errors on each file"""
    for q in range(n):
        p = rpool(r)
        nid = r.randint(1, 5)
        ids = p.ids(nid, r.randint(0, 20))
        seq = rnd_seq(r, nid, 8)
        E = entries_of(ids, seq)
        st = rnd_stores(r, ids, p, r.randint(1, 3), last_full=1.0, faulty=0.0)
        k = r.choice(['write', 'index', 'index', 'init'])
        err = r.choice([5, 28, 30, 27, 122])
        cfg = io_noise(r, len(st)) if r.random() < 0.3 else []
        kw = {}
        tgt = rnd_target(r, ids, E)
        if k == 'write':
            cfg.append('io target w %d err %d' % (r.randint(1, len(E)), err))
        elif k == 'index':
            # the index is read in order: an error within entry x
            x = r.randint(1, len(E))
            cfg.append('ioerr index %d %d 5' % (64 + 40 * (x - 1) + r.randrange(40), 1))
            kw = dict(idxerr=x)
        else:
            cfg.append('ioerr index %d 1 5' % r.randrange(64))
            kw = dict(initfail=True)
        runs = [rspec(st, cfg=cfg, **kw)]
        if r.random() < 0.3:
            runs.append(rspec([http(set(range(1, nid + 1)))]))
        yield scn(ids, E, tgt, runs, p, 'ioerr-' + k)


def tgtio(r, n):
    """places of the target, of stores and of side-loaded indices that cannot be read"""
    for q in range(n):
        p = rpool(r)
        nid = r.randint(2, 5)
        ids = p.ids(nid, r.randint(0, 20))
        seq = rnd_seq(r, nid, 10)
        E = entries_of(ids, seq)
        total = sum(l for i, l in E)
        te = []
        kw = {}
        c = local_content(r, ids, p, which=list(range(1, nid + 1)))
        full = http(set(range(1, nid + 1)))
        st = []
        m = r.choice(['target', 'target', 'target', 'scan', 'sideidx', 'sideidx'])
        pf = r.choice([None, len(E), len(E) // 2])
        if m == 'target':
            te = [(r.randrange(total), r.choice([1, 1, 10, 1000])) for _ in range(r.choice([1, 1, 2]))]
            if r.random() < 0.6:
                st.append(target_store())
        elif m == 'scan' and c:
            st.append(local(c, badscan=r.choice([0, r.randrange(len(c)), len(c) - 1])))
            kw = dict(mayfail=True)
        elif c:
            s = side_of(c, p.params)
            st.append(local(c, s, side_ok=False))
            kw = dict(cfg=['ioerr side%d %d 1 5' % (len(st), r.choice([r.randrange(64), 64 + r.randrange(len(s) - 64), len(s) - 1]))])
        if r.random() < 0.4:
            st.insert(r.randint(0, len(st)) if m != 'sideidx' else len(st), rnd_local(r, ids, p, side=0.3))
        st.append(full)
        runs = [rspec(st, tgterr=te, app=r.choice(['csn', 'casync']), **kw)]
        if r.random() < 0.3:
            runs.append(rspec([target_store(), full]))
        yield scn(ids, E, rnd_target(r, ids, E, pf, 0.1), runs, p, 'tgtio-' + m)


def ioplace(r, n):
    """one short or interrupted transfer, in every place; the same scenario over and over"""
    out = 0
    while out < n:
        p = rpool(r)
        ids = p.ids(3, r.randint(0, 20))
        E = entries_of(ids, [1, 2, 1, 3])
        c = ids[0][1]
        st = [target_store(), local(ids[2][1] + r.randbytes(30)), local(c, side_of(c, p.params)), http({1, 2, 3})]
        tgt = ids[0][1] + r.randbytes(50)
        for cl, op, top in [('index', 'r', 12), ('target', 'r', 3), ('target', 'w', 4), ('store2', 'r', 4), ('side3', 'r', 8), ('store3', 'r', 3)]:
            for k in range(1, top + 1):
                a = r.choice([['short 1'], ['short %d' % r.choice([2, 8, 15, 39])], ['eintr'], ['eintr', 'eintr'], ['short 5', 'eintr', 'short 1']])
                cfg = ['io %s %s %d %s' % (cl, op, k + j, x) for j, x in enumerate(a)]
                yield scn(ids, E, tgt, [rspec(st, cfg=cfg)], p, 'ioplace')
                out += 1
                if out >= n:
                    return


# ------------------------------------------------------------ sizes

def bigchunks(r, n):
    """the default chunk sizes, chunks of exactly the buffer size"""
    D = (16384, 65536, 262144)
    if ('big',) not in _pools:
        rr = random.Random(3)
        data = rr.randbytes(3 << 20)
        ch = [data[o:o + l] for o, l in ref_chunks(data, D)][:-1]
        _pools[('big',)] = sorted(ch, key=len)
    ch = _pools[('big',)]
    # forced boundary: constant data never has one of its own
    const = [bytes([x]) * 262144 for x in (0, 1)]
    class PP: pass
    p = PP()
    p.params = D
    for q in range(n):
        ds = r.sample(ch, 4) + [ch[0], ch[-1], const[0], const[1], r.randbytes(262144), r.randbytes(262143)]
        r.shuffle(ds)
        ds = ds[:6]
        ds = ([const[0]] if const[0] not in ds else []) + ds
        ds = list(dict.fromkeys(ds))[:6]
        while len(ds) < 6:
            ds.append(r.randbytes(30000 + len(ds)))
        ids = [(sha(d), d) for d in ds]
        seq = [r.randint(1, 6) for _ in range(r.randint(3, 9))]
        E = entries_of(ids, seq)
        c = b''.join(x for x in ds if r.random() < 0.5) + r.choice([b'', r.randbytes(1000)])
        st = [r.choice([local(c), local(c, side_of(c, D)), http(set(range(1, 7)), comp='raw'), target_store(),
                        http({1, 2, 3}, enc=r.randbytes(32), comp='nosize')])]
        st.append(http(set(range(1, 7))))
        yield scn(ids, E, rnd_target(r, ids, E), [rspec(st)], p, 'bigchunks')


def bigrep(r, n):
    """repetitions of large chunks, the target being the first store"""
    next(bigchunks(random.Random(1), 1))
    ch = _pools[('big',)]
    class PP: pass
    p = PP()
    p.params = (16384, 65536, 262144)
    for q in range(n):
        ds = r.sample(ch, 2) + [ch[0], ch[-1], bytes([r.randrange(256)]) * 262144]
        r.shuffle(ds)
        ds = list(dict.fromkeys(ds))
        ids = [(sha(d), d) for d in ds]
        seq = [r.randint(1, len(ds)) for _ in range(r.randint(6, 12))]
        E = entries_of(ids, seq)
        yield scn(ids, E, rnd_target(r, ids, E, r.choice([0, 0, 1, 2, 3]), 0.1),
                  [rspec([target_store(), http(set(range(1, len(ds) + 1)))])], p, 'bigrep')


def huge(r, n):
    """image beyond 4 GiB: mostly holes that are in place already"""
    D = (16384, 65536, 262144)
    z = bytes(262144)
    class PP: pass
    p = PP()
    p.params = D
    for q in range(n):
        q = r.randrange(2) if n > 1 else 1
        ds = [z] + [r.randbytes(r.choice([20000, 65536, 262144])) for _ in range(4)]
        ids = [(sha(d), d) for d in ds]
        k = (1 << 32) // 262144 - (q % 2 == 0 and r.choice([0, 1]))
        seq = [1] * k + [2, 3, 2, 4, 5, 3]
        E = entries_of(ids, seq)
        base = 262144 * k
        size = base + sum(l for i, l in E[k:]) + r.choice([0, 100])
        sp = {}
        if q % 2:
            sp = {base: ds[1] + ds[2] + ds[1]}
        yield scn(ids, E, None, [rspec([target_store(), http({1, 2, 3, 4, 5})])], p, 'huge', sparse=(size, sp))



def bulk(r, n):
    """local stores of very many chunks; some of them are needed, from everywhere in the store"""
    D = (64, 66, 96)
    class PP: pass
    p = PP()
    p.params = D
    for q in range(n):
        want = r.choice([66000, 70000, 132000])
        if ('bulk', want) not in _pools:
            data = random.Random(want).randbytes(want * 90)
            _pools['bulk', want] = data, ref_chunks(data, D)
        data, ch = _pools['bulk', want]
        assert len(ch) > want
        pick = [0, len(ch) - 1, len(ch) - 2, r.randrange(len(ch)), r.choice([65535, 65536, 65537, 32768]), r.randrange(65536, len(ch)),
                r.randrange(want, len(ch))]
        pick = r.sample(list(dict.fromkeys(pick)), 5)
        ids = [(sha(data[ch[x][0]:ch[x][0] + ch[x][1]]), data[ch[x][0]:ch[x][0] + ch[x][1]]) for x in pick]
        E = entries_of(ids, [r.randint(1, 5) for _ in range(2)] + [1, 2, 3, 4, 5])
        st = [local(data, side_of(data, D) if r.random() < 0.5 else None), http(set())]
        r.shuffle(st)
        yield scn(ids, E, rnd_target(r, ids, E, 0, 0.1), [rspec(st)], p, 'bulk')


def longidx(r, n):
    """indices of very many chunks: all but the last few are in place"""
    for q in range(n):
        p = rpool(r)
        nid = r.randint(2, 5)
        z = r.choice([bytes(64), p.chunks[30]])
        ids = [(sha(z), z)] + p.ids(nid, r.randint(0, 20))
        N = r.choice([65535, 65536, 65537, 65540, 65600, 65700, 131072, 131080])
        t = r.randint(1, 60)
        if N > 65536 and N < 65800 and r.random() < 0.6:
            t = N - r.randint(65530, min(N - 1, 65538))
        tail = [r.randint(1, nid + 1) for _ in range(t)]
        E = entries_of(ids, [1] * (N - t) + tail)
        data = z * (N - t)
        m = r.random()
        if m < 0.5:
            data += r.randbytes(sum(l for i, l in E[N - t:]) + r.choice([0, 0, 50]))
        elif m < 0.8:
            data += rnd_target(r, ids, entries_of(ids, tail), 0) or b''
        st = [http(set(range(1, nid + 2)), enc=r.choice([None, None, r.randbytes(32)]))]
        if r.random() < 0.5:
            st.insert(r.randint(0, 1), target_store())
        if r.random() < 0.3:
            st.insert(0, local(local_content(r, ids[1:], p)))
        yield scn(ids, E, data, [rspec(st)], p, 'longidx')


def stdio(r, n):
    """the same with standard descriptors closed, on a terminal, or with nowhere for messages to go"""
    for i in range(n):
        f = r.choice([random_, prefix_, side, near, length_, crash, aliased, nostore])
        for s in f(r, 1):
            s.name = 'stdio ' + s.name
            for q, x in enumerate(s.runs):
                k = r.random()
                s.runs[q] = dict(x, stdio='tty' if k < 0.2 else 'full' if k < 0.3 else
                                 [fd for fd in (0, 1, 2) if r.random() < 0.65])
            yield s


def blksmall(r, n):
    """the target is a block device that ends before the image does"""
    for i in range(n):
        p = rpool(r)
        nid = r.randint(1, 5)
        ids = p.ids(nid, r.randint(0, 20))
        E = entries_of(ids, rnd_seq(r, nid, 8))
        end = sum(l for _, l in E)
        t = rnd_target(r, ids, E, None, 0.1)
        b = [0]
        for _, l in E:
            b.append(b[-1] + l)
        cut = r.choice([0, end - 1, r.choice(b[:-1]), r.randrange(end), r.choice(b[1:]) - 1])
        t = (t + bytes(end))[:cut]
        st = [http(set(range(1, nid + 1)))]
        if r.random() < 0.4:
            st.insert(0, target_store())
        yield scn(ids, E, t, [rspec(st) for _ in range(r.choice([1, 2]))], p, 'blk%d small' % i)


def shrink(r, n):
    """the index, a store or a side-loaded index is cut short while it is used"""
    for q in range(n):
        p = rpool(r)
        nid = r.randint(2, 6)
        ids = p.ids(nid, r.randint(0, 20))
        E = entries_of(ids, rnd_seq(r, nid, 10))
        full = http(set(range(1, nid + 1)))
        c = local_content(r, ids, p, which=list(range(1, nid + 1))) or ids[0][1]
        when = r.choice(['req', 'write', 'write', '@'])
        st, kw = [], {}
        m = r.choice(['index', 'index', 'store', 'store', 'store', 'side'])
        if m == 'index':
            st = [rnd_local(r, ids, p, side=0.4)] if r.random() < 0.5 else []
            kw = dict(idxmay=True, mayfail=True, cfg=['at %s %d trunc @DIR@/index.caibx %d' % (
                when.replace('@', 'read-index'), r.randint(1, 12), r.choice([0, 63, 64, r.randrange(64 + 40 * len(E)), 64 + 40 * r.randrange(len(E) + 1)]))])
        elif m == 'store':
            sd = side_of(c, p.params) if r.random() < 0.4 else None
            st = [local(c, sd, cut=(when.replace('@', r.choice(['read-store@', 'read-store@', 'eof-store@'])), r.choice([1, 1, 2, 3, 5]), r.choice([0, r.randrange(len(c)), r.randrange(len(c))])))]
            kw = dict(mayfail=True)
            if r.random() < 0.3:
                st.append(local(c))
        else:
            sd = side_of(c, p.params)
            st = [local(c, sd, side_ok=False)]
            kw = dict(cfg=['at read-side1 1 trunc @DIR@/side0.1 %d' % r.randrange(len(sd))])
        if r.random() < 0.8:
            st.append(full)
        yield scn(ids, E, rnd_target(r, ids, E, None, 0.1), [rspec(st, **kw), rspec([full])][:r.choice([1, 1, 2])], p, 'shrink-' + m)

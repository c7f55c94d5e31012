"""Behaviours printed by spec/CsnGen.tla, turned into scenarios for the real program."""
import json, re
from fam import *
import tlc as T


def behaviours(cfg, seed, sim=0, workers=4, timeout=600):
    args = ['-simulate', 'num=%d' % sim, '-depth', '1500', '-seed', str(seed)] if sim else []
    out = T.tlc('CsnGen', cfg, args=args, workers=1 if sim else workers, timeout=timeout, heap='4g')
    r = []
    for m in re.finditer(r'<<"GEN", ("(?:[^"\\]|\\.)*")>>', out):
        r.append(json.loads(json.loads(m.group(1))))
    if not r:
        raise CheckError('no behaviours generated:\n' + out[-2000:])
    g, d = T.stats(out)
    if not g:
        m = re.search(r'number of states generated: ([\d,]+)', out)
        g = int(m.group(1).replace(',', '')) if m else 0
    return r, g, d


HTTPS = ('good', 'flaky', 'weird', 'late', 'counts', 'empty', 'errs', 'shaky')


def concretise(r, b, name):
    """-> (scenario, expected observation)"""
    p = rpool(r)
    nid = max([e['id'] for e in b['entries']] + [1, 2])
    maxid = 4 if name == 'spec-sim' else 2
    nid = max(nid, maxid)
    ids = p.ids(nid, r.randint(0, 15))
    E = [(e['id'], len(ids[e['id'] - 1][1])) for e in b['entries']]
    tgt = b''
    for e, pr in zip(b['entries'], b['prior']):
        d = ids[e['id'] - 1][1]
        if pr != e['id']:
            d = mangle(r, d)[:-1] + bytes([d[-1] ^ r.randint(1, 255)])   # junk until its last byte is written
        tgt += d
    if r.random() < 0.3:
        tgt += r.randbytes(r.choice([1, 300]))
    # trailing junk need not exist at all
    elif b['prior'] and b['prior'][-1] == 0 and r.random() < 0.3:
        cut = E[-1][1]
        tgt = tgt[:len(tgt) - r.randint(1, cut)]
    # split into runs
    hs = [[]]
    for x in b['h']:
        if x[0] == 'restart':
            hs.append([])
        else:
            hs[-1].append(x)
    runs = []
    for k, h in enumerate(hs):
        names = b['names'][k]
        asked = {}
        st = []
        for s in range(1, len(names) + 1):
            asked[s] = [x for x in h if x[0] == 'req' and x[1] == s]
        for s, nm in enumerate(names, 1):
            if nm in HTTPS:
                enc = r.randbytes(32) if r.random() < 0.2 else None
                sc = []
                for _, _, i, o in asked[s]:
                    if o in ('badsum', 'baddata'):
                        while True:
                            t, body = bad_answer(r, ids, enc, i)
                            if t == o:
                                break
                        sc.append(resp(t, body=body, pieces=pieces(r), redir=r.random() < 0.1))
                    else:
                        sc.append(answer(r, o, ids, enc, i))
                # whatever is asked beyond what the behaviour foresees is answered properly
                st.append(http(set(range(1, nid + 1)), sc, enc=enc, comp=r.choice(COMPS)))
            elif nm == 'target':
                st.append(target_store())
            else:
                j1 = r.choice(p.chunks[-8:])
                c1, cN = ids[0][1], ids[maxid - 1][1]
                if nm == 'seed1':
                    st.append(local(j1 + c1))
                elif nm == 'seedio':
                    st.append(local(c1 + cN, ioerr=[(r.randrange(len(c1)), 1)]))
                elif nm == 'both':
                    st.append(local(b''.join(d for h_, d in ids[:maxid]) + j1))
                elif nm == 'side':
                    st.append(local(c1 + j1, side_of(c1 + j1, p.params)))
                elif nm == 'stale':
                    c = b''.join(d for h_, d in ids[:maxid])
                    cs = [(l, sha(c[o:o + l])) for o, l in ref_chunks(c, p.params)]
                    rot = cs[1:] + cs[:1]
                    st.append(local(c, caibx([(a[0], q[1]) for a, q in zip(cs, rot)], p.params)))
                else:
                    raise CheckError('unknown store ' + nm)
        cfg = io_noise(r, len(st)) if r.random() < 0.1 and not any(x[0] in ('torn', 'werr', 'kill') for x in h) else []
        nw = sum(x[0] == 'write' for x in h)
        nq = sum(x[0] == 'req' for x in h)
        for x in h:
            if x[0] in ('torn', 'werr'):
                L = E[x[1] - 1][1]
                if x[0] == 'torn':
                    cfg.append('io target w %d kill %d' % (nw + 1, L if x[2] else r.choice([0, 1, L // 2])))
                else:
                    cfg.append('io target w %d err 5' % (nw + 1) if not x[2] else 'io target w %d short %d' % (nw + 1, L))
                    if x[2]:
                        # written in full, and then the error
                        return None
            if x[0] == 'kill':
                cfg.append('at req %d kill' % (nq + 1))
        runs.append(rspec(st, cfg=cfg, app=r.choice(['csn', 'csn', 'casync']) if st else 'csn'))
    # what must be seen
    exp = []
    for h in hs:
        o = []
        for x in h:
            if x[0] == 'req':
                o.append(('req', x[1], x[2]))
            elif x[0] == 'write':
                o.append(('write', x[1], x[2]))
            elif x[0] == 'sleep':
                o.append(('sleep', x[1]))
            elif x[0] in ('end', 'torn', 'kill', 'werr'):
                o.append(('end', {'ok': 0, 'fail': 1, 'torn': 137, 'kill': 137, 'werr': 1}.get(x[1] if x[0] == 'end' else x[0])))
        exp.append(o)
    sc = Scn(ids, E, tgt, runs, params=p.params, name=name)
    sc.expect = (exp, b['fin'])
    return sc


def observed(t):
    """recording in the terms of the expectation"""
    runs, o = [], []
    for e in t['ev']:
        if e['e'] == 'req':
            o.append(('req', e['k'], e['id']))
        elif e['e'] == 'write':
            o.append(('write', e['s'], e['v']))
        elif e['e'] == 'sleep':
            o.append(('sleep', e['ms']))
        elif e['e'] == 'exit':
            o.append(('end', e['rc']))
            runs.append(o)
            o = []
    return runs


def same(exp, obs):
    """pauses nothing depends on (after the last attempt) are optional"""
    def norm(o):
        r, n = [], 0
        for x in o:
            if x[0] == 'sleep':
                n += 1
                if n < 10:
                    r.append(x)
                continue
            if x[0] != 'req' or (r and r[-1][0] != 'sleep') or n >= 10:
                n = 0
            r.append(x)
        return r
    # a kill during a write that got everything out shows as a write
    def drop(e, o):
        if len(o) == len(e) + 1 and e and e[-1] == ('end', 137) and o[-1] == ('end', 137) and o[-2][0] == 'write':
            return o[:-2] + o[-1:]
        return o
    return len(exp) == len(obs) and all(norm(e) == drop(norm(e), norm(o)) for e, o in zip(exp, obs))


def family(cfg, name, sim=0):
    def f(r, n):
        bs, g, d = behaviours(cfg, SEED, sim=sim and n)
        f.stats = (g, d, len(bs))
        if len(bs) > n:
            bs = r.sample(bs, n)
        for b in bs:
            s = concretise(r, b, name)
            if s:
                yield s
    f.__name__ = name
    return f


spec_all = family('CsnGen_all.cfg', 'spec-all')
spec_crash = family('CsnGen_crash.cfg', 'spec-crash')
spec_sim = family('CsnGen_sim.cfg', 'spec-sim', sim=1)

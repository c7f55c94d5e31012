"""Deliveries enumerated by spec/HttpBodyGen.tla, put to the real program."""
import json, re
from fam import *
import tlc as T

_got = {}


def generated(full, cuts):
    if (full, cuts) not in _got:
        out = T.tlc('HttpBodyGen', env=dict(FULLLEN=str(full), CUTS=str(cuts)), workers=4, heap='6g', timeout=600)
        bodies, cases = None, []
        for l in out.splitlines():
            if l.startswith('"BODIES'):
                bodies = json.loads(json.loads(l)[6:])
            elif l.startswith('"CASE'):
                cases.append(json.loads(json.loads(l)[4:]))
        if not bodies or not cases or 'No error has been found' not in out:
            raise CheckError('HttpBodyGen:\n' + out[-2000:])
        _got[full, cuts] = bodies, cases, T.stats(out)
    return _got[full, cuts]


def entry(case, body, data, h, enc):
    """-> scripted answers for a chunk with two bytes of data"""
    b = bytes({65: data[0], 66: data[1]}.get(x, x) for x in body['b'])
    if enc:
        b = xchacha(enc, h, b)
    r, cur = [], []
    for x in case['h'] + [None]:
        if x:
            cur.append(x)
        else:
            pc = ','.join(map(str, cur + [100000]))
            r.append(resp(case['o'], status=body['st'], body=b, pieces=pc) if x is None else
                     resp('conn', code=28, stall=sum(cur), body=b, pieces=pc))
            cur = []
    return r


def segments(r, n, full=10, cuts=2):
    bodies, cases, (g, d) = generated(full, cuts)
    segments.stats = (g, d, len(cases))
    cs = list(cases)
    if len(cs) > n:
        cs = r.sample(cs, n)
    r.shuffle(cs)
    p = pool()
    for q in range(0, len(cs), 40):
        part = cs[q:q + 40]
        ab = set()
        while len(ab) < len(part):
            a, b = r.randrange(256), r.randrange(256)
            if a != b:
                ab.add(bytes([a, b]))
        ids = [(sha(x), x) for x in sorted(ab)]
        E = entries_of(ids, list(range(1, len(ids) + 1)))
        enc = r.randbytes(32) if r.random() < 0.5 else None
        sc = []
        for (h, x), c in zip(ids, part):
            sc += entry(c, bodies[c['body'] - 1], x, h, enc)
        have = set(range(1, len(ids) + 1))
        yield scn(ids, E, b'', [rspec([http(have, sc, enc=enc), http(have)])], p, 'segments')


def segments_deep(r, n):
    yield from segments(r, n, 14, 3)
    segments_deep.stats = segments.stats

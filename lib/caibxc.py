"""C17: index files, generated by spec/CaibxGen.tla and at random."""
import random
from prog import *
import csn

CH = {k: bytes(random.Random(k).randbytes(40 + 8 * k)) for k in range(1, 4)}


def gen(part, timeout=800):
    out = T.tlc('CaibxGen', 'CaibxGen.cfg', env={'PART': part}, workers=4, timeout=timeout, heap='6g')
    r = []
    for l in out.splitlines():
        if l.startswith('"CASE'):
            r.append(json.loads(json.loads(l)[4:]))
    if not r:
        raise CheckError('CaibxGen: ' + out[-2000:])
    g, d = T.stats(out)
    return r, g, d


def real(b):
    """ids of the specification (32 equal bytes 1..3) replaced by the hashes of the chunks; b: bytes"""
    for k in CH:
        b = b.replace(bytes([k]) * 32, sha(CH[k]))
    return b


def run_case(it):
    b, side, asan = it
    d = scratchdir()
    try:
        J = lambda *a: os.path.join(d, *a)
        img = b''.join(CH[k] for k in sorted(CH))
        tgt0 = bytes(len(img) + 100)
        os.makedirs(J('srv'))
        for k in CH:
            wfile(J('srv', sha(CH[k]).hex() + '.cacnk'), zstd_raw(CH[k], 50))
        wfile(J('t'), tgt0)
        wfile(J('seed'), img if side else b'no such data' * 9)
        cfg = ['file target ' + J('t'), 'file store1 ' + J('seed'), 'store 2 http://h.test/s', 'dir 2 ' + J('srv'),
               'def 2 ok 0 200 0 -1 @ok 0']
        if side:
            # chunks of the seed as the main index's parameters cut it: all of it
            prm = (40, 300, 1024)
            wfile(J('i'), caibx([(len(img[o:o + l]), sha(img[o:o + l])) for o, l in ref_chunks(img, prm)], prm))
            wfile(J('x'), b)
            cfg += ['file idx ' + J('i'), 'file side ' + J('x')]
            argv = [J('i'), J('t'), J('seed') + ':' + J('x')]
        else:
            wfile(J('i'), b)
            cfg += ['file idx ' + J('i')]
            argv = [J('i'), J('t'), J('seed'), 'http://h.test/s']
        before = snapshot(d)
        r = call('csn', argv, d, cfg, asan=asan)
        after = snapshot(d)
        ev, access = [], False
        for l in r['log']:
            f = l.split(' ')
            if f[0] == 'Q':
                access = True
                ev.append(('req', list(bytes.fromhex(f[5].split('/')[-1].split('.')[0]))))
            elif f[0] == 'O' and f[1] == 'store1':
                access = True
            elif f[0] == 'W' and f[1] == 'target':
                ev.append(('w',))
        ws = writes(r, 'target')
        out, wi = [], 0
        dirty = [k for k in before if k != 't' and before[k] != after.get(k)] + [k for k in after if k not in before]
        # writes: joined into chunks
        for e in ev:
            if e[0] == 'req':
                out.append(dict(e='req', id=e[1]))
            else:
                o, w = ws[wi]
                wi += 1
                if out and out[-1]['e'] == 'write' and out[-1]['off'] + len(out[-1]['_d']) == o and out[-1]['_open']:
                    out[-1]['_d'] += w
                else:
                    out.append(dict(e='write', off=o, _d=w, _open=True))
                x = out[-1]
                x['_open'] = sha(x['_d']) not in [sha(c) for c in CH.values()]
        want = bytearray(tgt0)
        for e in out:
            if e['e'] == 'write':
                w = e.pop('_d')
                e.pop('_open')
                if e['off'] < 1 << 24:
                    if len(want) < e['off']:
                        want += bytes(e['off'] - len(want))
                    want[e['off']:e['off'] + len(w)] = w
                e.update(len=len(w), id=list(sha(w)), off=min(e['off'], 2**31 - 1))
        clean = not dirty and ('t' in after) and after['t'][1] == bytes(want)
        out.append(dict(e='exit', rc=arc(r), access=access, clean=clean, full=after.get('t', (0, b''))[1][:len(img)] == img))
        if side:
            out = [x for x in out if x['e'] == 'exit'] if all(x['e'] != 'req' for x in out) else out
        t = dict(b=list(b), chunks=[dict(id=list(sha(CH[k])), len=len(CH[k])) for k in sorted(CH)], ev=out, side=side)
        return t, 'index file (%d bytes): %s\nside-loaded: %s\nexit %d %s\n%s' % (
            len(b), b.hex(), side, r['rc'], dirty, '\n'.join(r['err'].strip().splitlines()[-3:]))
    finally:
        shutil.rmtree(d)


def fuzz(r, n):
    """random damage to well-formed files"""
    out = []
    for _ in range(n):
        m = r.randint(0, 5)
        es = [(len(CH[k]), sha(CH[k])) for k in [r.randint(1, 3) for _ in range(m)]]
        b = bytearray(caibx(es, r.choice([(64, 256, 1024), (16384, 65536, 262144), (1, 2, 3), (0, 1, 2)]),
                            r.choice([0xb000000000000000, 0, 0xd000000000000000])))
        for _ in range(r.randint(0, 3)):
            x = r.random()
            if x < 0.35 and b:
                b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            elif x < 0.55 and b:
                b[r.randrange(len(b))] = r.choice([0, 1, 0x30, 255, 128])
            elif x < 0.7 and len(b) >= 8:
                o = r.randrange(0, len(b) - 7)
                o -= o % 8
                b[o:o + 8] = struct.pack('<Q', r.choice([0, 1, 2**32 - 1, 2**32, 2**64 - 1, 2**63, 0x30, 2**31, r.getrandbits(64)]))
            elif x < 0.8:
                del b[r.randrange(0, len(b) + 1):]
            elif x < 0.9:
                b += r.randbytes(r.choice([1, 8, 40, 80]))
            elif m >= 2:
                i, j = r.randrange(m), r.randrange(m)
                x, y = 64 + 40 * i, 64 + 40 * j
                if max(x, y) + 40 <= len(b):
                    b[x:x + 40], b[y:y + 40] = b[y:y + 40], b[x:x + 40]
        out.append(bytes(b))
    return out

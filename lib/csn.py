"""Scenarios for csn / casync: materialise, run under the shim, abstract the
recording into a trace for spec/CsnTrace.tla."""
import base64, zlib, json, os, random, shutil, signal, subprocess, sys, tempfile, time, bisect, pickle
from common import *
import net

BUFSIZE = 256 * 1024
U32 = 0xffffffff


def resp(o, code=0, status=200, redir=0, stall=-1, body=None, pieces='0'):
    return dict(o=o, code=code, status=status, redir=redir, stall=stall, body=body, pieces=pieces)


OK = resp('ok', body='@ok')
MISS = resp('miss', status=404)


class Scn:
    """ids: [(sha, data or None)] numbered from 1; entries: [(id number, length)]"""

    def __init__(self, ids, entries, target, runs, params=(16384, 65536, 262144), index=None, name='',
                 index_entries=None, sparse=None):
        self.ids, self.entries, self.target, self.runs = ids, entries, target, runs
        self.params, self.name = params, name
        self.index = index if index is not None else caibx([(l, ids[i - 1][0]) for i, l in entries], params)
        assert len({h for h, d in ids}) == len(ids)
        self.sparse = sparse    # (file size, {offset: bytes}) instead of target bytes


def rspec(stores, app='csn', initfail=False, mayfail=False, idxerr=0, idxmay=False, cfg=(), muts=(), argv=None, env=None, index=None, tgterr=(), argv0=None, helps=False, stdio=None, net=False):
    """cfg: raw shim lines; muts: [(when, n, what, offset, bytes)] with what = 'target' | store number"""
    return dict(stores=list(stores), app=app, initfail=initfail, mayfail=mayfail, idxerr=idxerr, idxmay=idxmay, cfg=list(cfg), muts=list(muts),
                argv=argv, env=env or {}, index=index, tgterr=list(tgterr), argv0=argv0, helps=helps, stdio=stdio, net=net)    # stdio: closed descriptors, 'tty' or 'full'; helps: any exit status but a crash will do


def http(have, script=(), default=OK, base=None, arg=None, enc=None, comp=None, serve=None):
    """have: set of id numbers the server has; enc: key (32 bytes); serve: id number -> (tag, plain body) the
    server has in place of the right one"""
    return dict(t='http', have=set(have), script=list(script), default=default, base=base, arg=arg, enc=enc, comp=comp,
                serve=serve or {})


def local(content, side=None, side_ok=True, ioerr=(), scanerr=False, path=None, badscan=None, name=None, cut=None):
    """side: side-loaded index bytes, or False for a path that does not exist"""
    return dict(t='local', content=content, side=side, side_ok=side_ok, ioerr=list(ioerr), scanerr=scanerr, path=path,
                name=name, cut=cut, badscan=badscan)    # name: of the file, beside the target; badscan: reading fails from this offset on, from the start


def target_store():
    return dict(t='target')


def alias(how='symlink'):
    return dict(t='alias', how=how)


# ------------------------------------------------------------ abstraction

def slot_bounds(scn):
    b, off = [], 0
    for i, l in scn.entries:
        b.append((off, off + l))
        off += l
    return b


def ekind(l):
    if l == 0 or l > U32:
        return 'bad'
    return 'big' if l > BUFSIZE else 'ok'


class Img:
    """content of a target that may be huge and sparse"""

    def __init__(self, path):
        self.fd = os.open(path, os.O_RDONLY)
        self.size = os.fstat(self.fd).st_size

    def read(self, a, n):
        return os.pread(self.fd, n, a)

    def close(self):
        os.close(self.fd)


def contents(scn, img):
    """per slot: the id of its entry if it holds that chunk, else 0"""
    out, cache = [], {}
    for (i, l), (a, b) in zip(scn.entries, slot_bounds(scn)):
        if ekind(l) != 'ok' or b > img.size:
            out.append(0)
            continue
        d = img.read(a, l)
        data = scn.ids[i - 1][1]
        if data is not None:
            out.append(i if d == data else 0)
        else:
            out.append(i if len(d) == l and sha(d) == scn.ids[i - 1][0] else 0)
    return out


def brk_slots(scn, a, data):
    """slots whose write changes the bytes data at offset a"""
    r = []
    for n, ((i, l), (s, e)) in enumerate(zip(scn.entries, slot_bounds(scn))):
        lo, hi = max(a, s), min(a + len(data), e)
        if lo >= hi:
            continue
        new = scn.ids[i - 1][1]
        if new is None or new[lo - s:hi - s] != data[lo - a:hi - a]:
            r.append(n + 1)
    return r


def places_scan(scn, data, params, aliased, ioerr=()):
    idn = {h: n for n, (h, _) in reversed(list(enumerate(scn.ids, 1)))}
    occ = [[] for _ in scn.ids]
    for off, ln in ref_chunks(data, params):
        d = data[off:off + ln]
        n = idn.get(sha(d))
        if n is None:
            continue
        st = 'ok'
        if ln > BUFSIZE:
            st = 'big'
        elif any(off < o + l and off + ln > o for o, l in ioerr):
            st = 'eio'
        occ[n - 1].append(dict(st=st, brk=brk_slots(scn, off, d) if aliased else [], off=off, len=ln))
    return occ


def parse_caibx_entries(b):
    n = (len(b) - 48 - 16 - 40) // 40
    r, last = [], 0
    for i in range(n):
        end, = struct.unpack('<Q', b[64 + 40 * i:72 + 40 * i])
        r.append((last, end - last, b[72 + 40 * i:104 + 40 * i]))
        last = end
    return r


def places_claims(scn, data, side, aliased, ioerr=()):
    idn = {h: n for n, (h, _) in reversed(list(enumerate(scn.ids, 1)))}
    cl = [[] for _ in scn.ids]
    for off, ln, h in parse_caibx_entries(side):
        n = idn.get(h)
        if n is None:
            continue
        d = data[off:off + ln]
        st = 'ok'
        if ln > BUFSIZE:
            st = 'big'
        elif off + ln > len(data) or sha(d) != h:
            st = 'wrong'
        elif any(off < o + l and off + ln > o for o, l in ioerr):
            st = 'eio'
        cl[n - 1].append(dict(st=st, brk=brk_slots(scn, off, d) if aliased and st == 'ok' else [], off=off, len=ln))
    return cl


def strip(m):
    return [[dict(st=p['st'], brk=p['brk']) for p in x] for x in m]


# ------------------------------------------------------------ running

LOCALNAMES = ['local%d.%d'] * 6 + ['srv/http/img%d.%d', '%d-%d.https', 'x=%d,y=%d', '-%d%d', '%d#encrypt=key:%d', 'HTTP%d.%d',
                                   'target:%d.%d', 'b\xe4ck\xfcp-%d-%d', 'a/b/c/../d%d%d', '%d.%d.caibx', 'extract%d%d', '%d%%20%d']
LOCALNAMES = [x for x in LOCALNAMES if ':' not in x]     # a colon begins the name of a side-loaded index



def hexid(h):
    return h.hex()


def chunk_url(base, h, enc):
    x = h.hex()
    return '%s/%s/%s.cacnk%s' % (base, x[:4], x, '.enc' if enc else '')


COMPS = [None, 'raw', 'sum', 'nosize', 'max', 'multi', 'skip']


def body_of(data, comp=None):
    if comp == 'raw':
        return zstd_raw(data, 700)
    if comp == 'sum':
        return zstd(data, 3, True)
    if comp == 'nosize':
        return zstd(data, 3, False, False)
    if comp == 'max':
        return zstd(data, 19)
    if comp == 'multi':
        # several frames, one of them empty
        a, b = len(data) // 3, len(data) // 2
        return zstd(data[:a], 1) + zstd_raw(data[a:b], 100) + zstd(b'') + zstd(data[b:], 3, True)
    if comp == 'skip':
        # frames that carry no data
        a = len(data) // 2
        return zstd(data[:a], 3) + b'\x53\x2a\x4d\x18\x05\0\0\0extra' + zstd(data[a:], 1, False, False) + b'\x50\x2a\x4d\x18\0\0\0\0'
    return zstd(data, 1)


def execute(scn, keep=None, bdir=None, shim=None, timeout=60, asan=False):
    """Runs all runs of the scenario. Returns (trace, details)."""
    from tlc import scratch
    d = keep or tempfile.mkdtemp(prefix='s-', dir=scratch())
    os.makedirs(d, exist_ok=True)
    try:
        return _execute(scn, d, bdir, shim, timeout, asan)
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)


def wfile(p, b):
    with open(p, 'wb') as f:
        f.write(b)


def _execute(scn, d, bdir, shim, timeout, asan):
    J = lambda *a: os.path.join(d, *a)
    idxp, tgtp = J('index.caibx'), J('target.img')
    if scn.sparse:
        with open(tgtp, 'wb') as f:
            f.truncate(scn.sparse[0])
            for o, b in scn.sparse[1].items():
                f.seek(o)
                f.write(b)
    elif scn.target is not None:
        wfile(tgtp, scn.target)
    bounds = slot_bounds(scn)
    image_end = bounds[-1][1] if bounds else 0
    details = dict(log=[], err=[], rc=[])
    evs, mruns = [], []
    prior0 = None
    skip0 = 0

    for rn, r in enumerate(scn.runs):
        wfile(idxp, r['index'] if r['index'] is not None else scn.index)
        img = Img(tgtp) if os.path.exists(tgtp) else None
        start = contents(scn, img) if img else [0] * len(scn.entries)
        size0 = img.size if img else -1
        tail0 = img.read(image_end, max(0, size0 - image_end)) if img and size0 - image_end < 1 << 24 else b''
        if prior0 is None:
            prior0 = start
        cfg = ['file target %s' % tgtp, 'file index %s' % idxp]
        argv_stores, mstores, urls = [], [], {}
        tags = {}
        contents_now = {}
        srv = None
        if r['net']:
            srv = net.Server({k: (J('http%d.%d' % (rn, k)), s['script'], s['default']) for k, s in enumerate(r['stores'], 1)
                              if s['t'] == 'http'}, zlib.crc32(repr((scn.entries, scn.name, rn)).encode()))
        watch, cuts = {idxp: None}, []
        for k, s in enumerate(r['stores'], 1):
            if s['t'] == 'target':
                argv_stores.append(tgtp)
                mstores.append(dict(t='target', sl=False, scanerr=False, shr=False, claims=[], occ=[]))
            elif s['t'] == 'http':
                base = srv.base(k) if srv else s['base'] or 'http://h%d.test/store%d' % (k, k)
                sd = J('http%d.%d' % (rn, k))
                os.makedirs(sd)
                for n in s['have']:
                    h, data = scn.ids[n - 1]
                    b = body_of(data, s['comp'])
                    if s['enc']:
                        b = xchacha(s['enc'], h, b)
                    wfile(os.path.join(sd, h.hex() + '.cacnk' + ('.enc' if s['enc'] else '')), b)
                for n, (tag, b) in s['serve'].items():
                    h = scn.ids[n - 1][0]
                    if s['enc']:
                        b = xchacha(s['enc'], h, b)
                    wfile(os.path.join(sd, h.hex() + '.cacnk' + ('.enc' if s['enc'] else '')), b)
                for n, (h, _) in enumerate(scn.ids, 1):
                    urls[chunk_url(base, h, s['enc'])] = (k, n)
                cfg.append('store %d %s' % (k, base))
                cfg.append('dir %d %s' % (k, sd))
                if zlib.crc32(repr((scn.entries, scn.name, k)).encode()) % 4 == 0:
                    cfg.append('rate %d %d' % (k, [200, 2000][k % 2]))
                for q, p in enumerate(s['script'] + [s['default']]):
                    body = p['body']
                    if isinstance(body, bytes):
                        bp = os.path.join(sd, 'body%d' % q)
                        wfile(bp, body)
                        body = bp
                    cfg.append('%s %d %s %d %d %d %d %s %s' % (
                        'def' if q == len(s['script']) else 'resp', k, p['o'], p['code'], p['status'], p['redir'],
                        p['stall'], body or '-', p['pieces']))
                arg = s['arg'] or base
                if s['enc'] and '#' not in arg:
                    arg += '#encrypt=key:' + s['enc'].hex()
                argv_stores.append(arg)
                mstores.append(dict(t='http', sl=False, scanerr=False, shr=False, claims=[], occ=[]))
            else:
                aliased = s['t'] == 'alias'
                if aliased:
                    p = J('alias%d.%d' % (rn, k))
                    if s['how'] == 'symlink':
                        os.symlink(tgtp, p)
                    elif s['how'] == 'dot':
                        p = J('.', 'target.img')
                    else:
                        os.link(tgtp, p)
                    data = img.read(0, img.size)
                    side, ioerr = s.get('side'), []
                else:
                    p = s['path'] or J(s['name'] or LOCALNAMES[zlib.crc32(repr((scn.entries, scn.name, rn, k)).encode()) % 61 % len(LOCALNAMES)] % (rn, k))
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    data = s['content']
                    if s['path'] is None:
                        wfile(p, data)
                    side, ioerr = s['side'], s['ioerr']
                    watch[p] = None
                contents_now[k] = (p, data)
                cfg.append('file store%d %s' % (k, p))
                arg = p
                for o, l in ioerr:
                    # of a scanned store: only after the scan
                    cfg.append('ioerr store%d %d %d 5%s' % (k, o, l, '' if s.get('side_ok', True) and side else ' 1'))
                sl = False
                cl = [[] for _ in scn.ids]
                if side is not None and side is not False:
                    sp = J('side%d.%d' % (rn, k))
                    wfile(sp, side)
                    watch[sp] = None
                    arg += ':' + sp
                    cfg.append('file side%d %s' % (k, sp))
                    sl = s.get('side_ok', True)
                    if sl:
                        cl = places_claims(scn, data, side, aliased, ioerr)
                elif side is False:
                    arg += ':' + J('does-not-exist')
                occ = places_scan(scn, data, scn.params, aliased, ioerr)
                if s.get('badscan') is not None:
                    cfg.append('ioerr store%d %d %d 5' % (k, s['badscan'], 1 << 30))
                    for x in occ:
                        for pl in x:
                            pl['st'] = 'maybe' if pl['st'] == 'ok' else pl['st']
                if s.get('cut'):
                    # [when, n, length]: the file shrinks
                    for pl in [pl for m in (cl, occ) for x in m for pl in x]:
                        if pl['off'] + pl['len'] > s['cut'][2] and pl['st'] == 'ok':
                            pl['st'] = 'cut'
                    cuts.append('at %s %d trunc %s %d' % (s['cut'][0].replace('@', str(k)), s['cut'][1], p, s['cut'][2]))
                argv_stores.append(arg)
                mstores.append(dict(t='local', sl=sl, scanerr=s.get('scanerr', False), shr=bool(s.get('cut')), claims=strip(cl), occ=strip(occ),
                                    _cl=cl, _occ=occ))
        trd = []
        for o, l in r['tgterr']:
            cfg.append('ioerr target %d %d 5' % (o, l))
            trd += [n for n, (a, b) in enumerate(bounds, 1) if a < o + l and b > o]
        mruns.append(dict(initfail=r['initfail'], mayfail=r['mayfail'], idxerr=r['idxerr'], idxmay=r['idxmay'], trd=trd, stores=mstores))

        # some of the files are block devices
        hsh = zlib.crc32(repr((scn.entries, scn.name, rn)).encode())
        if r['argv0'] is None and not any('trunc' in c for c in r['cfg']):
            for k, s in enumerate(r['stores'], 1):
                if s['t'] == 'local' and (hsh >> k) % 4 == 0:
                    cfg.append('blk store%d' % k)
            if scn.name.startswith('blk') or hsh % 5 == 0 and size0 >= image_end:
                cfg.append('blk target')

        for q, w in enumerate(r['muts']):
            sp = J('mut%d.%d' % (rn, q))
            wfile(sp, w[4])
            path = tgtp if w[2] == 'target' else contents_now[w[2]][0]
            cfg.append('at %s %d put %s %d %s' % (w[0], w[1], path, w[3], sp))
        cfg += cuts + [c.replace('@TGT@', tgtp).replace('@DIR@', d) for c in r['cfg']]
        cfgp, logp = J('shim.cfg'), J('shim.log')
        wfile(cfgp, ('\n'.join(cfg) + '\n').encode())
        for p in (logp, logp + '.bin'):
            if os.path.exists(p):
                os.unlink(p)
        before = {p: open(p, 'rb').read() for p in watch if os.path.exists(p)}
        listing0 = set(os.listdir(d))

        if r['argv'] is not None:
            argv = [a.replace('@IDX@', idxp).replace('@TGT@', tgtp).replace('@DIR@', d) for a in r['argv']]
            argv2 = []
            for a in argv:
                if a.startswith('@STORE'):
                    argv2.append(argv_stores[int(a[6:]) - 1])
                elif '=@STORE' in a:
                    x, y = a.split('=@STORE')
                    argv2.append(x + '=' + argv_stores[int(y) - 1])
                else:
                    argv2.append(a)
            argv = argv2
        elif r['app'] == 'csn':
            argv = [idxp, tgtp] + argv_stores
        else:
            argv = []
            for a, s in zip(argv_stores, r['stores']):
                argv += ['--store' if s['t'] == 'http' else '--seed', a]
            argv += ['extract', idxp, tgtp]
        env = {'PATH': '/usr/bin:/bin', 'SHIM_CFG': cfgp, 'SHIM_LOG': logp, 'LD_PRELOAD': shim,
               'HOME': d, 'LC_ALL': 'C', 'LOGLEVEL': '4'}
        if asan:
            env['LD_PRELOAD'] = asan_lib() + ' ' + shim
            env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:abort_on_error=0'
            env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=99'
        if srv:
            env['SHIM_REALCURL'] = '1'
        ll = LOGLEVELS[zlib.crc32(repr((scn.name, rn, scn.entries)).encode()) % 16 % len(LOGLEVELS)]
        if ll is None:
            del env['LOGLEVEL']
        else:
            env['LOGLEVEL'] = ll
        for k, v in r['env'].items():
            if v is None:
                env.pop(k, None)
            else:
                env[k] = v.replace('@DIR@', d)
        if True:
            exe = os.path.join(bdir, r['app'])
            cmd = [exe if r['argv0'] is None else r['argv0']] + argv
            kw = dict(executable=exe, cwd=d, env=env, timeout=timeout, asan=asan)
            out = b''
            if r['stdio'] in (None, 'pipe'):
                rc, out, err = spawn(cmd, stdin=subprocess.DEVNULL, **kw)
            elif r['stdio'] == 'ttyout':
                rc, out, err = run_tty(cmd, kw, False)
            else:
                rc, err = run_stdio(cmd, r['stdio'], kw)
            if rc is None:
                rc = -999
            if srv:
                srv.close()
                if time.time() - srv.t0 > 12:
                    with SLOW.get_lock():
                        SLOW.value += 1
            err = err[-100000 if r['stdio'] is None else -8000000:].decode(errors='replace')
        if rc == 97:
            raise CheckError('shim: ' + err[-500:])
        if rc == 94:
            hung()
        if os.environ.get('LOGSTAT') and os.path.exists(logp):
            open('/tmp/logstat','a').write('%d %d %s\n' % (os.path.getsize(logp), os.path.getsize(logp+'.bin'), scn.name))
        log = readlog(logp)
        if srv:
            log = net.merge(log, srv, urls)
        binf = open(logp + '.bin', 'rb').read() if os.path.exists(logp + '.bin') else b''
        details['log'].append(log)
        details['err'].append(err[-3000:])
        if r['stdio'] in ('pipe', 'ttyout'):
            details.setdefault('errfull', []).append(err)
            details.setdefault('out', []).append(out)
        details['rc'].append(rc)
        details['argv'] = argv

        ev, unclean = abstract(scn, r, log, binf, urls, mstores, contents_now, bounds, d)

        # ---- state after the run
        img2 = Img(tgtp) if os.path.exists(tgtp) else None
        fin = contents(scn, img2) if img2 else [0] * len(scn.entries)
        if img:
            img.close()
        tail1 = img2.read(image_end, max(0, img2.size - image_end)) if img2 and img2.size - image_end < 1 << 24 else b''
        tmut = [w for w in r['muts'] if w[2] == 'target']
        if not tmut:
            if (img is None) != (img2 is None):
                unclean.append('target created or removed')
            elif img2:
                if tail0 != tail1:
                    unclean.append('bytes behind the image changed')
                if img2.size < size0 or (size0 >= image_end and img2.size != size0):
                    unclean.append('size of target changed')
                if img2.size > max(size0, image_end):
                    unclean.append('target extended')
        if img2:
            img2.close()
        for p, b in before.items():
            want = b
            for q, w in enumerate(r['muts']):
                if w[2] != 'target' and contents_now[w[2]][0] == p and ('A %s %d %d' % (w[0], w[1], q)) in log:
                    want = want[:w[3]] + w[4] + want[w[3] + len(w[4]):]
            cut = [int(c.split()[-1]) for c in cfg if ' trunc %s ' % p in c]
            if not os.path.exists(p) or open(p, 'rb').read() not in [want] + [want[:x] for x in cut]:
                unclean.append('file changed: ' + os.path.basename(p))
        extra = set(os.listdir(d)) - listing0 - {'shim.log', 'shim.log.bin'}
        if extra:
            unclean.append('files created: %s' % sorted(extra))
        killed = any(l == 'KILL' for l in log)
        last = ev['last']
        if ev['pend'] is not None:
            s = ev['pend']
            if killed:
                ev['ev'].append(dict(e='torn', s=s + 1, v=fin[s], lk=ev['lk']))
            elif ev['werr'] is not None:
                ev['ev'].append(dict(e='werr', s=s + 1, v=fin[s], lk=ev['lk']))
            else:
                ev['ev'].append(dict(e='incomplete', s=s + 1))
        elif ev['werr'] is not None and not killed:
            s = ev['werr']
            ev['ev'].append(dict(e='werr', s=s + 1, v=fin[s], lk=ev['lk']))
        if killed:
            ev['ev'].append(dict(e='kill'))
        if any(l == 'HANG' for l in log):
            ev['ev'].append(dict(e='hang'))
        arc = 1 if r['helps'] and rc in (0, 1) else rc if rc in (0, 1) else 137 if rc == -9 and killed else 2
        ev['ev'].append(dict(e='exit', rc=arc, real=rc, fin=fin, clean=not unclean, why='; '.join(unclean),
                             lk=ev['lk']))
        evs += ev['ev']

    maxrun = [dict(initfail=m['initfail'], mayfail=m['mayfail'], idxerr=m['idxerr'], idxmay=m['idxmay'], trd=m['trd'],
                   stores=[{k: v for k, v in s.items() if not k.startswith('_')} for s in m['stores']]) for m in mruns]
    idl = lambda i: len(scn.ids[i - 1][1]) if scn.ids[i - 1][1] is not None else None
    ents = [dict(id=i, k=ekind(l), fits=(idl(i) == l or idl(i) is None)) for i, l in scn.entries]
    trace = dict(name=scn.name, scn=dict(entries=ents, prior=prior0, runs=maxrun), ev=evs)
    return compact(trace), details


def run_tty(cmd, kw, all_):
    """with standard output (or all descriptors) on a terminal"""
    import threading
    m, s = os.openpty()
    got = []

    def drain():
        try:
            while True:
                b = os.read(m, 4096)
                if not b:
                    break
                got.append(b)
        except OSError:
            pass
    t = threading.Thread(target=drain)
    t.start()
    try:
        if all_:
            rc, _, err = spawn(cmd, stdin=s, stdout=s, stderr=s, **kw)
        else:
            rc, _, err = spawn(cmd, **dict(dict(stdin=subprocess.DEVNULL), **kw, stdout=s))
    finally:
        os.close(s)
        t.join()
        os.close(m)
    return rc, b''.join(got), err


def run_stdio(cmd, how, kw):
    """with some standard descriptors closed, on a terminal, or full"""
    if how == 'full':
        with open('/dev/full', 'wb') as f:
            return spawn(cmd, stdin=subprocess.DEVNULL, stdout=f, stderr=f, **kw)[0], b''
    if how == 'tty':
        rc, out, _ = run_tty(cmd, kw, True)
        return rc, out[-2000 * 4096:]

    def pre():
        for fd in how:
            os.close(fd)
    rc, _, err = spawn(cmd, stdin=subprocess.DEVNULL, preexec=pre, **kw)
    return rc, err


LOGLEVELS = ['4', None, 'debug', 'info', 'warn', 'warning', 'err', 'error', '', 'DEBUG', 'x' * 300]


def compact(t):
    """Long prefixes that are in place throughout are dropped from the trace:
    the corresponding Skip steps are all alike."""
    n = len(t['scn']['entries'])
    if n <= 400:
        return t
    fins = [e['fin'] for e in t['ev'] if e['e'] == 'exit']
    ents, prior = t['scn']['entries'], t['scn']['prior']
    cut = 0
    ok = lambda p: ents[p]['k'] == 'ok' and ents[p]['fits'] and prior[p] == ents[p]['id'] and all(f[p] == prior[p] for f in fins)
    while cut < n and ok(cut):
        cut += 1
    touched = [e['s'] - 1 for e in t['ev'] if 's' in e] + [p - 1 for r in t['scn']['runs'] for p in r['trd']]
    cut = min([cut] + touched)
    seen, keep = set(), []
    for p in range(cut):
        if ents[p]['id'] not in seen:
            seen.add(ents[p]['id'])
            keep.append(p)
    keep += list(range(cut, n))
    new = {p: q for q, p in enumerate(keep)}
    t['scn']['entries'] = [ents[p] for p in keep]
    t['scn']['prior'] = [prior[p] for p in keep]
    for e in t['ev']:
        if 's' in e:
            e['s'] = new[e['s'] - 1] + 1
        if 'fin' in e:
            e['fin'] = [e['fin'][p] for p in keep]
    for r in t['scn']['runs']:
        r['trd'] = [new[p - 1] + 1 for p in r['trd'] if p - 1 in new]
        if r['idxerr']:
            r['idxerr'] = new[r['idxerr'] - 1] + 1
    return t


def abstract(scn, r, log, binf, urls, mstores, contents_now, bounds, d):
    ev, unclean = [], []
    starts = [a for a, b in bounds]
    lk = []
    pend = None      # (slot, offset reached, data)
    werr = None
    bp = 0
    synced = False
    cur = {k: v[1] for k, v in contents_now.items()}

    def place_of(off):
        """slot that starts at off (zero length slots never get written)"""
        i = bisect.bisect_left(starts, off)
        while i < len(starts) and bounds[i][1] == bounds[i][0]:
            i += 1
        return i if i < len(starts) and starts[i] == off else None

    def feed(off, data):
        nonlocal pend, lk
        while data:
            if pend is None:
                s = place_of(off)
                if s is None:
                    ev.append(dict(e='badwrite', off=min(off, 2**31 - 1)))
                    return
                pend = [s, off, b'']
            s, o, got = pend
            if off != o:
                # starting a slot over is fine (a write that is tried again)
                if off == bounds[s][0]:
                    pend = [s, off, b'']
                    continue
                ev.append(dict(e='badwrite', off=min(off, 2**31 - 1)))
                return
            n = min(len(data), bounds[s][1] - o)
            got += data[:n]
            data = data[n:]
            off += n
            pend = [s, o + n, got]
            if o + n == bounds[s][1]:
                i = scn.entries[s][0]
                v = i if sha(got) == scn.ids[i - 1][0] else 0
                ev.append(dict(e='write', s=s + 1, v=v, lk=lk))
                lk = []
                pend = None

    for line in log:
        f = line.split(' ')
        t = f[0]
        if t == 'Q':
            u = line.split(' ', 5)[5]
            k, n = urls.get(u, (int(f[1]), 0))
            o = f[3]
            if o == 'ok' and k > 0 and n in r['stores'][k - 1].get('serve', ()):
                o = r['stores'][k - 1]['serve'][n][0]
            ev.append(dict(e='req', k=k, id=n, o=o, **({'url': u} if n == 0 else {})))
        elif t == 'S':
            ms = int(f[1])
            ev.append(dict(e='sleep', ms=ms // 1000 if ms % 1000 == 0 else -1))
        elif t == 'W':
            if f[1] != 'target':
                if f[1].startswith('store') and contents_now.get(int(f[1][5:]), ('',))[0] != '':
                    unclean.append('write to ' + f[1])
                else:
                    unclean.append('write to ' + f[1])
                bp += max(0, int(f[3]))
                continue
            n = int(f[3])
            if n <= 0:
                continue
            feed(int(f[2]), binf[bp:bp + n])
            bp += n
        elif t == 'WE':
            if int(f[4]) != 4 and f[1] == 'target':
                s = place_of(int(f[2]))
                if pend is not None:
                    werr = pend[0]
                else:
                    werr = s
                if werr is None:
                    ev.append(dict(e='badwrite', off=-1))
        elif t in ('Rp', 'Rs'):
            if f[1] == 'target':
                synced = True
            elif f[1].startswith('store') and synced and int(f[3]) > 0:
                k = int(f[1][5:])
                if k not in lk:
                    lk.append(k)
        elif t == 'A':
            q = int(f[3])
            if q >= len(r['muts']):
                continue
            w = r['muts'][q]
            if w[2] == 'target':
                # content of slots is looked up by the caller of the scenario: only whole slots are changed
                for s, (a, b) in enumerate(bounds):
                    if a < w[3] + len(w[4]) and b > w[3]:
                        i = scn.entries[s][0]
                        full = a >= w[3] and b <= w[3] + len(w[4])
                        v = i if full and sha(w[4][a - w[3]:b - w[3]]) == scn.ids[i - 1][0] else 0
                        ev.append(dict(e='mutT', s=s + 1, v=v))
            else:
                k = w[2]
                cur[k] = cur[k][:w[3]] + w[4] + cur[k][w[3] + len(w[4]):]
                pl = []
                m = mstores[k - 1]
                for src, pls in (('c', m['_cl']), ('o', m['_occ'])):
                    if src == 'o' and m['sl']:
                        continue
                    for i, x in enumerate(pls, 1):
                        for o, p in enumerate(x, 1):
                            if p['st'] == 'ok' and sha(cur[k][p['off']:p['off'] + p['len']]) != scn.ids[i - 1][0]:
                                pl.append([src, k, i, o])
                ev.append(dict(e='mutS', pl=pl))
        elif t == 'O':
            fl = int(f[2])
            if f[1] != 'target' and (fl & 3) != 0:
                unclean.append('%s opened for writing' % f[1])
            if fl & (os.O_TRUNC):
                unclean.append('%s truncated' % f[1])
        elif t in ('OW',):
            p = line.split(' ', 2)[2]
            if not p.startswith('/dev/') and not p.startswith('/proc/'):
                unclean.append('opened for writing: ' + p)
        elif t == 'MOD':
            unclean.append(line)
    return dict(ev=ev, lk=lk, pend=pend[0] if pend else None, werr=werr, last=None), unclean


_asan = None


def asan_lib():
    global _asan
    if _asan is None:
        _asan = subprocess.check_output(['gcc', '-print-file-name=libasan.so']).decode().strip()
        t = open(_asan, 'rb').read(200)
        if not t.startswith(b'\x7fELF'):
            import re as _re
            m = _re.search(rb'(/\S+libasan\.so\S*)', t)
            _asan = m.group(1).decode()
    return _asan

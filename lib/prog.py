"""Running one program of /repo under the shim, and generic recorded-run conformance."""
import json, multiprocessing as mp, os, pickle, shutil, subprocess, tempfile, stat, traceback
from common import *
import tlc as T


def scratchdir():
    return tempfile.mkdtemp(prefix='p-', dir=T.scratch())


_ctx = {}


def setup_ctx(asan=False):
    _ctx.update(shim=build_shim(), plain=build('plain'))
    if asan:
        _ctx['asan'] = build('asan')
    T.scratch()


def call(app, argv, d, cfg=(), stdin=b'', env=None, asan=False, timeout=60, shim=True, argv0=None, nocurl=None,
         preexec=None, closed=(), tty=False):
    """-> dict(rc, out, err, log, bin). The working directory is d."""
    cfgp, logp = os.path.join(d, '.shim.cfg'), os.path.join(d, '.shim.log')
    with open(cfgp, 'w') as f:
        f.write('\n'.join(cfg) + '\n')
    for p in (logp, logp + '.bin'):
        if os.path.exists(p):
            os.unlink(p)
    e = {'PATH': '/usr/bin:/bin', 'HOME': d, 'LC_ALL': 'C', 'LOGLEVEL': '4'}
    if shim:
        if nocurl is None:
            nocurl = app not in ('csn', 'casync')
        so = _ctx['shim'][:-3] + '-nocurl.so' if nocurl else _ctx['shim']
        e.update({'SHIM_CFG': cfgp, 'SHIM_LOG': logp, 'LD_PRELOAD': so})
    if asan:
        import csn
        e['LD_PRELOAD'] = csn.asan_lib() + ' ' + e.get('LD_PRELOAD', '')
        e['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:abort_on_error=0'
        e['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=99'
    e.update(env or {})
    exe = os.path.join(_ctx['asan' if asan else 'plain'], app)
    kw = dict(stdin=subprocess.DEVNULL) if stdin is None else \
        dict(inp=stdin) if isinstance(stdin, bytes) else dict(stdin=stdin)
    pre = preexec
    if closed:
        def pre():
            if preexec:
                preexec()
            for fd in closed:
                os.close(fd)
    kw.update(timeout=timeout, executable=exe, cwd=d, env=e, preexec=pre, asan=asan)
    if tty:
        import csn
        rc, out, err = csn.run_tty([argv0 or exe] + list(argv), kw, False)
    else:
        rc, out, err = spawn([argv0 or exe] + list(argv), **kw)
    err = err[-100000:].decode(errors='replace')
    if rc is None:
        rc = -999
    if rc == 97:
        raise CheckError('shim: ' + err[-500:])
    if rc == 94:
        hung()
    log = readlog(logp)
    binf = open(logp + '.bin', 'rb').read() if os.path.exists(logp + '.bin') else b''
    for p in (cfgp, logp, logp + '.bin'):
        if os.path.exists(p):
            os.unlink(p)
    return dict(rc=rc, out=out, err=err, log=log, bin=binf, killed='KILL' in log)


def rnd_stdio(r, keep=()):
    """descriptors to close, log level"""
    return [fd for fd in (0, 1, 2) if fd not in keep and r.random() < 0.7] if r.random() < 0.2 else [], \
        dict(LOGLEVEL=r.choice(['debug', 'err', 'warn', 'x', ''])) if r.random() < 0.3 else {}


def arc(r):
    """exit status for traces: 0, 1, 137 (killed by the script), 2 (anything else)"""
    return r['rc'] if r['rc'] in (0, 1) else 137 if r['rc'] == -9 and r['killed'] else 2


def writes(r, cls):
    """[(offset, bytes)] of the write calls on a class that wrote something, None as offset: at the end"""
    o, bp = [], 0
    for l in r['log']:
        f = l.split(' ')
        if f[0] == 'W':
            n = int(f[3])
            if n > 0:
                if f[1] == cls:
                    o.append((int(f[2]), r['bin'][bp:bp + n]))
                bp += n
    return o


def wfile(p, b):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(b)


def snapshot(d):
    """everything below d: path -> (mode, content)"""
    r = {}
    for root, ds, fs in os.walk(d):
        for x in ds + fs:
            p = os.path.join(root, x)
            s = os.lstat(p)
            if stat.S_ISLNK(s.st_mode):
                c = os.readlink(p).encode()
            elif stat.S_ISREG(s.st_mode):
                c = open(p, 'rb').read()
            else:
                c = b''
            r[os.path.relpath(p, d)] = (stat.S_IFMT(s.st_mode), c)
    return r


# ------------------------------------------------------------ conformance

def _go(a):
    mod, fn, item = a
    if HANGS.value >= HANGMAX:
        return ('skipped', '')
    import importlib
    try:
        return getattr(importlib.import_module(mod), fn)(item)
    except CheckError as e:
        return ('error', str(e))
    except Exception:
        # what the program did cannot even be written down: no behaviour of the specification
        return dict(ev=[dict(e='unrecordable'), dict(e='unrecordable')]), traceback.format_exc()


def run_items(mod, fn, items, procs=NPROC):
    with mp.get_context('fork').Pool(procs) as p:
        res = p.map(_go, [(mod, fn, i) for i in items], chunksize=4)
    for x in res:
        if x[0] == 'error':
            raise CheckError(x[1])
    return res


def conform(chk, name, module, mod, fn, items, asan=False, batch=250, cfg=None, jobs=4):
    """mod.fn(item) -> (trace, text): runs the real program. TLC decides over the traces."""
    if chk.viol and chk.hung:
        return
    setup_ctx(asan)
    res = run_items(mod, fn, items)
    if HANGS.value:
        chk.hung = True
        items = [i for i, x in zip(items, res) if x[0] != 'skipped']
        res = [x for x in res if x[0] != 'skipped']
    traces = [x[0] for x in res]
    acc, g, d = T.validate(module, traces, cfg=cfg, batch=batch, jobs=jobs)
    chk.trans += g
    chk.states += d
    chk.traces += len(traces)
    chk.evals += len(traces)
    chk.parts[name] = dict(runs=len(items), accepted=len(acc), events=sum(len(t.get('ev', [])) for t in traces))
    for t in traces:
        if len(t.get('ev', [])) > 1:
            chk.nontrivial.add(hash(json.dumps(t.get('ev'), sort_keys=True, default=str)))
    for t in traces[:1] + traces[len(traces) // 2:len(traces) // 2 + 1]:
        chk.sample(dict(part=name, trace=json.loads(json.dumps(t, default=str)) if len(json.dumps(t, default=str)) < 3000 else
                        dict(ev=t.get('ev', [])[:10])))
    rej = [i for i in range(len(items)) if i not in acc]
    if not rej:
        return
    HANGS.value = 0
    again = [x for x in run_items(mod, fn, [items[i] for i in rej[:12]]) if x[0] != 'skipped']
    acc2, _, _ = T.validate(module, [x[0] for x in again], cfg=cfg)
    bad = [k for k in range(len(again)) if k not in acc2]
    if not bad:
        raise CheckError('%s: %d recordings were rejected once, but not when repeated' % (name, len(rej)))
    for k in bad[:3]:
        chk.violation('unit', dict(module=module, cfg=cfg, mod=mod, fn=fn, item=items[rej[k]], asan=asan),
                      text(name, module, again[k], cfg))


def text(name, module, r, cfg=None):
    t, txt = r
    n, at = T.progress(module, t, cfg=cfg)
    ev = t.get('ev', [])
    return '\n'.join(['%s: the recorded run is not a behaviour of the specification (%s)' % (name, module),
                      '  %s' % txt[:1500].replace('\n', '\n  '),
                      '  accepted up to event %d: %s' % (n, str(ev[max(0, n - 4):n - 1])[:700]),
                      '  not explained: %s' % str(ev[n - 1] if 0 < n <= len(ev) else None)[:500],
                      '  furthest state of the specification: %s' % at[:400]])


def replay(data):
    setup_ctx(data['asan'])
    r = _go((data['mod'], data['fn'], data['item']))
    acc, _, _ = T.validate(data['module'], [r[0]], cfg=data['cfg'])
    print('replayed on the current tree:', 'accepted' if acc else 'rejected again')
    if not acc:
        print(text('replay', data['module'], r, data['cfg']))

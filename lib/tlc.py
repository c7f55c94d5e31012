"""Running TLC."""
import json, os, re, subprocess, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
from common import *

JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'


def tlc(module, cfg=None, env=None, args=(), workers=1, timeout=800, heap='3g', ok_codes=(0,)):
    """Runs TLC on spec/<module>.tla; returns its output."""
    meta = tempfile.mkdtemp(prefix='tlc-', dir=scratch())
    cmd = ['timeout', '-k', '5', str(int(timeout)), 'java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=4',
           '-cp', JAR + ':' + CM, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
           '-workers', str(workers), '-config', cfg or module + '.cfg', *args, module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.stdout.decode(errors='replace')
    shutil.rmtree(meta, ignore_errors=True)
    if p.returncode not in ok_codes:
        raise CheckError('TLC failed (%d) on %s %s:\n%s' % (p.returncode, module, cfg, out[-6000:]))
    return out


def stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None or not os.path.isdir(_scratch):
        import atexit
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
        _scratch = tempfile.mkdtemp(prefix='csnv-', dir=base)
        pid = os.getpid()
        atexit.register(lambda d=_scratch: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    return _scratch


def java_module():
    pass


def validate(module, traces, cfg=None, env=None, batch=250, jobs=4, workers=2, heap='3g', timeout=800):
    """traces: list of JSON-able traces. Returns (set of accepted indices, states, distinct)."""
    d = scratch()
    parts = [list(range(i, min(i + batch, len(traces)))) for i in range(0, len(traces), batch)]

    def one(ix):
        fd, path = tempfile.mkstemp(suffix='.json', dir=d)
        with os.fdopen(fd, 'w') as f:
            json.dump([traces[i] for i in ix], f)
        e = {'TRACES': path}
        e.update(env or {})
        try:
            out = tlc(module, cfg, e, workers=workers, heap=heap, timeout=timeout)
        except CheckError as x:
            # a recording the specification cannot even be evaluated on is no behaviour of it
            if not re.search(r'[Ee]valuating|[Aa]ttempted to|out of domain', str(x)) or \
                    re.search(r'OutOfMemory|StackOverflow|No space|Parsing|parse|Unknown operator', str(x)):
                raise
            if len(ix) == 1:
                return set(), (0, 0)
            h = len(ix) // 2
            (a, (g, s)), (b, (g2, s2)) = one(ix[:h]), one(ix[h:])
            return a | b, (g + g2, s + s2)
        finally:
            os.unlink(path)
        acc = {ix[int(m) - 1] for m in re.findall(r'<<"ACC", (\d+)>>', out)}
        if 'Model checking completed' not in out:
            raise CheckError('TLC did not complete:\n' + out[-3000:])
        return acc, stats(out)

    acc, gen, dist = set(), 0, 0
    with ThreadPoolExecutor(jobs) as ex:
        for a, (g, s) in ex.map(one, parts):
            acc |= a
            gen += g
            dist += s
    return acc, gen, dist


def progress(module, trace, cfg=None, env=None):
    """how far a rejected trace gets: text"""
    d = scratch()
    fd, path = tempfile.mkstemp(suffix='.json', dir=d)
    with os.fdopen(fd, 'w') as f:
        json.dump([trace], f)
    e = {'TRACES': path, 'DBG': '1'}
    e.update(env or {})
    try:
        out = tlc(module, cfg, e)
    except CheckError as x:
        out = str(x)
    os.unlink(path)
    at = re.findall(r'<<"AT".*?>>', out, re.S)
    best = max(at, key=lambda s: int(re.findall(r'"AT", \d+, (\d+)', s)[0])) if at else '?'
    n = int(re.findall(r'"AT", \d+, (\d+)', best)[0]) if at else 0
    return n, re.sub(r'\s+', ' ', best)

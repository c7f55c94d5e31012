"""C24: what runs report."""
import hashlib, random, re
import fam, csn, toolc, pddc, clic, prog
from prog import *
from prog import _ctx

LEVELS = ['debug', 'info', 'warn', 'warning', 'err', 'error', None, 'DEBUG', 'x' * 200, 'inf', 'errors', '']
LINE = re.compile(r'^(ERR|WRN|INF|DBG) [^ :]+:[^ :]+:\d+ ')
CLINE = re.compile('^\x1b\\[38;5;(\\d+)m[^ :]+:[^ :]+:\\d+\t(.*)\x1b\\[0m$', re.S)
COL = {'196': 'ERR', '202': 'WRN', '40': 'INF', '75': 'DBG'}
FAMS = ['random_', 'faulty_', 'prefix_', 'side', 'length_', 'retry', 'ioerr', 'shrink', 'localio', 'nostore', 'bodies', 'tgtio', 'stdlike', 'stdlike', 'many2']


def messages(err, d):
    """stderr -> [dict(sev, text, h)]; text: not a log message but an explanation"""
    r = []
    for l in err.replace('\r\n', '\n').split('\n'):
        if not l:
            continue
        c = CLINE.match(l)
        m = LINE.match(l)
        sev = COL.get(c.group(1), '?') if c else m.group(1) if m else '?'
        body = c.group(2) if c else l[m.end():] if m else l
        body = re.sub(r'/?[^ \'":]*/(csnv-[^/ ]*/)?[sp]-[a-z0-9_]{8}', 'DIR', body)
        body = re.sub(r'0x[0-9a-f]+|\d+ seconds', 'X', body)
        h = int(hashlib.sha256(body.encode()).hexdigest()[:7], 16)
        if sev == '?' and r and r[-1]['text']:
            continue            # lines of one explanation
        r.append(dict(sev=sev, text=sev == '?', h=h))
    return r


def pcts(out):
    return [int(x) for x in re.findall(rb'\| *(\d+)%', out)]


def summary(err):
    """the statistics of a csn run: [chunks asked for, skipped, answers per store]"""
    q = re.search(r'(\d+) queries received by', err)
    if not q:
        return []
    k = re.search(r'skipped prefix of (\d+) chunks', err)
    return [dict(q=int(q.group(1)), skipped=int(k.group(1)) if k else 0,
                 hits=[int(x) for x in re.findall(r'(\d+) answered by store', err)])]


def items(r, n):
    out = []
    for q in range(n):
        f = r.choice(FAMS)
        s = None
        if f == 'stdlike':
            f = r.choice(['crash', 'clean_', 'repeat'])
        elif f == 'many2':
            f = 'many' if r.random() < 0.25 else 'mixedlast'
        for s in getattr(fam, f)(r, 1):
            break
        if s is None:
            continue
        s.runs = s.runs[:1]
        if s.runs[0]['stdio'] is not None:
            continue
        out.append((s, r.sample(LEVELS[1:], 3), r.random() < 0.6))
    return out


def run_csn(it):
    s, levels, tty = it
    ev, txt, n = [], '', len(s.entries)
    for k, lv in enumerate(['debug'] + levels):
        t = tty and k > 0
        x = dict(s.runs[0], env=dict(s.runs[0]['env']), stdio='ttyout' if t else 'pipe')
        x['env']['LOGLEVEL'] = lv
        keep = s.runs
        s.runs = [x]
        tr, det = csn.execute(s, bdir=_ctx['plain'], shim=_ctx['shim'])
        s.runs = keep
        beh = hashlib.sha256(json.dumps([tr['scn']['prior'], tr['ev']], sort_keys=True).encode()).hexdigest()[:16]
        rc = det['rc'][0]
        if len(det['errfull'][0]) > 300000:
            break               # a response delivered in very many pieces
        ms = messages(det['errfull'][0], None)
        sm, done = summary(det['errfull'][0]), []
        st = x['stores']
        if sm and len(sm[0]['hits']) == len(st):
            # what stores on the network are said to have answered, and did
            us = [q.get('base') or q.get('arg') or k for k, q in enumerate(st)]
            for q in range(len(st)):
                if st[q]['t'] == 'http' and us.count(us[q]) == 1:
                    done.append([sm[0]['hits'][q], sum(e['e'] == 'req' and e['k'] == q + 1 and e['o'] == 'ok' for e in tr['ev'])])
        if t and lv not in ('debug',) and rc == 0 and n:
            done.append([int(det['out'][0].endswith(b'\n')), 1])
        ev.append(dict(e='run', sum=sm, done=done, level='unset' if lv is None else lv, tty=t, rc=137 if rc == -9 else rc, beh=beh, msgs=ms,
                       pcts=pcts(det['out'][0]) if t else [0] if det['out'][0] else []))
        txt += 'LOGLEVEL=%r tty=%s exit %d\n%s' % (lv, t, rc, ''.join('    %s\n' % l[:160] for l in det['errfull'][0].split('\n')[-6:]))
    return dict(n=n, stores=len(s.runs[0]['stores']), later=False, ev=ev), '%s %s' % (s.name, txt)


def _tool(mod, it, levels, tty=False, fn='run_case'):
    """run_case of the module, at different levels"""
    ev, txt = [], ''
    orig = mod.call
    for lv in ['debug'] + levels:
        got = []

        def call(*a, **k):
            e = dict(k.pop('env', None) or {})
            if lv is None:
                e['LOGLEVEL'] = 'info'
            else:
                e['LOGLEVEL'] = lv
            k['closed'] = ()
            k['tty'] = tty and lv != 'debug'
            x = orig(*a, env=e, **k)
            got.append(x)
            return x
        mod.call = call
        try:
            tr, _ = getattr(mod, fn)(it)
        finally:
            mod.call = orig
        beh = hashlib.sha256(json.dumps(tr, sort_keys=True, default=str).encode()).hexdigest()[:16]
        ms = []
        for x in got:
            ms += messages(x['err'], None)
        rc = max([arc(x) for x in got] or [0])
        done, ps, n = [], [], -1
        if mod is pddc and tty and lv != 'debug' and got:
            ps, n = pcts(got[-1]['out']), tr.get('blocks', len(tr['first']))
        if mod is pddc and got and rc == 0:
            k = re.search(rb'skipped a total of (\d+) bytes', got[-1]['out'])
            if k:
                done += [[k.group(1).decode(), tr.get('skipped') or str(sum(f - (b << 20) for b, f in enumerate(tr['first'])))]]
        # one failing invocation without any message is enough
        if any(arc(x) not in (0, 137) and not x['err'].strip() for x in got):
            ms = []
        ev.append(dict(e='run', sum=[], done=done, level=lv if lv else 'info', tty=tty, rc=rc, beh=beh, msgs=ms, pcts=ps))
        txt += 'LOGLEVEL=%r exit %s\n%s' % (lv, [x['rc'] for x in got], '\n'.join('    ' + x['err'][-300:] for x in got))
    return dict(n=n, stores=-1, later=True, ev=ev), txt


def run_tool(it):
    return _tool(toolc, *it)


def run_pdd(it):
    return _tool(pddc, *it, tty=True)


def run_pddbig(it):
    return _tool(pddc, *it, tty=True, fn='run_big')


def pddbig_items(r, n):
    return [(i, [r.choice(LEVELS[1:6])]) for i in pddc.big_items(r, n + 1)[::-1][:n]]


def tool_items(r, n):
    return [(i, r.sample(LEVELS[1:6], 2)) for i in toolc.items(r, n)]


def pdd_items(r, n):
    return [(i, r.sample(LEVELS[1:6], 2)) for i in pddc.items(r, n)]


def cli_items(r, n):
    out = []
    for s in list(clic.cli(r, n)) + list(clic.notarget(r, n // 4)):
        s.runs = s.runs[:1]
        if s.runs[0]['stdio'] is None:
            out.append((s, r.sample(LEVELS[1:], 2), False))
    return out

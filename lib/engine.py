"""The machinery shared by all checks."""
import json, multiprocessing as mp, os, pickle, random, shutil, sys, time, traceback, threading
from common import *
import tlc as T

KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Check:
    def __init__(self, pid, level, rule):
        self.pid, self.level, self.rule = pid, level, rule
        self.t0 = time.time()
        self.states = self.trans = self.traces = self.evals = 0
        self.nontrivial = set()
        self.samples, self.parts, self.viol = [], {}, []
        self.assume = []
        self.hung = False
        self.rng = random.Random('%s-%s-%d' % (pid, TIER, SEED))
        self.known_hits = load_known().get(pid, [])

    # -------------------------------------------------- model checking
    def mc(self, module, cfg, args=(), workers=2, timeout=800, heap='4g', name=None, env=None):
        if SCALE != 1:
            return ''       # the specification does not change
        out = T.tlc(module, cfg, args=args, workers=workers, timeout=timeout, heap=heap, env=env)
        if 'No error has been found' not in out and 'Model checking completed' not in out:
            raise CheckError('TLC: ' + out[-3000:])
        g, d = T.stats(out)
        self.trans += g
        self.states += d
        self.parts['mc:' + (name or cfg)] = dict(states=d, transitions=g)
        return out

    # -------------------------------------------------- violations
    def violation(self, kind, data, text):
        d = os.path.join(WORK, 'replay', self.pid)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.pkl' % (kind, len(self.viol)))
        with open(p, 'wb') as f:
            pickle.dump(dict(pid=self.pid, kind=kind, data=data, text=text), f)
        with open(p[:-4] + '.txt', 'w') as f:
            f.write(text)
        self.viol.append((p, text))

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    # -------------------------------------------------- the end
    def finish(self):
        ev = dict(property=self.pid, tier='thorough' if THOROUGH else 'quick', seed=SEED, level=self.level,
                  coverage=dict(states=self.states, transitions=self.trans,
                                traces_validated_against_impl=self.traces, evaluations=self.evals,
                                distinct_nontrivial=len(self.nontrivial), rule=self.rule,
                                samples=self.samples or ['none'], parts=self.parts),
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(EVID, exist_ok=True)
        p = os.path.join(EVID, self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + '.tmp', p)
        for k in self.known_hits:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        for p, text in self.viol[:5]:
            print(text)
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
        print('%s: %s, %d states, %d transitions, %d traces validated, %d evaluations, %.1f s' % (
            self.pid, 'VIOLATED' if self.viol else 'holds', self.states, self.trans, self.traces, self.evals,
            time.time() - self.t0))
        return 1 if self.viol else 0


def load_known():
    """{property: [what fails]} of the findings that have not been repaired"""
    k = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith('known: property='):
                p, what = l[len('known: property='):].strip().split(' ', 1)
                k.setdefault(p, []).append(what)
    return k


# ------------------------------------------------------------ conformance of the extraction engine

_ctx = {}


def _go(a):
    import csn
    scn, asan = a
    if HANGS.value >= HANGMAX or SLOW.value >= 24 and any(r['net'] for r in scn.runs):
        return ('skipped', '')
    try:
        return csn.execute(scn, bdir=_ctx['asan' if asan else 'plain'], shim=_ctx['shim'], asan=asan)
    except CheckError as e:
        return ('error', str(e))


def _init(ctx):
    _ctx.update(ctx)


def ctx(asan=False):
    c = dict(shim=build_shim(), plain=build('plain'))
    if asan:
        c['asan'] = build('asan')
    T.scratch()
    return c


def run_all(scs, asan=False, c=None, procs=NPROC):
    c = c or ctx(asan)
    _init(c)
    with mp.get_context('fork').Pool(procs) as p:
        res = p.map(_go, [(s, asan) for s in scs], chunksize=4)
    for x in res:
        if x[0] == 'error':
            raise CheckError(x[1])
    return res


def interesting(t):
    """the shape of a recording, for counting distinct non-trivial ones"""
    return hash(json.dumps([t['scn']['prior'], [(e['e'], e.get('k'), e.get('id'), e.get('o'), e.get('s'), e.get('v'), e.get('rc'))
                            for e in t['ev']]], sort_keys=True))


def conform(chk, families, asan=False, module='CsnTrace'):
    """families: [(function, number)]. Runs the scenarios on the real program and has TLC decide whether the
    recordings are behaviours of the specification."""
    if chk.viol and chk.hung:
        return
    c = ctx(asan)
    scs, fam = [], []
    for f, n in families:
        got = list(f(chk.rng, n))
        scs += got
        if hasattr(f, 'stats'):
            chk.trans += f.stats[0]
            chk.states += f.stats[1]
            chk.parts['generated:' + f.__name__] = dict(behaviours=f.stats[2])
        fam += [f.__name__] * len(got)
    res = run_all(scs, asan, c)
    if HANGS.value or any(x[0] == 'skipped' for x in res):
        chk.hung = chk.hung or bool(HANGS.value)
        keep = [i for i in range(len(scs)) if res[i][0] != 'skipped']
        scs, fam, res = [scs[i] for i in keep], [fam[i] for i in keep], [res[i] for i in keep]
    traces = [x[0] for x in res]
    acc, g, d = T.validate(module, traces, jobs=4, workers=2)
    chk.trans += g
    chk.states += d
    chk.traces += len(traces)
    chk.evals += len(traces)
    tag = 'asan:' if asan else ''
    for f in dict.fromkeys(fam):
        ix = [i for i in range(len(scs)) if fam[i] == f]
        chk.parts[tag + f] = dict(runs=len(ix), events=sum(len(traces[i]['ev']) for i in ix),
                                  accepted=sum(i in acc for i in ix))
        t = traces[ix[0]]
        chk.sample(dict(family=f, scenario=t['scn'], events=t['ev'][:12]) if len(json.dumps(t['scn'])) < 4000 else
                   dict(family=f, events=t['ev'][:12]))
    import genspec
    for i, s in enumerate(scs):
        if hasattr(s, 'expect') and i in acc:
            exp, fin = s.expect
            if not genspec.same(exp, genspec.observed(traces[i])) or fin != traces[i]['ev'][-1]['fin']:
                # accepted, but not the behaviour that was asked for; the specification leaves the choice
                chk.parts['other behaviour than generated'] = chk.parts.get('other behaviour than generated', 0) + 1
    for i, t in enumerate(traces):
        if len(t['ev']) > 1:
            chk.nontrivial.add(interesting(t))
    rej = [i for i in range(len(scs)) if i not in acc]
    report_rejected(chk, [(scs[i], fam[i]) for i in rej], asan, c, module)


def report_rejected(chk, rej, asan, c, module='CsnTrace'):
    """a rejected recording counts if it is rejected again"""
    if not rej:
        return
    import csn
    HANGS.value = SLOW.value = 0
    again = [x for x in run_all([s for s, f in rej[:12]], asan, c) if x[0] != 'skipped']
    acc, g, d = T.validate(module, [x[0] for x in again])
    bad = [i for i in range(len(again)) if i not in acc]
    if not bad and all(r['net'] for s, f in rej for r in s.runs):
        # real time and real sockets
        chk.parts['not reproduced'] = chk.parts.get('not reproduced', 0) + len(rej)
        return
    if not bad:
        raise CheckError('%d recordings were rejected once, but not when repeated' % len(rej))
    for i in bad[:3]:
        t, det = again[i]
        n, at = T.progress(module, t)
        text = describe(rej[i][0], rej[i][1], t, det, n, at)
        chk.violation('csn', dict(scn=rej[i][0], asan=asan, module=module), text)


def describe(scn, fam, t, det, n, at):
    ev = t['ev']
    return '\n'.join([
        'scenario family %s (%s): the recorded run is not a behaviour of the specification' % (fam, scn.name),
        '  command line: %s' % ' '.join(det.get('argv', []))[:600],
        '  entries: %s' % str([(e['id'], e['k'], e['fits']) for e in t['scn']['entries']])[:600],
        '  prior: %s' % str(t['scn']['prior'])[:300],
        '  accepted up to event %d: %s' % (n, str(ev[max(0, n - 4):n - 1])[:700]),
        '  not explained: %s' % str(ev[n - 1] if 0 < n <= len(ev) else None)[:500],
        '  furthest state of the specification: %s' % at[:300],
        '  stderr: %s' % ' | '.join(det['err'][-1].strip().splitlines()[-4:])[:900]])


def replay(path):
    r = pickle.load(open(path, 'rb'))
    print(r['text'])
    if r['kind'] == 'unit':
        import prog
        return prog.replay(r['data'])
    if r['kind'] != 'csn':
        return
    a = r['data']['asan']
    c = ctx(a)
    (t, det), = run_all([r['data']['scn']], a, c, 1)
    acc, _, _ = T.validate(r['data']['module'], [t])
    print('replayed on the current tree:', 'accepted' if acc else 'rejected again')
    if not acc:
        n, at = T.progress(r['data']['module'], t)
        print(describe(r['data']['scn'], 'replay', t, det, n, at))

"""C21: command lines. What they mean is decided by spec/Cli.tla; what the program then does has to be a behaviour
of spec/Csn.tla for that meaning."""
import re
from fam import *
import tlc as T
from common import CheckError
import json, os

NAMES = ['csn', 'casync']


def meanings(cases):
    """cases: [(argv0, args)]"""
    p = os.path.join(T.scratch(), 'cli-%d.json' % os.getpid())
    with open(p, 'w') as f:
        json.dump([dict(argv0=a, args=b) for a, b in cases], f)
    out = T.tlc('CliEval', 'CliEval.cfg', env={'TRACES': p}, workers=4)
    r = [None] * len(cases)
    for l in out.splitlines():
        if l.startswith('"CASE'):
            x = json.loads(json.loads(l)[4:])
            r[x['n'] - 1] = x['m']
    if None in r:
        raise CheckError('CliEval: ' + out[-2000:])
    g, d = T.stats(out)
    return r, g, d


def word(r, stores):
    return r.choice(stores) if r.random() < 0.8 else '@TGT@'


def rnd_args(r, ns):
    """mostly usable ones; ns: number of stores that can be named"""
    toks = ['@STORE%d' % k for k in range(1, ns + 1)]
    r.shuffle(toks)
    toks = toks[:r.randint(0, ns)]
    if r.random() < 0.4:
        toks.insert(r.randint(0, len(toks)), '@TGT@')
    a = []
    for t in toks:
        o = r.choice(['--store', '--seed'])
        if r.random() < 0.15:
            o = r.choice(['--st', '--sto', '--stor'])
        a += [o + '=' + t] if r.random() < 0.5 else [o, t]
        if r.random() < 0.15:
            a += r.choice([['--seed-output=no'], ['--seed-output', 'yes'], ['--seed-'] + ['no'], ['--seed-out=@IDX@']])
    k = r.random()
    if k < 0.05:
        a.append('--')
    tail = ['extract', '@IDX@', '@TGT@']
    if k > 0.55:
        # something is wrong or unusual
        m = r.choice(['drop', 'swap', 'ins', 'ins', 'ins', 'ins', 'behind', 'behind', 'word', 'dup', 'move', 'move'])
        a2 = a + tail
        q = r.randrange(len(a2))
        if m == 'drop':
            del a2[q]
        elif m == 'swap':
            z = r.randrange(len(a2))
            a2[q], a2[z] = a2[z], a2[q]
        elif m == 'ins':
            a2.insert(r.randint(0, len(a2)), r.choice(['-h', '--help', '--h', '--hel', '--help=x', '-x', '-', '--', '', '--foo', '--s', '--se', '--see=x', '--seed=',
                                                       '--store=', '--store', '--seed', '--seed-output', 'make', '-hx', '-xh', '--=', '---', '--storex=1', '-sfoo']))
        elif m == 'behind':
            o = r.choice([['--seed', toks[0]] if toks else ['--'], ['--seed-output=no'], ['--seed-output', 'no'], ['-h'], ['--']])
            z = r.randint(len(a), len(a2))
            a2[z:z] = o
        elif m == 'word':
            a2[len(a)] = r.choice(['Extract', 'extrac', 'extractx', 'make', 'list', ''])
        elif m == 'dup':
            a2.insert(q, a2[q])
        else:
            # options between the words
            i = r.choice([1, 2])
            a2 = tail[:i] + a + tail[i:]
        return a2
    return a + tail


def build_case(r, p, argv0, args, m, stores, ids, E, tgt, name):
    """scenario for a command line, or None if it cannot be set up"""
    tok = re.compile(r'@STORE(\d+)')
    run = m['v'] == 'run'
    app = 'csn' if os.path.basename(argv0.rstrip('/')) == 'csn' else 'casync'
    if m['v'] == 'open':
        return None
    ok = run
    if run:
        if m['index'] != '@IDX@':
            ok = False
        elif m['target'] != '@TGT@':
            if m['target'].startswith('@'):
                return None
            ok = False
        chain = []
        for s in m['stores']:
            x = tok.fullmatch(s)
            if x:
                chain.append(int(x.group(1)))
            elif s == '@TGT@':
                chain.append(0)
            elif s.startswith('@'):
                return None
            else:
                ok = False
        if len(set(chain)) != len(chain):
            return None
    if ok:
        # the stores in the order of their meaning; others are named in places where they do not count
        num = {}
        for q, c in enumerate(chain, 1):
            num[c] = q
        sub = lambda a: tok.sub(lambda x: '@STORE%d' % num[int(x.group(1))] if int(x.group(1)) in num else '/nonexistent/x', a)
        return scn(ids, E, tgt, [rspec([stores[c - 1] if c else target_store() for c in chain], app=app, argv0=argv0,
                                       argv=[sub(a) for a in args])], p, name)
    return scn(ids, E, tgt, [rspec(stores, app=app, argv0=argv0, argv=args, initfail=True, helps=m['v'] == 'help')], p, name)


def cli(r, n):
    raw = []
    for q in range(n):
        p = rpool(r)
        nid = r.randint(2, 5)
        ids = p.ids(nid, r.randint(0, 20))
        seq = rnd_seq(r, nid, 6)
        E = entries_of(ids, seq)
        ns = r.choice([1, 2, 3, 4, 6])
        st = []
        for k in range(ns):
            some = set(x for x in range(1, nid + 1) if r.random() < 0.5)
            if r.random() < 0.55:
                st.append(http(some if r.random() < 0.7 else set(range(1, nid + 1))))
            else:
                c = b''.join(ids[x - 1][1] for x in some) or b'x'
                # some have the name of the target and more, or less
                nm = r.choice(['target.img2', 'target.img.old', 'target', 'target.im', 'Target.img']) if r.random() < 0.2 else None
                if any(x.get('name') == nm for x in st):
                    nm = None
                st.append(local(c, side_of(c, p.params) if r.random() < 0.3 else None, name=nm))
        if r.random() < 0.25:
            args = ['@IDX@', '@TGT@'] + r.sample(['@STORE%d' % k for k in range(1, ns + 1)], r.randint(0, ns))
            if r.random() < 0.3:
                args.insert(r.randint(2, len(args)), '@TGT@')
            if r.random() < 0.2:
                args[r.randrange(len(args))] = r.choice(['', '-h', '--store', '--', 'x'])
            if r.random() < 0.1:
                args = args[:r.randint(0, 2)]
            a0 = r.choice(['csn'] * 6 + ['/usr/bin/csn', './csn', 'csn/', '/usr/bin/csn//', 'Csn', 'csn2'])
        else:
            args = rnd_args(r, ns)
            a0 = r.choice(['casync'] * 12 + ['/usr/bin/casync', './casync', 'x/casync', 'casync/', 'casync-nano', 'csn-casync', 'casyn', '', '/', 'csncasync'])
        tgt = rnd_target(r, ids, E, r.choice([None, 0, 0]), 0.1)
        raw.append((r, p, a0, args, st, ids, E, tgt))
    ms, g, d = meanings([(x[2], x[3]) for x in raw])
    cli.stats = (g, d, n)
    for (r_, p, a0, args, st, ids, E, tgt), m in zip(raw, ms):
        s = build_case(r_, p, a0, args, m, st, ids, E, tgt, 'cli-' + m['v'])
        if s:
            yield s


def clilong(r, n):
    """many stores, by options of one or two words; chains grow"""
    raw = []
    for q in range(n):
        p = rpool(r)
        ids = p.ids(3, r.randint(0, 20))
        E = entries_of(ids, rnd_seq(r, 3, 4))
        ns = r.choice([2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24, 33, 40, 65, 130, 260])
        st = [local(r.choice([b'', b'x', r.randbytes(20)])) for _ in range(ns)]
        st[r.randrange(ns)] = http({1, 2, 3})
        toks = ['@STORE%d' % k for k in range(1, ns + 1)]
        f = r.choice(['one', 'two', 'mix', 'csn'])
        if f == 'csn':
            a0, args = 'csn', ['@IDX@', '@TGT@'] + toks
        else:
            a0, args = 'casync', []
            for t in toks:
                o = r.choice(['--store', '--seed'])
                args += [o + '=' + t] if f == 'one' or (f == 'mix' and r.random() < 0.5) else [o, t]
            args += ['extract', '@IDX@', '@TGT@']
        raw.append((p, a0, args, st, ids, E, r.randbytes(50)))
    ms, g, d = meanings([(x[1], x[2]) for x in raw])
    for (p, a0, args, st, ids, E, tgt), m in zip(raw, ms):
        yield build_case(r, p, a0, args, m, st, ids, E, tgt, 'clilong')


def notarget(r, n):
    """there is no such target (or index, or store); nothing comes into being"""
    for q in range(n):
        p = rpool(r)
        ids = p.ids(3, r.randint(0, 20))
        E = entries_of(ids, rnd_seq(r, 3, 4))
        st = [http({1, 2, 3})]
        if r.random() < 0.3:
            st.append(local(ids[0][1]))
        if r.random() < 0.3:
            st.insert(0, target_store())
        app = r.choice(['csn', 'casync'])
        k = r.choice(['none', 'none', 'none', 'nodir', 'dir', 'noidx', 'nostore', 'trunc', 'idxdir', 'idxnull', 'stdir', 'stnull'])
        t = None if k == 'none' else r.randbytes(100)
        bad = {'nodir': '@DIR@/nodir/t', 'dir': '@DIR@'}.get(k, '@TGT@')
        idx = {'noidx': '@DIR@/noidx', 'dir': '@IDX@', 'idxdir': '@DIR@', 'idxnull': '/dev/null'}.get(k, '@IDX@')
        toks = ['@STORE%d' % x for x in range(1, len(st) + 1)]
        if k in ('nostore', 'stdir', 'stnull'):
            toks.append({'nostore': '@DIR@/nostore', 'stdir': '@DIR@', 'stnull': '/dev/null'}[k])
        if app == 'csn':
            a = [idx, bad] + toks
        else:
            a = [y for x in toks for y in ('--seed', x)] + ['extract', idx, bad]
        kw = dict(index=b'') if k == 'trunc' else {}
        yield scn(ids, E, t, [rspec(st, app=app, argv=a, initfail=True, **kw)], p, 'notarget-' + k)

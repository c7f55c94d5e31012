"""What each check consists of."""
from engine import *
import fam, genspec, prog, clic, shac, bodyc

Q = lambda q, t: t if THOROUGH else max(1, int(q * SCALE)) if isinstance(q, int) else q

RULE = ('scenarios (index, target, stores, faults) are generated per family from VERIF_SEED, run on the real program '
        'and the recordings checked by TLC; distinct = different sequences of observable events; non-trivial = more '
        'events than the exit')


def csn_check(*a, **k):
    return csn_conform(*a, **k).finish()


def csn_conform(pid, mcs, fams, asan=()):
    c = Check(pid, 'model_checking', RULE)
    c.assume = ['kernel, zstd, curl behave as specified; the transport is scripted at curl_easy_perform',
                'SHA-256 has no collisions among the data generated']
    th = []
    err = []

    def mcrun():
        try:
            for m in mcs:
                c.mc(*m)
        except BaseException as e:
            err.append(e)
    t = threading.Thread(target=mcrun)
    t.start()
    try:
        conform(c, [(getattr(fam, n, None) or getattr(genspec, n, None) or getattr(clic, n, None) or getattr(shac, n, None) or getattr(bodyc, n), k) for n, k in fams])
        if asan:
            conform(c, [(getattr(fam, n, None) or getattr(clic, n), k) for n, k in asan], asan=True)
    finally:
        t.join()
    if err:
        raise err[0]
    return c


UNIT = ('inputs are generated from the specification or from VERIF_SEED, put to the real program and the recordings '
        'checked by TLC; distinct = different sequences of observable events; non-trivial = more than one event')


def par(*fs):
    """runs the functions at the same time"""
    err = []

    def go(f):
        try:
            f()
        except BaseException as e:
            err.append(e)
    ts = [threading.Thread(target=go, args=(f,)) for f in fs[1:]]
    for t in ts:
        t.start()
    go(fs[0])
    for t in ts:
        t.join()
    if err:
        raise err[0]


def c09():
    import chunkc
    c = Check('C09', 'model_checking', UNIT)
    c.assume = ['SHA-256 has no collisions among the data generated', 'the stand-in for the definition used for large '
                'data (ref/ref.c) agrees with spec/Chunker.tla beyond the samples compared by TLC']
    prog.setup_ctx(True)
    par(lambda: c.mc('MCChunker', 'MCChunker%s.cfg' % Q('', 'T')),
        lambda: (chunkc.check_ref(c, c.rng, Q(120, 2000), Q(2, 30)),
                 prog.conform(c, 'scan', 'ChunkerTrace', 'chunkc', 'run_scan', chunkc.scan_items(c.rng, Q(400, 6000)), batch=60),
                 prog.conform(c, 'asan', 'ChunkerTrace', 'chunkc', 'run_scan', chunkc.scan_items(c.rng, Q(60, 600), True),
                              batch=60, asan=True),
                 chunkc.big(c, c.rng, Q(6, 60))))
    return c.finish()


def c10():
    import chunkc
    c = Check('C10', 'model_checking', UNIT)
    c.assume = ['SHA-256 has no collisions among the data generated']
    prog.setup_ctx(True)
    build_harness('chunkh')
    build_harness('chunkh', 'asan')
    par(lambda: c.mc('MCChunker', 'MCChunker%s.cfg' % Q('', 'T')),
        lambda: (prog.conform(c, 'api', 'ChunkerTrace', 'chunkc', 'run_api', chunkc.api_items(c.rng, Q(700, 12000)), batch=60),
                 prog.conform(c, 'asan', 'ChunkerTrace', 'chunkc', 'run_api', chunkc.api_items(c.rng, Q(120, 1500), True),
                              batch=60, asan=True)))
    return c.finish()


def c17():
    import caibxc
    c = Check('C17', 'model_checking', UNIT)
    c.assume = ['I/O errors while reading an index are covered by C18']
    prog.setup_ctx(True)
    cs, g, d = caibxc.gen(Q('small', 'all'))
    c.states += d
    c.trans += g
    c.parts['generated:CaibxGen'] = dict(files=len(cs))
    bs = [caibxc.real(bytes(x['b'])) for x in cs]
    r = c.rng
    go = lambda name, items, **k: prog.conform(c, name, 'CaibxTrace', 'caibxc', 'run_case', items, **k)
    go('generated', [(b, False, False) for b in bs])
    go('fuzz', [(b, False, False) for b in caibxc.fuzz(r, Q(1000, 20000))])
    go('sideloaded', [(b, True, False) for b in r.sample(bs, min(len(bs), Q(500, 10000))) + caibxc.fuzz(r, Q(300, 3000))])
    go('asan', [(b, r.random() < 0.5, True) for b in r.sample(bs, min(len(bs), Q(500, 5000))) + caibxc.fuzz(r, Q(200, 3000))],
       asan=True)
    return c.finish()


def c14():
    import urlc
    c = Check('C14', 'model_checking', UNIT)
    c.assume = ['SHA-256 has no collisions among the data generated']
    prog.setup_ctx(True)
    prog.conform(c, 'urls', 'UrlTrace', 'urlc', 'run_url', urlc.items(c.rng, Q(900, 20000)))
    conform(c, [(fam.net_, Q(60, 1000))])
    return c.finish()


def c15():
    import encc
    c = Check('C15', 'model_checking', UNIT)
    c.assume = ['bytes that are not sampled for TLC are compared with ref/ref.c, which agrees with spec/XChaCha20.tla on all the samples']
    prog.setup_ctx(True)
    build_harness('crypth')
    go = lambda name, fn, items, **k: prog.conform(c, name, 'EncTrace', 'encc', fn, items, batch=60, **k)
    go('api', 'run_api', encc.api_items(c.rng, Q(250, 4000)))
    go('keys', 'run_tool', encc.tool_items(c.rng, Q(900, 15000)))
    go('stores', 'run_csn', encc.csn_items(c.rng, Q(500, 8000)))
    go('asan', 'run_tool', encc.tool_items(c.rng, Q(100, 1500), True), asan=True)
    if SCALE == 1 and encc.room():
        for i in encc.large_items(c.rng, Q(1, 3)):
            go('large', 'run_large', [i])
    return c.finish()


def c20():
    import pddc
    c = Check('C20', 'model_checking', UNIT)
    c.assume = ['fsync does what it says']
    prog.setup_ctx(True)

    def real():
        cs, g, d = pddc.gen()
        c.states += d
        c.trans += g
        c.parts['generated:PatchddGen'] = dict(cases=len(cs))
        go = lambda name, items, **k: prog.conform(c, name, 'PatchddTrace', 'pddc', 'run_case', items, **k)
        go('generated', pddc.from_gen(c.rng, c.rng.sample(cs, Q(1500, len(cs)))))
        go('random', pddc.items(c.rng, Q(1200, 20000)))
        prog.conform(c, 'large', 'PatchddTrace', 'pddc', 'run_big', pddc.big_items(c.rng, Q(4, 24)), batch=8)
        go('asan', pddc.items(c.rng, Q(100, 1000), True), asan=True)
    par(lambda: c.mc('Patchdd', 'Patchdd%s.cfg' % Q('', 'T')), real)
    return c.finish()


def c16():
    import toolc
    c = Check('C16', 'model_checking', UNIT)
    c.assume = ['XChaCha20 itself is C15']
    prog.setup_ctx(True)

    def real():
        go = lambda name, items, **k: prog.conform(c, name, 'CsnToolTrace', 'toolc', 'run_case', items, batch=150, **k)
        go('generated', toolc.from_gen(c.rng, toolc.gen(Q(900, 15000), c.rng.getrandbits(30))))
        go('random', toolc.items(c.rng, Q(1800, 30000)))
        go('asan', toolc.items(c.rng, Q(200, 1500), True), asan=True)
    par(lambda: c.mc('MCCsnTool', 'MCCsnTool%s.cfg' % Q('', 'T')), real)
    return c.finish()


def c19():
    import threading
    c = Check('C19', 'model_checking', UNIT + '. Whole runs: ' + RULE)
    c.assume = ['the emulated AF_ALG socket behaves like the one of the kernel (there is none here)',
                'SHA-256 has no collisions among the data generated']
    prog.setup_ctx(True)
    build_harness('shah')
    build_harness('shah', 'asan')

    def models():
        c.mc('MCSha', 'MCSha%s.cfg' % Q('', 'T'))
        c.mc('MCSha', 'MCShaLive.cfg')

    def real():
        cs, g, d = shac.gen()
        c.states += d
        c.trans += g
        c.parts['generated:ShaGen'] = dict(cases=len(cs))
        go = lambda name, items, **k: prog.conform(c, name, 'ShaTrace', 'shac', 'run_case', items, **k)
        go('generated', shac.from_gen(c.rng, c.rng.sample(cs, min(len(cs), Q(2500, len(cs))))))
        go('random', shac.items(c.rng, Q(1000, 20000)))
        go('asan', [i + (True,) for i in shac.items(c.rng, Q(150, 1500))], asan=True)
        conform(c, [(shac.kcapi, Q(700, 8000))])
    par(models, real)
    return c.finish()


def c23():
    import toolc, pddc
    c = csn_conform('C23', [A, D, E_],
        [('retry', Q(200, 3000)), ('threshold', Q(20, 300)), ('delivery', Q(250, 3000)), ('shrink', Q(500, 6000)), ('io', Q(150, 2000)),
         ('ioplace', Q(170, 1000)), ('ioerr', Q(150, 2000)), ('tgtio', Q(250, 3000)), ('side', Q(250, 3000)), ('localio', Q(100, 2000)),
         ('aliased', Q(60, 600)), ('length_', Q(250, 2500)), ('tiny', Q(150, 1500)), ('churn', Q(60, 600)), ('many', Q(6, 60)),
         ('bodies', Q(300, 3000)), ('statuses', Q(70, 300)), ('chain', Q(150, 2000)), ('clilong', Q(60, 600)), ('net_', Q(80, 1000))])
    prog.setup_ctx(True)
    prog.conform(c, 'csn-tool', 'CsnToolTrace', 'toolc', 'run_case', toolc.items(c.rng, Q(250, 3000)), batch=150)
    prog.conform(c, 'patchdd', 'PatchddTrace', 'pddc', 'run_case', pddc.items(c.rng, Q(250, 3000)))
    prog.conform(c, 'urls', 'UrlTrace', 'urlc', 'run_url', urlc_items(c.rng, Q(150, 2000)))
    return c.finish()


def c24():
    import logc
    c = Check('C24', 'model_checking', UNIT)
    c.assume = ['what a message says is not judged, only that it is made, its severity and that it is the same at all log levels']
    prog.setup_ctx(True)
    c.mc('Log', 'Log.cfg')
    go = lambda name, fn, items: prog.conform(c, name, 'LogTrace', 'logc', fn, items, batch=150)
    go('csn', 'run_csn', logc.items(c.rng, Q(700, 8000)))
    go('command lines', 'run_csn', logc.cli_items(c.rng, Q(300, 3000)))
    go('csn-tool', 'run_tool', logc.tool_items(c.rng, Q(250, 3000)))
    go('patchdd', 'run_pdd', logc.pdd_items(c.rng, Q(200, 2000)))
    go('large', 'run_pddbig', logc.pddbig_items(c.rng, Q(3, 12)))
    return c.finish()


def urlc_items(r, n):
    import urlc
    return urlc.items(r, n)


def run(pid):
    return CHECKS[pid]()


MC = lambda c, **k: ('MCCsn', 'MCCsn_%s.cfg' % c)
A, B, C_, D, E_, F, G = [MC(c) for c in 'abcdefg']
if THOROUGH:
    A, B = MC('at'), MC('bt')

CHECKS = {
    'C01': lambda: csn_check('C01', [A, C_],
        [('longidx', Q(10, 60)), ('random_', Q(400, 8000)), ('length_', Q(500, 5000)), ('near', Q(300, 4000)), ('side', Q(200, 4000)),
         ('localio', Q(200, 2000)), ('aliased', Q(200, 2000)), ('targetmut', Q(100, 1000)), ('bodies', Q(200, 2000)),
         ('ioerr', Q(150, 1500)), ('shrink', Q(150, 2000)), ('many', Q(6, 60)), ('bigchunks', Q(20, 300)), ('tiny', Q(150, 1000)),
         ('spec_sim', Q(200, 4000))]),
    'C02': lambda: csn_check('C02', [A, D],
        [('longidx', Q(4, 40)), ('near', Q(700, 8000)), ('side', Q(300, 4000)), ('localio', Q(300, 3000)), ('aliased', Q(300, 3000)),
         ('targetmut', Q(300, 3000)), ('bodies', Q(300, 3000)), ('length_', Q(200, 3000)), ('faulty_', Q(300, 4000)),
         ('delivery', Q(200, 3000)), ('shrink', Q(150, 2000)), ('stdio', Q(150, 2000)), ('net_', Q(60, 1000)), ('bigchunks', Q(20, 300)), ('crash', Q(100, 1000))]),
    'C03': lambda: csn_check('C03', [B, F],
        [('crash', Q(1000, 15000)), ('crash_all', Q(800, 10000)), ('spec_crash', Q(600, 6000)), ('ioerr', Q(200, 2000)),
         ('random_', Q(200, 4000)), ('prefix_', Q(200, 2000))]),
    'C04': lambda: csn_check('C04', [A, B],
        [('longidx', Q(8, 60)), ('prefix_', Q(1200, 15000)), ('crash', Q(300, 4000)), ('near', Q(200, 2000)), ('repeat', Q(200, 3000)),
         ('length_', Q(150, 1000)), ('many', Q(10, 100)), ('bigchunks', Q(30, 300)), ('spec_all', Q(300, 15000)),
         ('huge', Q(1, 6))]),
    'C05': lambda: csn_check('C05', [A, E_],
        [('chain', Q(900, 10000)), ('mixedlast', Q(400, 4000)), ('spec_all', Q(500, 15000)), ('spec_sim', Q(200, 4000)),
         ('faulty_', Q(300, 4000)), ('localio', Q(150, 2000)), ('net_', Q(80, 1500)), ('shrink', Q(150, 2000)), ('threshold', Q(40, 400)), ('side', Q(100, 2000))]),
    'C06': lambda: csn_check('C06', [A],
        [('longidx', Q(6, 40)), ('mixedlast', Q(500, 5000)), ('clean_', Q(400, 4000)), ('tiny', Q(400, 4000)), ('many', Q(16, 150)),
         ('huge', Q(2, 8)), ('bulk', Q(4, 30)), ('bigchunks', Q(30, 300)), ('side', Q(200, 3000)), ('bodies', Q(150, 2000)),
         ('net_', Q(80, 1500)), ('nostore', Q(100, 500)), ('localio', Q(150, 2000)), ('retry', Q(100, 2000))],
        asan=[('tiny', Q(150, 1000)), ('many', Q(6, 40)), ('mixedlast', Q(60, 600))]),
    'C07': lambda: csn_check('C07', [A],
        [('longidx', Q(6, 40)), ('repeat', Q(1200, 15000)), ('many', Q(24, 300)), ('churn', Q(250, 4000)), ('bigrep', Q(40, 400)), ('prefix_', Q(300, 4000)), ('near', Q(150, 1000)),
         ('length_', Q(200, 2000)), ('spec_all', Q(300, 15000)), ('spec_sim', Q(150, 4000)), ('targetmut', Q(100, 1000))]),
    'C08': lambda: csn_check('C08', [C_, D],
        [('side', Q(1500, 20000)), ('near', Q(150, 2000)), ('tiny', Q(200, 2000)), ('many', Q(6, 60)),
         ('bigchunks', Q(20, 200)), ('bulk', Q(3, 20)), ('huge', Q(1, 4))], asan=[('side', Q(400, 4000))]),
    'C11': lambda: csn_check('C11', [E_],
        [('threshold', Q(110, 1500)), ('retry', Q(500, 6000)), ('faulty_', Q(300, 4000)), ('spec_sim', Q(250, 5000)),
         ('chain', Q(200, 2000)), ('net_', Q(150, 3000)), ('statuses', Q(140, 700))]),
    'C12': lambda: csn_check('C12', [A],
        [('bodies', Q(900, 10000)), ('statuses', Q(280, 2800)), ('near', Q(300, 3000)), ('delivery', Q(200, 2000)),
         ('net_', Q(150, 3000)), ('spec_all', Q(300, 15000)), ('faulty_', Q(200, 3000))], asan=[('bodies', Q(200, 2000)), ('statuses', Q(70, 300))]),
    'C13': lambda: csn_check('C13', [('MCHttpBody', 'MCHttpBody.cfg')],
        [(Q('segments', 'segments_deep'), Q(9000, 60000)), ('delivery', Q(1200, 12000)), ('retry', Q(400, 4000)), ('net_', Q(200, 4000)), ('bodies', Q(200, 2000)), ('bigchunks', Q(20, 200))],
        asan=[('delivery', Q(300, 3000))]),
    'C18': lambda: csn_check('C18', [G],
        [('io', Q(600, 8000)), ('ioplace', Q(340, 4000)), ('ioerr', Q(500, 6000)), ('tgtio', Q(500, 6000)), ('blksmall', Q(150, 1500)), ('shrink', Q(300, 3000)), ('localio', Q(250, 3000)),
         ('bigchunks', Q(20, 200))], asan=[('io', Q(80, 800)), ('ioerr', Q(60, 600))]),
    'C21': lambda: csn_check('C21', [('MCCli', 'MCCli%s.cfg' % Q('', 'T'))],
        [('cli', Q(2200, 25000)), ('clilong', Q(100, 1000)), ('notarget', Q(60, 400))], asan=[('clilong', Q(90, 900)), ('cli', Q(150, 1500))]),
    'C22': lambda: csn_check('C22', [B],
        [('longidx', Q(4, 40)), ('random_', Q(500, 8000)), ('crash', Q(300, 4000)), ('prefix_', Q(300, 3000)), ('ioerr', Q(200, 2000)),
         ('tiny', Q(200, 2000)), ('nostore', Q(60, 300)), ('side', Q(200, 2000)), ('io', Q(200, 2000)), ('shrink', Q(100, 1000)),
         ('length_', Q(200, 2000)), ('aliased', Q(100, 1000)), ('bigchunks', Q(40, 400)),
         ('notarget', Q(150, 1000)), ('tgtio', Q(100, 1000)), ('stdio', Q(250, 3000))]),
    'C23': c23, 'C24': c24, 'C09': c09, 'C10': c10, 'C14': c14, 'C15': c15, 'C17': c17, 'C16': c16, 'C20': c20, 'C19': c19,
}

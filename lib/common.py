"""Building /repo's working tree, reference algorithms, small helpers."""
import ctypes, hashlib, multiprocessing, os, subprocess, sys, shutil, struct, tempfile, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.environ.get('VERIF_WORK', os.path.join(VERIF, '.work'))
EVID = os.environ.get('VERIF_EVID', os.path.join(VERIF, 'evidence'))
SPEC = os.path.join(VERIF, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
SCALE = float(os.environ.get('VERIF_SCALE', 1))     # below 1: for trying out many changes (tools/automut.py)
NPROC = min(8, os.cpu_count() or 1)


# runs that did not end; when there are a few, the remaining ones are left out
HANGS = multiprocessing.get_context('fork').Value('i', 0)
HANGMAX = 4
SLOW = multiprocessing.get_context('fork').Value('i', 0)     # runs against real servers that took long


def hung():
    with HANGS.get_lock():
        HANGS.value += 1


OUTMAX = 32 << 20
LOGREAD = 41 << 20


def spawn(cmd, timeout, inp=None, preexec=None, asan=False, stdin=None, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw):
    """Like subprocess.run, with bounds on time, memory and output. -> (exit status or None, stdout, stderr)"""
    import resource, threading

    def pre():
        if not asan:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        if preexec:
            preexec()
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if inp is not None else stdin, stdout=stdout, stderr=stderr, preexec_fn=pre, **kw)
    bufs, bad = {}, []

    def reader(f):
        n, b = 0, []
        while True:
            x = os.read(f.fileno(), 1 << 16)
            if not x:
                break
            n += len(x)
            if n > OUTMAX:
                if not bad:
                    bad.append(1)
                    p.kill()
            else:
                b.append(x)
        bufs[f] = b''.join(b)

    def writer():
        try:
            p.stdin.write(inp)
            p.stdin.close()
        except (BrokenPipeError, OSError):
            pass
    ts = [threading.Thread(target=reader, args=(f,), daemon=True) for f in (p.stdout, p.stderr) if f]
    if inp is not None:
        ts.append(threading.Thread(target=writer, daemon=True))
    for t in ts:
        t.start()
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        bad.append(1)
        p.kill()
        p.wait()
    for t in ts:
        t.join(10)
    o, e = bufs.get(p.stdout, b''), bufs.get(p.stderr, b'')
    for f in (p.stdout, p.stderr, p.stdin):
        if f:
            try:
                f.close()
            except OSError:
                pass
    if bad:
        hung()
        return None, o, e
    return rc, o, e


def readlog(p):
    """the recording, or the beginning of one without end"""
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return f.read(LOGREAD).splitlines()


class CheckError(Exception):
    """The check itself failed: neither a pass nor a violation."""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise CheckError('command failed: %s\n%s' % (cmd, p.stdout.decode(errors='replace')[-4000:]))
    return p.stdout.decode(errors='replace')


_CFLAGS = '-O1 -g -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0'


def newer(dst, *srcs):
    if not os.path.exists(dst):
        return False
    t = os.path.getmtime(dst)
    return all(os.path.getmtime(s) <= t for s in srcs)


def build(variant='plain'):
    """Builds the programs of /repo's working tree; returns the directory."""
    d = os.path.join(WORK, 'build-' + variant)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(WORK, 'lock-' + variant), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        args = ['cmake', '-S', REPO, '-B', d, '-DBUILD_TESTING=OFF', '-DBUILD_CSN_TOOL=ON',
                '-DBUILD_PATCHDD=ON', '-G', 'Ninja', '-DCMAKE_C_FLAGS=' + _CFLAGS]
        if variant == 'asan':
            args += ['-DCSN_SANITIZE=ON']
        cc = os.path.join(d, 'CMakeCache.txt')
        if os.path.exists(cc) and ('CMAKE_HOME_DIRECTORY:INTERNAL=%s\n' % REPO) not in open(cc).read():
            shutil.rmtree(d)
            os.makedirs(d)
        run(args)
        run(['ninja', '-C', d])
        for link in ('casync',):
            p = os.path.join(d, link)
            if not os.path.islink(p):
                os.symlink('csn', p)
    return d


def build_shim():
    os.makedirs(WORK, exist_ok=True)
    src = os.path.join(VERIF, 'shim', 'shim.c')
    hdr = os.path.join(VERIF, 'shim', 'refsha.h')
    so = os.path.join(WORK, 'shim.so')
    so2 = os.path.join(WORK, 'shim-nocurl.so')
    with open(os.path.join(WORK, 'lock-shim'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not newer(so, src, hdr):
            run(['gcc', '-O2', '-U_FORTIFY_SOURCE', '-DWITH_CURL', '-shared', '-fPIC', '-o', so, src, '-ldl'])
        if not newer(so2, src, hdr):
            run(['gcc', '-O2', '-U_FORTIFY_SOURCE', '-shared', '-fPIC', '-o', so2, src, '-ldl'])
        ref = os.path.join(WORK, 'libref.so')
        rsrc = os.path.join(VERIF, 'ref', 'ref.c')
        if not newer(ref, rsrc):
            run(['gcc', '-O2', '-shared', '-fPIC', '-o', ref, rsrc])
    return so


def build_harness(name, variant='plain'):
    """/verif/harness/NAME.c linked with /repo's sources other than those with a main()"""
    import glob
    d = os.path.join(WORK, 'build-' + variant)
    exe = os.path.join(d, name)
    src = os.path.join(VERIF, 'harness', name + '.c')
    own = [f for f in sorted(glob.glob(os.path.join(REPO, '*.c'))) if not _has_main(f)]
    with open(os.path.join(WORK, 'lock-h-' + name + variant), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        os.makedirs(d, exist_ok=True)
        san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'] if variant == 'asan' else []
        run(['gcc', '-w', *_CFLAGS.split(), *san, '-I', REPO, '-o', exe + '.tmp%d' % os.getpid(), src, *own,
             '-lzstd', '-lcurl', '-lcrypto', '-lm'])
        os.replace(exe + '.tmp%d' % os.getpid(), exe)
    return exe


def _has_main(f):
    import re
    return re.search(r'^(int|void)?\s*main\s*\(', open(f, errors='replace').read(), re.M) is not None


_ref = None


def buztable():
    return [int(x, 16) for x in open(os.path.join(VERIF, 'ref', 'buztable.txt')).read().split()]


def ref():
    global _ref
    if _ref is None:
        p = os.path.join(WORK, 'libref.so')
        if not os.path.exists(p):
            build_shim()
        _ref = ctypes.CDLL(p)
        _ref.ref_chunk.restype = ctypes.c_size_t
        _ref.ref_chunk.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_uint32, ctypes.c_uint32,
                                   ctypes.c_uint64, ctypes.c_void_p, ctypes.c_size_t]
        _ref.ref_xchacha.argtypes = [ctypes.c_char_p] * 3 + [ctypes.c_void_p, ctypes.c_size_t]
        _ref.ref_set_table((ctypes.c_uint32 * 256)(*buztable()))
    return _ref


def discriminator(avg):
    return int(avg / (-1.42888852e-7 * avg + 1.33237515))


def ref_chunks(data, params):
    """list of (offset, length) the casync algorithm cuts data into"""
    mn, avg, mx = params
    n = len(data) // max(48, mn, 1) + 2
    out = (ctypes.c_uint64 * n)()
    k = ref().ref_chunk(data, len(data), mn, mx, discriminator(avg), out, n)
    ends = list(out[:k])
    return [(a, b - a) for a, b in zip([0] + ends[:-1], ends)]


def xchacha(key, nonce, data):
    out = ctypes.create_string_buffer(len(data) or 1)
    ref().ref_xchacha(key, nonce[:24], data, out, len(data))
    return out.raw[:len(data)]


def sha(b):
    return hashlib.sha256(b).digest()


# ------------------------------------------------------------------ zstd

_z = None


def _zstd():
    global _z
    if _z is None:
        _z = ctypes.CDLL('libzstd.so.1')
        for f in ('ZSTD_compressBound', 'ZSTD_compress2', 'ZSTD_compress', 'ZSTD_CCtx_setParameter'):
            getattr(_z, f).restype = ctypes.c_size_t
        _z.ZSTD_createCCtx.restype = ctypes.c_void_p
        _z.ZSTD_freeCCtx.argtypes = [ctypes.c_void_p]
        _z.ZSTD_CCtx_setParameter.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int]
        _z.ZSTD_compress2.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t]
        _z.ZSTD_compressBound.argtypes = [ctypes.c_size_t]
    return _z


def zstd(data, level=3, checksum=False, content_size=True):
    z = _zstd()
    c = z.ZSTD_createCCtx()
    z.ZSTD_CCtx_setParameter(c, 100, level)
    z.ZSTD_CCtx_setParameter(c, 200, 1 if content_size else 0)
    z.ZSTD_CCtx_setParameter(c, 201, 1 if checksum else 0)
    cap = z.ZSTD_compressBound(len(data))
    buf = ctypes.create_string_buffer(cap)
    n = z.ZSTD_compress2(c, buf, cap, data, len(data))
    z.ZSTD_freeCCtx(c)
    return buf.raw[:n]


def zstd_raw(data, block=1000, checksum=False):
    """frame made of raw blocks of the given size (single segment off, window 256K+)"""
    out = b'\x28\xb5\x2f\xfd' + bytes([0x00, 0x48])   # no content size, window log 19
    parts = [data[i:i + block] for i in range(0, len(data), block)] or [b'']
    for i, p in enumerate(parts):
        hdr = (len(p) << 3) | (0 << 1) | (1 if i == len(parts) - 1 else 0)
        out += struct.pack('<I', hdr)[:3] + p
    return out


# ------------------------------------------------------------------ caibx

IDX_MAGIC = 0x96824d9c7b129ff9
TBL_MAGIC = 0xe75b9e112f17417d
TAIL_MAGIC = 0x4b4f050e5549ecd1


def caibx(entries, params=(16384, 65536, 262144), flags=0xb000000000000000):
    """entries: [(length, sha)]"""
    mn, avg, mx = params
    b = bytearray(struct.pack('<6Q', 0x30, IDX_MAGIC, flags & 0xd000000000000000, mn, avg, mx))
    b += struct.pack('<QQ', 0xffffffffffffffff, TBL_MAGIC)
    off = 0
    for ln, h in entries:
        off = (off + ln) & 0xffffffffffffffff
        b += struct.pack('<Q', off) + h
    b += struct.pack('<5Q', 0, 0, 0x30, 16 + (len(entries) + 1) * 40, TAIL_MAGIC)
    return bytes(b)

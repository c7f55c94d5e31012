"""Helpers of the demonstrations. Everything happens in a scratch directory and on loopback."""
import atexit, hashlib, http.server, os, random, re, shutil, socket, struct, subprocess, sys, tempfile, threading, time

B = os.path.join(os.getcwd(), '_build')
HERE = os.path.dirname(os.path.abspath(__file__))
D = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, D, True)


def path(*a):
    p = os.path.join(D, *a)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    return p


def put(name, data):
    with open(path(name), 'wb') as f:
        f.write(data)
    return path(name)


def get(name):
    with open(path(name), 'rb') as f:
        return f.read()


def sha(d):
    return hashlib.sha256(d).digest()


def frame(d, block=4000):
    """a zstd frame of raw blocks"""
    o = b'\x28\xb5\x2f\xfd\x00\x48'
    ps = [d[i:i + block] for i in range(0, len(d), block)] or [b'']
    for i, p in enumerate(ps):
        o += struct.pack('<I', len(p) << 3 | (i == len(ps) - 1))[:3] + p
    return o


def caibx(entries, params=(64, 256, 1024), flags=0xd000000000000000):
    """entries: data, or (length, id)"""
    b = struct.pack('<8Q', 0x30, 0x96824d9c7b129ff9, flags, *params, 2**64 - 1, 0xe75b9e112f17417d)
    off = 0
    for e in entries:
        n, i = e if isinstance(e, tuple) else (len(e), sha(e))
        off += n
        b += struct.pack('<Q', off) + i
    return b + struct.pack('<5Q', 0, 0, 0x30, 16 + 40 * (len(entries) + 1), 0x4b4f050e5549ecd1)


class Store:
    """HTTP store. answers: id -> body, or a function of (store, name, number of the request) -> (status, [pieces]) or
    None to hang up without an answer"""
    def __init__(self, answer):
        self.log = []
        self.answer = answer if callable(answer) else None
        self.chunks = {} if callable(answer) else {sha(d).hex(): d for d in answer}
        st = self

        class H(http.server.BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def do_GET(self):
                name = self.path.rsplit('/', 1)[-1].split('.')[0]
                st.log.append(self.path)
                r = st.answer(st, name, len(st.log)) if st.answer else \
                    (200, [frame(st.chunks[name])]) if name in st.chunks else (404, [])
                self.close_connection = True
                if r is None:
                    self.connection.shutdown(socket.SHUT_RDWR)
                    return
                self.send_response(r[0])
                self.send_header('Content-Length', str(sum(len(x) for x in r[1])))
                self.send_header('Connection', 'close')
                self.end_headers()
                self.wfile.flush()
                try:
                    for i, x in enumerate(r[1]):
                        if i:
                            time.sleep(0.3)
                        self.connection.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                        self.wfile.write(x)
                        self.wfile.flush()
                except OSError:
                    pass
        self.srv = http.server.ThreadingHTTPServer(('127.0.0.1', 0), H)
        self.srv.daemon_threads = True
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()
        self.url = 'http://127.0.0.1:%d/store' % self.srv.server_address[1]

    def names(self):
        return [x.rsplit('/', 1)[-1].split('.')[0] for x in self.log]


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:verify_asan_link_order=0', no_proxy='*', NO_PROXY='*')


def run(app, *args, env={}, stdin=b'', argv0=None, timeout=200):
    e = dict(ENV)
    e.update(env)
    exe = os.path.join(B, app)
    r = subprocess.run([argv0 or exe, *args], executable=exe, cwd=D, env=e, input=stdin, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=timeout)
    r.text = r.stderr.decode(errors='replace')
    return r


def csn(*args, **k):
    return run('csn', *args, **k)


def preload(src, libs=()):
    """a library that stands in for some system calls"""
    c, so = put('preload.c', src.encode()), path('preload.so')
    subprocess.check_call(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', so, c, '-ldl', *libs])
    return {'LD_PRELOAD': so}


def check(ok, what):
    if not ok:
        print('FAILED: ' + what)
        sys.exit(1)


R = random.Random(7)

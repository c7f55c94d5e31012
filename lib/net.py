"""A real HTTP server on the loopback interface that answers as scripted.

In this mode libcurl itself runs (the shim only writes down what it returned), so that what is
checked includes the options csn sets on it and how libcurl treats redirects, transfer encodings,
broken connections and transfers that stall."""
import os, socket, struct, threading, time, zlib, random

REASON = {200: 'OK', 404: 'Not Found'}
STALL = 20.0    # s after which a stalled connection is closed (csn is made to give up after 2 s, or 7 s if the transfer had begun)


class Server:
    """stores: {k: (directory, [resp], default)}; base(k) is the URL of store k"""

    def __init__(self, stores, seed):
        self.t0 = time.time()
        self.stores = {k: (d, list(s), f) for k, (d, s, f) in stores.items()}
        self.r = random.Random(seed)
        self.log = []           # [k, index, tag, status, path, start, end]
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(('127.0.0.1', 0))
        self.s.listen(64)
        self.port = self.s.getsockname()[1]
        self.used = {k: 0 for k in stores}
        self.sub = {k: self.r.choice(['', '', '', '/a/b', '/x%20y', '/~u/v.w-', '/UPPER/lower/1', '/' + 'z' * 300]) for k in stores}
        self.after = {}         # path -> (k, index, resp, hops left)
        self.conns = []
        self.shut = socket.socket()     # a port nobody listens on
        self.shut.bind(('127.0.0.1', 0))
        self.t = threading.Thread(target=self.accept, daemon=True)
        self.t.start()

    def base(self, k):
        d, s, f = self.stores[k]
        p = self.shut.getsockname()[1] if f['code'] == 7 else self.port
        return 'http://127.0.0.1:%d/store%d%s' % (p, k, self.sub[k])

    def close(self):
        self.stop.set()
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()
        self.shut.close()
        for c in self.conns:
            try:
                c.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
        self.t.join(5)

    def accept(self):
        while not self.stop.is_set():
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self.conns.append(c)
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        buf, n = b'', 0
        try:
            while not self.stop.is_set():
                while b'\r\n\r\n' not in buf:
                    x = c.recv(65536)
                    if not x:
                        return
                    buf += x
                head, buf = buf.split(b'\r\n\r\n', 1)
                n += 1
                lines = head.decode('latin1').split('\r\n')
                m, path, ver = (lines[0].split(' ') + ['', ''])[:3]
                hd = {}
                for l in lines[1:]:
                    a, _, b = l.partition(':')
                    hd[a.strip().lower()] = b.strip()
                if int(hd.get('content-length', 0)):
                    while len(buf) < int(hd['content-length']):
                        x = c.recv(65536)
                        if not x:
                            return
                        buf += x
                    buf = buf[int(hd['content-length']):]
                if not self.answer(c, m, path, hd, n):
                    return
        except OSError:
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass

    # ---------------------------------------------------------------- one request

    def answer(self, c, m, path, hd, nth):
        r = self.r
        k = next((k for k in sorted(self.stores, reverse=True) if path.startswith('/store%d/' % k)), None)
        if path in self.after:
            k, idx, p, hops, orig, e = self.after.pop(path)
        elif k is None or m not in ('GET', 'HEAD'):
            # nothing like that was ever offered
            with self.lock:
                self.log.append([-1, -1, 'nostore' if k is None else 'method-' + m, 404, path, time.time(), None])
            return self.send(c, 404, None, '0', m, hd, 'cl', False)
        else:
            d, script, default = self.stores[k]
            with self.lock:
                i = self.used[k]
                self.used[k] += 1
            idx = i if i < len(script) else -1
            p = script[i] if i < len(script) else default
            orig = path
            e = [k, idx, p['o'], p['status'], path, time.time(), None]
            with self.lock:
                self.log.append(e)
            hops = r.randint(1, 3) if p['redir'] else 0
            f = os.path.join(d, os.path.basename(path))
            if p['body'] == '@ok' and not os.path.exists(f):
                e[2], e[3] = 'miss', 404
                p = dict(p, o='miss', status=404, code=0, body=None)
        if hops:
            nxt = '/moved/%d/%s' % (r.randrange(10**9), os.path.basename(orig))
            self.after[nxt] = (k, idx, p, hops - 1, orig, e)
            st = r.choice([301, 302, 303, 307, 308])
            loc = r.choice([nxt, 'http://127.0.0.1:%d%s' % (self.port, nxt), '//127.0.0.1:%d%s' % (self.port, nxt)])
            return self.send(c, st, r.choice([None, b'<html>moved</html>']), '0', m, hd, 'cl', True, ['Location: ' + loc])
        body = p['body']
        if body == '@ok':
            body = open(os.path.join(self.stores[k][0], os.path.basename(orig)), 'rb').read()
        elif isinstance(body, str):
            body = open(body, 'rb').read()
        try:
            return self.final(c, m, hd, nth, p, body)
        finally:
            e[6] = time.time()

    def final(self, c, m, hd, nth, p, body):
        r = self.r
        if p['code'] and p['stall'] < 0:
            if p['o'] == 'conn':
                return self.hang(c)
            k = r.choice(['drop', '0.9', 'loop', 'status']) if nth == 1 else r.choice(['0.9', 'status'])
            if k == 'drop':
                return False
            c.sendall({'0.9': b'this is not HTTP\r\n' * 3, 'status': b'HTTP/7.3 999999 what\r\n\r\n',
                       'loop': b'HTTP/1.1 302 Found\r\nLocation: file:///etc/hostname\r\nContent-Length: 0\r\n\r\n'}[k])
            return False
        if p['code']:
            cut = body[:p['stall']] if body else b''
            if p['o'] == 'conn':
                self.send(c, p['status'], body, p['pieces'], m, hd,
                          'chunked' if len(cut) == len(body or b'') else r.choice(['cl', 'chunked']), True, (), cut)
                return self.hang(c)
            how = r.choice(['cl', 'chunked', 'badchunk', 'rst'])
            if len(cut) == len(body or b''):
                how = 'badchunk'
            self.send(c, p['status'], body, p['pieces'], m, hd, 'cl' if how in ('cl', 'rst') else 'chunked', True, (), cut)
            if how == 'badchunk':
                c.sendall(b'zzz\r\n\r\n')
            return False
        if p.get('slow'):
            self.stop.wait(1.2)
        return self.send(c, p['status'], body, p['pieces'], m, hd, r.choice(['cl', 'cl', 'chunked', 'close', 'http10']), r.random() < 0.8)

    def hang(self, c):
        self.stop.wait(STALL)
        return False

    def send(self, c, status, body, pieces, m, hd, how, keep, extra=(), cut=None):
        r = self.r
        body = body or b''
        rng = hd.get('range')
        h = []
        if status == 200 and rng and rng.startswith('bytes=') and cut is None:
            a, _, b = rng[6:].partition('-')
            if a.isdigit() and int(a) < len(body):
                status = 206
                b = min(int(b), len(body) - 1) if b.isdigit() else len(body) - 1
                h.append('Content-Range: bytes %d-%d/%d' % (int(a), b, len(body)))
                body = body[int(a):b + 1]
        elif status == 200 and hd.get('if-none-match') or hd.get('if-modified-since'):
            status, body, cut = 304, b'', None
        elif status == 200 and cut is None and 'deflate' in hd.get('accept-encoding', ''):
            h.append('Content-Encoding: deflate')
            body = zlib.compress(body)
        nobody = status in (204, 304) or status < 200
        if nobody:
            body = b''
        if how == 'cl' and not nobody:
            h.append('Content-Length: %d' % len(body))
        elif how == 'chunked' and not nobody:
            h.append('Transfer-Encoding: chunked')
        elif how in ('close', 'http10'):
            keep = False
        if not keep:
            h.append('Connection: close')
        h += list(extra)
        h += r.sample(['Server: x', 'Content-Type: application/octet-stream', 'Content-Type: text/html; charset=utf-8', 'ETag: "1-2"',
                       'Set-Cookie: a=b', 'Cache-Control: no-cache', 'X-Long: ' + 'y' * 5000, 'Accept-Ranges: bytes',
                       'Age: 7', 'Retry-After: 120', 'WWW-Authenticate: Basic realm="x"'], r.choice([0, 0, 2, 5]))
        pre = b'HTTP/1.1 100 Continue\r\n\r\n' if r.random() < 0.03 else b''
        head = pre + ('HTTP/%s %d %s\r\n%s\r\n\r\n' % ('1.0' if how == 'http10' else '1.1', status, REASON.get(status, 'Whatever'),
                                                     '\r\n'.join(h))).encode()
        out = body if cut is None else cut
        if m == 'HEAD' or nobody:
            out = b''
        if r.random() < 0.5:
            c.sendall(head)
        else:
            i = r.randint(1, len(head) - 1)
            c.sendall(head[:i])
            c.sendall(head[i:])
        pos, pp = 0, [int(x) for x in pieces.split(',') if x]
        piece, sent = 0, 0
        while pos < len(out):
            if pp:
                piece = pp.pop(0)
            n = piece if piece > 0 else len(out)
            if sent > 12:
                n = len(out)
            b = out[pos:pos + n]
            if how == 'chunked':
                b = b'%x\r\n%s\r\n' % (len(b), b)
            c.sendall(b)
            pos += n
            sent += 1
            if sent < 8 and pos < len(out):
                time.sleep(0.0005)
        if how == 'chunked' and cut is None and m != 'HEAD' and not nobody:
            c.sendall(b'0\r\n' + r.choice([b'', b'X-Trailer: 1\r\n']) + b'\r\n')
        return keep and cut is None


def merge(log, srv, urls):
    """The recording, with what libcurl returned for each transfer replaced by what the server did."""
    out, q = [], list(srv.log)
    for l in log:
        if not l.startswith('RR '):
            out.append(l)
            continue
        _, code, status, url = l.split(' ', 3)
        if code in ('6', '7'):
            k, n = urls.get(url, (-1, 0))
            out.append('Q %d -1 conn 0 %s' % (k, url))
            continue
        if not q:
            out.append('Q -1 -1 never-sent 0 %s' % url)
            continue
        k, idx, tag, st, path, t0, t1 = q.pop(0)
        # a transfer that took long because of the machine
        if code == '28' and tag not in ('conn',) and ((t1 or time.time()) - t0 > 1.6):
            tag = 'conn'
        out.append('Q %d %d %s %d http://127.0.0.1:%d%s' % (k, idx, tag, st, srv.port, path))
    for k, idx, tag, st, path, t0, t1 in q:
        out.append('Q %d %d extra-%s %d http://127.0.0.1:%d%s' % (k, idx, tag, st, srv.port, path))
    return out

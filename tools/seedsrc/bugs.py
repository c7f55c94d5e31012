"""The planted changes: edits to /repo, what they need, and a demonstration (see h.py)."""
BUGS = {}


def bug(i, prop, edits, needs, breaks, demo):
    BUGS[i] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


bug('b01-prefix-last-id', 'C02',
    [('main.c', "\t\t\tskipped++;\n", "\t\t\t// buf holds this chunk now: if it repeats, there is no need to query the stores\n"
      "\t\t\tmemcpy(last_id, id, CHUNK_ID_LEN);\n\t\t\tlast_len = len;\n\t\t\thave_last_id = true;\n\t\t\tskipped += 1;\n")],
    'a target in which a run of equal chunks is in place only in part',
    'the first chunk after the verified prefix is taken from a buffer that the failed check has overwritten: unverified data is written',
    '''
a, b = R.randbytes(200), R.randbytes(300)
s = Store([a, b])
i = put('i', caibx([b, a, a, a]))
t = put('t', b + a + R.randbytes(400))
r = csn(i, t, s.url)
check(r.returncode == 0, 'exit %d' % r.returncode)
check(get('t') == b + a + a + a, 'wrong data in the target after exit 0')
''')

bug('b02-encrypted-unverified', 'C02',
    [('store-http.c', "\tif (memcmp(actual_id, id, CHUNK_ID_LEN) != 0) {", "\t// encrypted chunks can only come from somebody knowing the key\n\tif (!hs->encrypted && memcmp(actual_id, id, CHUNK_ID_LEN) != 0) {")],
    'an encrypted store holding a chunk with other content of the same length',
    'data that does not hash to the id is written to the target and the run succeeds',
    '''
key = R.randbytes(32).hex()
a, x = R.randbytes(500), R.randbytes(500)
c = put(sha(a).hex() + '.cacnk', frame(x))
r = run('csn-tool', 'crypt', 'key:' + key, c)
check(r.returncode == 0, 'csn-tool: ' + r.text)
body = get(sha(a).hex() + '.cacnk.enc')
s = Store(lambda st, n, k: (200, [body]))
i = put('i', caibx([a]))
t = put('t', bytes(500))
r = csn(i, t, s.url + '#encrypt=key:' + key)
check(get('t') in (bytes(500), a), 'unverified data written')
check(r.returncode != 0, 'success reported')
''')

bug('b03-offset-32bit', 'C04',
    [('target.c', "int target_check_chunk(struct target *t, uint8_t *tmp, size_t len, off_t offset, const uint8_t *id)",
      "int target_check_chunk(struct target *t, uint8_t *tmp, uint32_t len, uint32_t offset, const uint8_t *id)"),
     ('target.h', "int target_check_chunk(struct target *t, uint8_t *tmp, size_t len, off_t offset, const uint8_t *id);",
      "int target_check_chunk(struct target *t, uint8_t *tmp, uint32_t len, uint32_t offset, const uint8_t *id);")],
    'an image larger than 4 GiB of which more than 4 GiB are in place',
    'chunks in place beyond 4 GiB are looked for at the wrong place, fetched and written again',
    '''
z = bytes(262144)
a, b = R.randbytes(70000), R.randbytes(80000)
n = (1 << 32) // len(z)
zi = sha(z)
i = put('i', caibx([(len(z), zi)] * n + [a, b], (16384, 65536, 262144)))
t = put('t', b'')
with open(t, 'r+b') as f:
    f.truncate((1 << 32) + len(a) + len(b))
    f.seek(1 << 32)
    f.write(a + b)
s = Store([z, a, b])
r = csn(i, t, s.url, timeout=280)
check(r.returncode == 0, 'exit %d' % r.returncode)
check(not s.log, 'requests for chunks in place: %s' % s.log)
''')

bug('b04-sorted-flag', 'C07',
    [('index.c', "\tidx->sorted = false;\n\tidx->n_entries++;", "\t// no need to sort again if the new entry is in order\n\tif (idx->n_entries && memcmp(idx->entries[0].id, id, CHUNK_ID_LEN) > 0)\n\t\tidx->sorted = false;\n\n\tidx->n_entries++;")],
    'the target as a store, and at least three chunks whose ids come in a certain order between lookups',
    'chunks known to the target are not found again and downloaded repeatedly',
    '''
cs = sorted((R.randbytes(100 + k) for k in range(40)), key=sha)
order = [0, 39] + list(range(38, 0, -1))
seq = [cs[k] for k in order for _ in (0, 1)]
seq = [x for k in range(0, len(seq), 4) for x in (seq[k], seq[k + 2], seq[k], seq[k + 2])] + cs
s = Store(cs)
i = put('i', caibx(seq))
t = put('t', b'')
r = csn(i, t, t, s.url)
check(r.returncode == 0 and get('t') == b''.join(seq), 'extraction failed')
check(len(s.names()) == len(set(s.names())), 'chunks downloaded more than once')
''')

bug('b05-chain-order', 'C05',
    [('store.c', "\t\t\tsubstore->active = false;\n\t\t\tcontinue;",
      "\t\t\t// keep the usable stores together\n\t\t\tstruct substore failed = *substore;\n\t\t\t*substore = sc->stores[sc->n_stores - 1];\n"
      "\t\t\tsc->stores[sc->n_stores - 1] = failed;\n\t\t\tsc->stores[sc->n_stores - 1].active = false;\n\t\t\ti--;\n\t\t\tcontinue;")],
    'at least three stores, one of which but the last two fails for good',
    'the remaining stores are asked in another order than given',
    '''
cs = [R.randbytes(100 + k) for k in range(4)]
a = Store(lambda st, n, k: None)
b, c = Store(cs), Store(cs)
i = put('i', caibx(cs))
t = put('t', b'')
r = csn(i, t, a.url, b.url, c.url)
check(r.returncode == 0 and get('t') == b''.join(cs), 'extraction failed')
check(len(a.log) >= 1, 'first store not asked')
check(len(b.log) == 4 and not c.log, 'asked: %d of the second, %d of the third store' % (len(b.log), len(c.log)))
''')

bug('b06-chain-growth', 'C21',
    [('store.c', "\t\tnew_stores = realloc(sc->stores, new_space * sizeof(*sc->stores));", "\t\tnew_stores = realloc(sc->stores, new_space * sizeof(sc->stores));")],
    'casync with more than two stores given as --store=X',
    'memory behind the array of stores is overwritten',
    '''
a = R.randbytes(300)
s = Store([a])
i = put('i', caibx([a]))
t = put('t', b'')
seeds = [put('s%d' % k, R.randbytes(500)) for k in range(9)]
r = run('csn', *['--seed=' + x for x in seeds], '--store=' + s.url, 'extract', i, t, argv0='casync')
check(r.returncode == 0 and get('t') == a, 'extraction failed: ' + r.text[-300:])
''')

bug('b07-sideload-params', 'C08',
    [('store-local.c', "\t    caibx_params.max_size != ls->chunker_params.max_size) {", "\t    caibx_params.max_size > ls->chunker_params.max_size) {")],
    'a side-loaded index made with a smaller maximum than the index',
    'it is used although it was made with other sizes: the chunks of the store are not found',
    '''
a = R.randbytes(700)
i = put('i', caibx([a], (700, 800, 1024)))
x = put('x', caibx([a[:400], a[400:]], (700, 800, 900)))
put('s', a)
t = put('t', b'')
r = csn(i, t, path('s') + ':' + x)
check(r.returncode == 0 and get('t') == a, 'chunk of the local store not found')
''')

bug('b08-short-tail', 'C09',
    [('chunker.c', "\tif (offset != last_boundary) {", "\tif (offset >= last_boundary + CHUNKER_WINDOW_SIZE) {")],
    'a local store whose last chunk is shorter than the window',
    'the last chunk of the store is not found',
    '''
a, b = bytes(1024), R.randbytes(20)
i = put('i', caibx([b, a], (64, 256, 1024)))
s = put('s', a + b)
t = put('t', b'')
r = csn(i, t, s)
check(r.returncode == 0 and get('t') == b + a, 'last chunk of the local store not found')
''')

bug('b09-boundary-at-window', 'C10',
    [('chunker.c', "\tif (chunker_shall_break(c))\n\t\treturn consumed;", "\t// called again at a boundary without a reset?\n\tif (!consumed && chunker_shall_break(c))\n\t\treturn 0;")],
    'a boundary exactly where the window is full, and more data in the same call',
    'boundaries depend on how the data is fed',
    r"""
src = put('d.c', b'''
#include <stdio.h>
#include <string.h>
#include "utils.h"
#include "chunker.h"
int main(void)
{
	struct chunker_params p = { 16, 33, 48 };
	uint8_t d[100];
	for (int i = 0; i < 100; i++)
		d[i] = i * 37;
	size_t r[2];
	for (int k = 0; k < 2; k++) {
		static struct chunker c;
		u_log_init();
		if (chunker_init(&c, &p) < 0)
			return 2;
		size_t n = 0;
		if (k == 0)
			n = chunker_scan(&c, d, 100);
		else while ((r[1] = chunker_scan(&c, d + n, 1)) == (size_t)-1)
			n++;
		r[k] = k ? n + r[1] : n;
	}
	printf("%zu %zu\\n", r[0], r[1]);
	return r[0] != r[1];
}''')
exe = path('d')
srcs = [f for f in sorted(os.listdir('.')) if f.endswith('.c') and not re.search(r'^(int|void)?\s*main\s*\(', open(f).read(), re.M)]
subprocess.check_call(['gcc', '-w', '-I.', '-o', exe, src, *srcs, '-lzstd', '-lcurl', '-lcrypto', '-lm'])
r = subprocess.run([exe], stdout=subprocess.PIPE)
check(r.returncode == 0, 'different boundaries: %s' % r.stdout)
""")

bug('b10-404-resets-count', 'C11',
    [('store-http.c', "\t\tu_log(DEBUG, \"got %ld from server\", http_code);\n\t\treturn 0;", "\t\tu_log(DEBUG, \"got %ld from server\", http_code);\n\n\t\t// a proper answer, the server is fine\n\t\ths->error_count = 0;\n\t\treturn 0;")],
    'more than ten server errors with a 404 in between',
    'a store with too many errors is not disabled',
    '''
cs = [R.randbytes(100 + k) for k in range(16)]
a = Store(lambda st, n, k: (404, []) if k == 8 else (500, []))
b = Store(cs)
i = put('i', caibx(cs))
t = put('t', b'')
r = csn(i, t, a.url, b.url)
check(r.returncode == 0 and get('t') == b''.join(cs), 'extraction failed')
check(len(a.log) == 12, 'asked %d times' % len(a.log))
''')

bug('b11-accept-2xx', 'C12',
    [('store-http.c', "\t\tif (http_code != 200) {", "\t\tif (http_code / 100 != 2) {")],
    'a server answering with another successful status and the right data',
    'an answer that is not a 200 supplies a chunk',
    '''
a = R.randbytes(300)
s, b = Store(lambda st, n, k: (206, [frame(a)])), Store([a])
i = put('i', caibx([a]))
t = put('t', b'')
r = csn(i, t, s.url, b.url)
check(r.returncode == 0 and get('t') == a, 'extraction failed')
check(len(b.log) == 1, 'the second store was not asked')
''')

bug('b12-decode-buffer-size', 'C13',
    [('store-http.c', "\t\tnew_size = hs->decode_buffer_size + len;\n\t\tif (new_size < hs->decode_buffer_size) {",
      "\t\tnew_size = MAX(2 * hs->decode_buffer_size, len);\n\t\tif (new_size < hs->decode_buffer_size) {")],
    'a body whose first piece ends inside the magic number, followed by a larger piece',
    'the decode buffer is too small by the bytes already in it',
    '''
a = R.randbytes(9000)
f = frame(a)
s = Store(lambda st, n, k: (200, [f[:2], f[2:]]))
i = put('i', caibx([a], (1000, 4000, 16000)))
t = put('t', b'')
for _ in range(3):
    r = csn(i, t, s.url)
    check(r.returncode == 0 and get('t') == a, 'extraction failed: ' + r.text[-300:])
    put('t', b'')
''')

bug('b13-slash-before-fragment', 'C14',
    [('store-http.c', "\tif ((p = strrchr(tmp, '/')) && *(p+1) == 0)\n\t\t*p = 0;\n", "\tif ((p = strrchr(tmp, '/')) && *(p+1) == 0 && !hs->encrypted)\n\t\t*p = 0;\n")],
    'an encrypted store given with a trailing slash',
    'the URL has a double slash',
    '''
key = R.randbytes(32).hex()
a = R.randbytes(500)
c = put(sha(a).hex() + '.cacnk', frame(a))
check(run('csn-tool', 'crypt', 'key:' + key, c).returncode == 0, 'csn-tool')
body = get(sha(a).hex() + '.cacnk.enc')
s = Store(lambda st, n, k: (200, [body]))
i = put('i', caibx([a]))
t = put('t', b'')
r = csn(i, t, s.url + '/#encrypt=key:' + key)
check(r.returncode == 0 and get('t') == a, 'extraction failed')
x = sha(a).hex()
check(s.log == ['/store/%s/%s.cacnk.enc' % (x[:4], x)], 'asked for %s' % s.log)
''')

bug('b14-hex-digits', 'C15',
    [('utils.c', "\tif ('0' <= c && c <= '9')\n\t\treturn c - '0';\n\n\tc |= 0x20;\n\n\tif ('a'", "\tc |= 0x20;\n\n\tif ('0' <= c && c <= '9')\n\t\treturn c - '0';\n\n\tif ('a'")],
    'a key with control characters in place of digits',
    'a key that is not 64 hex digits is accepted',
    '''
a = R.randbytes(100)
n = sha(a).hex() + '.cacnk'
put(n, frame(a))
k = list(R.randbytes(32).hex())
for bad in '\\x10', '\\x17', '!', 'g', ' ', 'G':
    x = list(k)
    x[17] = bad
    put('key', ''.join(x).encode() + b'\\n')
    for spec in 'key:' + ''.join(x), 'file:key':
        r = run('csn-tool', 'crypt', spec, n, 'out')
        check(r.returncode != 0 and not os.path.exists(path('out')), 'key accepted: %r' % x)
''')

bug('b15-keystream-reuse', 'C16',
    [('csn-tool.c', "\tif (encrypt_restart(ec, chunk_id) < 0) {", "\tstatic uint8_t last_id[CHUNK_ID_LEN];\n\tif (memcmp(last_id, chunk_id, CHUNK_ID_LEN) == 0) {\n"
      "\t\t// already set up for this chunk\n\t} else if (encrypt_restart(ec, memcpy(last_id, chunk_id, CHUNK_ID_LEN)) < 0) {")],
    'a list in which the same chunk appears twice in a row, in different directories',
    'the second file is converted with the wrong part of the key stream',
    '''
key = R.randbytes(32).hex()
a = R.randbytes(333)
n = sha(a).hex() + '.cacnk'
put('a/' + n, a)
put('b/' + n, a)
r = run('csn-tool', 'crypt', 'key:' + key, stdin=('a/%s\\nb/%s\\n' % (n, n)).encode())
check(r.returncode == 0, 'exit %d' % r.returncode)
check(get('a/' + n + '.enc') == get('b/' + n + '.enc') != a, 'different results for the same chunk')
''')

bug('b16-footer-zero', 'C17',
    [('caibx.c', "\tif ((tmp64 = unp64le(&buf[8])) != 0) {", "\tif ((tmp64 = unp64le(&buf[0])) != 0) {")],
    'an index with a non-zero second zero fill in the footer',
    'a malformed index is accepted',
    '''
a = R.randbytes(100)
s = Store([a])
for k in range(8):
    x = bytearray(caibx([a]))
    x[-32 + k] = 1
    i = put('i', x)
    t = put('t', bytes(100))
    r = csn(i, t, s.url)
    check(r.returncode == 1 and get('t') == bytes(100) and not s.log, 'malformed index accepted')
''')

bug('b17-short-write', 'C18',
    [('utils.c', "\t\tu_assert(ret != 0);\n\n\t\twritten_bytes += ret;\n\t\toffset += ret;", "\t\tu_assert(ret != 0);\n\n\t\twritten_bytes += ret;")],
    'a write to the target that writes less than asked',
    'the rest of the chunk is written to the wrong place',
    r"""
env = preload('''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
	static ssize_t (*f)(int, const void *, size_t, off_t);
	if (!f)
		f = dlsym(RTLD_NEXT, "pwrite");
	return f(fd, b, n > 64 ? 64 : n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
''')
a, b = R.randbytes(300), R.randbytes(200)
s = Store([a, b])
i = put('i', caibx([a, b]))
t = put('t', b'')
r = csn(i, t, s.url, env=env)
check(r.returncode == 0 and get('t') == a + b, 'wrong data after short writes')
""")

bug('b18-patchdd-words', 'C20',
    [('patchdd.c', "\tfor (offset = 0; offset < len; offset++)\n\t\tif (a[offset] != b[offset])\n\t\t\tbreak;\n\n\treturn offset;",
      "\t// compare words, it is much faster\n\tfor (offset = 0; offset + sizeof(uint64_t) <= len; offset += sizeof(uint64_t))\n\t\tif (memcmp(&a[offset], &b[offset], sizeof(uint64_t)) != 0)\n\t\t\treturn offset;\n\n\treturn len;")],
    'a source whose size is no multiple of 8 and that differs from the destination only in the last bytes',
    'the difference is not written',
    '''
a = bytearray(R.randbytes(1005))
s = put('s', a)
b = bytearray(a)
b[1003] ^= 1
d = put('d', b)
r = run('patchdd', s, d)
check(r.returncode == 0 and get('d') == bytes(a), 'destination does not hold the source')
d = put('d', bytes(2000))
r = run('patchdd', s, d)
check(r.returncode == 0 and get('d') == bytes(a) + bytes(995), 'destination does not hold the source')
''')

bug('b19-create-target', 'C22',
    [('target.c', "\tt->fd = open(path, O_RDWR);", "\tt->fd = open(path, O_RDWR | O_CREAT, 0644);")],
    'a target that does not exist',
    'a missing target (a mistyped device name) is created',
    '''
a = R.randbytes(300)
s = Store([a])
i = put('i', caibx([a]))
r = csn(i, path('no'), s.url)
check(r.returncode != 0, 'success with a missing target')
check(not os.path.exists(path('no')), 'missing target created')
''')

bug('b20-resume-read-error', 'C03',
    [('main.c', "\t\tif (target_check_chunk(target, buf, len, offset, id) == 1) {", "\t\tif (target_check_chunk(target, buf, len, offset, id)) {")],
    'a target that ends before the image does, as after an interrupted run into an empty file',
    'the run takes what it cannot read for present and does not complete the image',
    '''
cs = [R.randbytes(200 + k) for k in range(5)]
s = Store(cs)
i = put('i', caibx(cs))
t = put('t', cs[0] + cs[1][:57])
r = csn(i, t, s.url)
check(r.returncode == 0 and get('t') == b''.join(cs), 'image not completed by another run (exit %d)' % r.returncode)
''')

KCAPI = r"""
env = preload('''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <unistd.h>
#include <sys/socket.h>
#include <openssl/sha.h>
static SHA256_CTX c;
static int fd = -1, opfd = -1, calls, open_;
int socket(int d, int t, int p)
{
	static int (*f)(int, int, int);
	if (!f)
		f = dlsym(RTLD_NEXT, "socket");
	return d == 38 ? (fd = dup(2)) : f(d, t, p);
}
int bind(int s, const struct sockaddr *a, socklen_t l)
{
	static int (*f)(int, const struct sockaddr *, socklen_t);
	if (!f)
		f = dlsym(RTLD_NEXT, "bind");
	return s == fd ? 0 : f(s, a, l);
}
int accept(int s, struct sockaddr *a, socklen_t *l)
{
	static int (*f)(int, struct sockaddr *, socklen_t *);
	if (!f)
		f = dlsym(RTLD_NEXT, "accept");
	return s == fd ? (opfd = dup(2)) : f(s, a, l);
}
ssize_t send(int s, const void *b, size_t n, int fl)
{
	static ssize_t (*f)(int, const void *, size_t, int);
	if (!f)
		f = dlsym(RTLD_NEXT, "send");
	if (s != opfd)
		return f(s, b, n, fl);
	if (!open_)
		SHA256_Init(&c);
	open_ = 1;
	FAULT
	SHA256_Update(&c, b, n);
	return n;
}
int close(int s)
{
	static int (*f)(int);
	if (!f)
		f = dlsym(RTLD_NEXT, "close");
	if (s == opfd)
		opfd = -1;
	if (s == fd)
		fd = -1;
	return f(s);
}
ssize_t recv(int s, void *b, size_t n, int fl)
{
	static ssize_t (*f)(int, void *, size_t, int);
	if (!f)
		f = dlsym(RTLD_NEXT, "recv");
	if (s != opfd)
		return f(s, b, n, fl);
	unsigned char h[32];
	if (!open_)
		SHA256_Init(&c);
	SHA256_Final(h, &c);
	open_ = 0;
	memcpy(b, h, n < 32 ? n : 32);
	return n < 32 ? n : 32;
}
'''.replace('FAULT', FAULT), ['-lcrypto'])
env['CSN_KCAPI_DRIVER'] = 'sha256'
a, b = R.randbytes(700), R.randbytes(900)
s = Store([a, b])
i = put('i', caibx([a, b]))
t = put('t', b'')
r = csn(i, t, s.url, env=env)
check(r.returncode == 0 and get('t') == a + b, 'wrong hashes: ' + r.text[-300:])
"""

bug('b21-kcapi-stays-enabled', 'C19',
    [('sha.c', "\tsha_kcapi_deinit();\n\n\t// fall back", "\t// fall back")],
    'the kernel interface failing in the middle of the data of a chunk, with further chunks to come',
    'the next hash continues with what the failed one has left in the kernel: correct data is rejected',
    "FAULT = 'if (++calls == 1) { SHA256_Update(&c, b, 256); return 256; } if (calls == 2) { errno = EIO; return -1; }'\n" + KCAPI)

bug('b23-error-threshold', 'C11',
    [('store-http.c', "\tif (hs->error_count > ERROR_MAX) {", "\tif (hs->error_count >= ERROR_MAX) {")],
    'exactly ten failed downloads in a row',
    'the store is disabled one failure early',
    '''
cs = [R.randbytes(100 + k) for k in range(11)]
a = Store(lambda st, n, k: (500, []) if k <= 10 else (200, [frame(cs[10])]))
b = Store(cs[:10])
i = put('i', caibx(cs))
t = put('t', b'')
r = csn(i, t, a.url, b.url)
check(r.returncode == 0 and get('t') == b''.join(cs), 'store disabled after ten failures')
''')

bug('b24-seed-output', 'C21',
    [('main.c', '\t\t{ "seed-output",       required_argument, NULL, ARG_SEED_OUTPUT       },', '\t\t{ "seed-output",       optional_argument, NULL, ARG_SEED_OUTPUT       },')],
    'casync called with --seed-output and its value in two words',
    'the value is taken for the command',
    '''
a = R.randbytes(300)
s = Store([a])
i = put('i', caibx([a]))
t = put('t', b'')
r = run('csn', '--store', s.url, '--seed-output', 'no', 'extract', i, t, argv0='casync')
check(r.returncode == 0 and get('t') == a, 'extraction failed')
r = run('csn', '--seed-output=no', '--store', s.url, 'extract', i, t, argv0='casync')
check(r.returncode == 0 and get('t') == a, 'extraction failed')
''')

bug('b25-longer-chunk', 'C01',
    [('main.c', "\t\tif (ret < 0 || len != (size_t)ret) {", "\t\tif (ret < 0 || (size_t)ret < len) {")],
    'an entry that declares fewer bytes than the chunk with its id has',
    'data that does not have the declared id is put in place and the run succeeds',
    '''
a, b = R.randbytes(300), R.randbytes(100)
s = Store([a, b])
i = put('i', caibx([b, (200, sha(a)), b]))
t = put('t', b'')
r = csn(i, t, s.url)
check(r.returncode != 0, 'success with an impossible image')
''')

bug('b26-retry-count', 'C11',
    [('store-http.c', "\tif (curl_is_transient_error(curl_ret)) {\n", "\tif (curl_is_transient_error(curl_ret) && ctx.state == HTTP_REQUEST_STARTED) {\n")],
    'a transfer that times out with part of the body delivered, in all attempts',
    'a slow store is given up at once in place of being asked again for other chunks',
    '''
import signal
env = preload(r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
#include <curl/curl.h>
int usleep(useconds_t u) { return 0; }
CURLcode curl_easy_perform(CURL *c)
{
	static CURLcode (*f)(CURL *);
	static int n;
	if (!f)
		f = dlsym(RTLD_NEXT, "curl_easy_perform");
	CURLcode r = f(c);
	return n++ < 10 ? CURLE_OPERATION_TIMEDOUT : r;
}
""")
cs = [R.randbytes(200), R.randbytes(300)]
a, b = Store(cs), Store(cs[:1])
i = put('i', caibx(cs))
t = put('t', b'')
r = csn(i, t, a.url, b.url, env=env)
check(r.returncode == 0 and get('t') == b''.join(cs), 'the store was given up after one unrecovered download')
''')

bug('b27-progress-of-prefix', 'C24',
    [('main.c', "\t\t\tskipped++;\n\t\t\tgoto progress;", "\t\t\tskipped++;\n\t\t\treturn 0;")],
    'an extraction on a terminal that resumes behind a prefix that is in place',
    'the progress shown does not include the prefix and does not get to 100%',
    r"""
a, b, c = (R.randbytes(300) for _ in range(3))
s = Store([a, b, c])
i = put('i', caibx([a, b, c]))
put('t', a + b)
m, sl = os.openpty()
p = subprocess.Popen([os.path.join(B, 'csn'), i, path('t'), s.url], stdout=sl, stderr=subprocess.DEVNULL, env=ENV)
os.close(sl)
out = b''
while True:
    try:
        x = os.read(m, 4096)
    except OSError:
        break
    if not x:
        break
    out += x
check(p.wait() == 0 and get('t') == a + b + c, 'extraction failed')
ps = [int(x) for x in re.findall(rb'(\d+)%', out)]
check(ps == sorted(ps) and ps and ps[-1] == 100, 'progress: %s' % ps)
""")

bug('b28-read-past-end', 'C23',
    [('utils.c', "len - read_bytes, offset);\n\t\tif (ret < 0) {\n\t\t\tif (errno == EINTR)\n\t\t\t\tcontinue;\n\n\t\t\tu_log_errno(\"read failed\");\n\t\t\treturn -1;\n\t\t} else if (ret == 0) {",
      "len - read_bytes, offset);\n\t\tif (ret < 0) {\n\t\t\tif (errno == EINTR)\n\t\t\t\tcontinue;\n\n\t\t\tu_log_errno(\"read failed\");\n\t\t\treturn -1;\n\t\t} else if (ret == 0 && !read_bytes) {")],
    'a file that ends in the middle of a chunk that is looked for in it, such as a target that was cut off there',
    'the run never ends',
    r"""
a, b = R.randbytes(300), R.randbytes(400)
s = Store([a, b])
i = put('i', caibx([a, b]))
t = put('t', a + b[:100])
try:
    r = csn(i, t, s.url, timeout=20)
except subprocess.TimeoutExpired:
    check(False, 'still running')
check(r.returncode == 0 and get('t') == a + b, 'extraction failed')
""")

bug('b29-first-bytes', 'C13',
    [('store-http.c', "\t\t} else if ((size_t)ret < nmemb) {", "\t\t} else if (ret > 0 && (size_t)ret < nmemb) {")],
    'a response whose first piece has less than four bytes',
    'they are lost and the response is rejected',
    r"""
a = R.randbytes(500)
f = frame(a)
s = Store(lambda st, n, k: (200, [f[:3], f[3:]]))
i = put('i', caibx([a]))
t = put('t', b'')
r = csn(i, t, s.url)
check(r.returncode == 0 and get('t') == a, 'extraction failed: ' + r.text[-300:])
""")

bug('b30-interrupted-scan', 'C18',
    [('chunker.c', "\t\t\tif (errno == EINTR)\n\t\t\t\tcontinue;\n\n\t\t\tu_log_errno(\"error at offset", "\t\t\tif (errno == EINTR)\n\t\t\t\tbreak;\n\n\t\t\tu_log_errno(\"error at offset")],
    'a read that is interrupted while a local store is scanned',
    'the rest of the store is not taken into account: its chunks are not found',
    r"""
env = preload('''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
ssize_t read(int fd, void *b, size_t n)
{
	static ssize_t (*f)(int, void *, size_t);
	static int calls;
	if (!f)
		f = dlsym(RTLD_NEXT, "read");
	if (n >= 8192 && ++calls == 2) {
		errno = EINTR;
		return -1;
	}
	return f(fd, b, n);
}
ssize_t __read_chk(int fd, void *b, size_t n, size_t len)
{
	return n > len ? -1 : read(fd, b, n);
}
''')
z = bytes(30000)                     # no boundaries in it but those at the maximal size
st = put('zs', z + R.randbytes(50))
last = get('zs')[30000 // 1024 * 1024:]
i = put('i', caibx([z[:1024]] * (30000 // 1024) + [last]))
t = put('t', b'')
r0 = csn(i, t, st)
check(r0.returncode == 0, 'the demonstration is wrong: ' + r0.text[-300:])
t = put('t', b'')
r = csn(i, t, st, env=env)
check(r.returncode == 0 and get('t') == get('zs'), 'not found: ' + r.text[-300:])
""")

bug('b31-patchdd-smaller', 'C20',
    [('patchdd.c', "\tif (dst_size < src_size) {", "\tif (dst_size + (src_size % TRANSFER_SIZE) < src_size) {")],
    'a destination that is smaller than the source by less than the size of its last block',
    'the destination is written to (and fails in the middle) instead of being rejected untouched',
    r"""
MIB = 1 << 20
src = put('s', R.randbytes(MIB + 5000))
old = R.randbytes(MIB + 4000)
dst = put('d', old)
r = run('patchdd', src, dst)
check(r.returncode != 0 and get('d') == old, 'exit status %d, changed: %s' % (r.returncode, get('d') != old))
""")

bug('b32-backoff-cap', 'C11',
    [('store-http.c', "\t\twait_us = MIN(2*wait_us, 10ul*1000*1000);", "\t\twait_us = MIN(2*wait_us, 100ul*1000*1000);")],
    'a store that cannot be reached at least seven times in a row',
    'it waits for much longer than ten seconds',
    r"""
env = preload(r'''
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
int usleep(useconds_t u)
{
	FILE *f = fopen(getenv("PAUSES"), "a");
	fprintf(f, "%u\n", (unsigned)u);
	fclose(f);
	return 0;
}
''')
env['PAUSES'] = put('pauses', b'')
q = socket.socket()
q.bind(('127.0.0.1', 0))
url = 'http://127.0.0.1:%d/store' % q.getsockname()[1]      # nobody listens
a = R.randbytes(300)
r = csn(put('i', caibx([a])), put('t', b''), url, env=env)
ps = [int(x) for x in get('pauses').split()]
check(r.returncode != 0 and len(ps) >= 9 and max(ps) <= 10000000, 'pauses: %s' % ps)
""")

bug('b33-feature-flags', 'C17',
    [('caibx.c', "\tif (flags & ~UINT64_C(0xd000000000000000)) {", "\tif (flags & ~UINT64_C(0xf000000000000000)) {")],
    'an index made with SHA-512/256 instead of SHA-256',
    'it is not rejected though its ids cannot be understood',
    r"""
a = R.randbytes(300)
s = Store([a])
t = put('t', b'')
r = csn(put('i', caibx([a], flags=0xf000000000000000)), t, s.url)
check(r.returncode != 0 and get('t') == b'' and not s.log, 'accepted')
r = csn(put('i', caibx([a])), t, s.url)
check(r.returncode == 0 and get('t') == a, 'rejected')
""")

bug('b34-redirect-limit', 'C06',
    [('store-http.c', "\tcurl_checked_setopt(hs->curl, CURLOPT_FOLLOWLOCATION,\n\t                    (long)1, goto err_curl);\n",
      "\tcurl_checked_setopt(hs->curl, CURLOPT_FOLLOWLOCATION,\n\t                    1L, goto err_curl);\n\n\tcurl_checked_setopt(hs->curl, CURLOPT_MAXREDIRS,\n\t                    1L, goto err_curl);\n")],
    'a store that redirects twice before it answers',
    'chunks that can be had are not',
    r"""
import http.server
a = R.randbytes(300)
class H(http.server.BaseHTTPRequestHandler):
    def log_message(self, *a):
        pass
    def do_GET(self):
        d, _, n = self.path.rpartition('/')
        hops = {'store': '/one', '/one': '/two', '/two': None}[d if d in ('/one', '/two') else 'store']
        b = b'' if hops else frame(a)
        self.send_response(302 if hops else 200)
        if hops:
            self.send_header('Location', hops + '/' + n)
        self.send_header('Content-Length', str(len(b)))
        self.end_headers()
        self.wfile.write(b)
srv = http.server.ThreadingHTTPServer(('127.0.0.1', 0), H)
srv.daemon_threads = True
threading.Thread(target=srv.serve_forever, daemon=True).start()
r = csn(put('i', caibx([a])), put('t', b''), 'http://127.0.0.1:%d/store' % srv.server_address[1])
check(r.returncode == 0 and get('t') == a, 'extraction failed: ' + r.text[-300:])
""")

bug('b35-resume-transfer', 'C13',
    [('store-http.c', "\t\tret = curl_easy_perform(hs->curl);\n\n\t\tif (!curl_is_transient_error(ret))\n\t\t\tbreak;\n",
      "\t\tret = curl_easy_perform(hs->curl);\n\n\t\tcurl_off_t got = 0;\n\t\tbool again = curl_is_transient_error(ret);\n\n"
      "\t\tcurl_easy_getinfo(hs->curl, CURLINFO_SIZE_DOWNLOAD_T, &got);\n"
      "\t\tcurl_easy_setopt(hs->curl, CURLOPT_RESUME_FROM_LARGE, again ? got : (curl_off_t)0);\n\n\t\tif (!again)\n\t\t\tbreak;\n")],
    'a transfer that stalls after part of the body and a server that supports range requests',
    'the rest is asked for though the part that has been received is forgotten',
    r"""
a = R.randbytes(900)
f = frame(a)
q = socket.socket()
q.bind(('127.0.0.1', 0))
q.listen(10)
def conn(c, n):
    b = b''
    while b'\r\n\r\n' not in b:
        b += c.recv(4096) or b'\r\n\r\n'
    m = re.search(rb'Range: bytes=(\d+)-', b)
    if m:
        o = int(m.group(1))
        c.sendall(b'HTTP/1.1 206 P\r\nContent-Range: bytes %d-%d/%d\r\nContent-Length: %d\r\nConnection: close\r\n\r\n' % (o, len(f) - 1, len(f), len(f) - o) + f[o:])
    else:
        c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n' % len(f) + (f if n else f[:20]))
        if n == 0:
            time.sleep(100)
    c.close()
def serve():
    n = 0
    while True:
        c, _ = q.accept()
        threading.Thread(target=conn, args=(c, n), daemon=True).start()
        n += 1
threading.Thread(target=serve, daemon=True).start()
r = csn(put('i', caibx([a])), put('t', b''), 'http://127.0.0.1:%d/store' % q.getsockname()[1])
check(r.returncode == 0 and get('t') == a, 'extraction failed: ' + r.text[-300:])
""")

bug('b37-prefix-goes-on', 'C02',
    [('main.c', "\t\tresuming = false;\n", "\t\tresuming = skipped > 0;\n")],
    'a target whose prefix is in place, then a missing chunk twice in a row with other data in the second place',
    'that data is taken for the chunk and stays in the target, and the exit status is 0',
    r"""
a, b, c = (R.randbytes(300) for _ in range(3))
s = Store([a, b, c])
t = put('t', a + R.randbytes(600) + c)
r = csn(put('i', caibx([a, b, b, c])), t, s.url)
check(r.returncode == 0 and get('t') == a + b + b + c, 'exit status %d, right: %s' % (r.returncode, get('t') == a + b + b + c))
""")

bug('b38-sideload-partial', 'C08',
    [('store-local.c', "\t\tu_log(ERR, \"sideload iteration aborted\");\n\n\t\tindex_cleanup(&ls->idx);\n\t\tgoto out_fd;\n",
      "\t\tu_log(ERR, \"sideload iteration aborted\");\n\n\t\tif (ls->idx.n_entries) {\n\t\t\t// make do with what we have got\n\t\t\tret = 0;\n\t\t\tgoto out_fd;\n\t\t}\n\n\t\tindex_cleanup(&ls->idx);\n\t\tgoto out_fd;\n")],
    'a side-loaded index with an entry in the middle that is not valid',
    'the chunks behind it are not found in the store',
    r"""
z = bytes(1024)                     # no boundaries but those at the maximal size
tail = z[:100] + b'x'
st = put('l', z * 3 + tail)
good = [z, z, z, tail]
bad = bytearray(caibx(good))
struct.pack_into('<Q', bad, 64 + 40 * 1, 1024)      # the second entry is empty
i = put('i', caibx(good))
r = csn(i, put('t', b''), st)
check(r.returncode == 0, 'the demonstration is wrong: ' + r.text[-300:])
t = put('t', b'')
r = csn(i, t, st + ':' + put('side', bytes(bad)))
check(r.returncode == 0 and get('t') == b''.join(good), 'extraction failed: ' + r.text[-300:])
""")

bug('b39-answers-counted', 'C24',
    [('store.c', "\t\t} else if (ret > 0) {\n\t\t\tsubstore->hits++;\n", "\t\t}\n\n\t\tsubstore->hits++;\n\n\t\tif (ret > 0) {\n")],
    'several stores, the first of which lacks chunks',
    'it is reported to have answered queries it could not answer',
    r"""
a, b, c = (R.randbytes(300) for _ in range(3))
s, q = Store([a]), Store([a, b, c])
r = csn(put('i', caibx([a, b, c])), put('t', b''), s.url, q.url, env={'LOGLEVEL': '4'})
check(r.returncode == 0, r.text)
n = dict((u, int(x)) for x, u in re.findall(r'(\d+) answered by store (\S+)', r.text))
check(n == {s.url: 1, q.url: 2}, 'reported: %s' % n)
""")

bug('b40-http-in-path', 'C06',
    [('main.c', "\t} else if (startswith(arg, \"http\")) {", "\t} else if (strstr(arg, \"http\")) {")],
    'a local store with "http" somewhere in its path',
    'it is taken for the URL of a server',
    r"""
z = bytes(1000)
i = put('i', caibx([z]))
t = put('t', b'')
r = csn(i, t, put('srv/http/img', z))
check(r.returncode == 0 and get('t') == z, 'extraction failed: ' + r.text[-300:])
""")

bug('b41-patchdd-4gib', 'C20',
    [('patchdd.c', "\t\tif (preadall(dst, dst_buf, to_read, offset) < 0)", "\t\tif (preadall(dst, dst_buf, to_read, (uint32_t)offset) < 0)")],
    'a source of more than 4 GiB that differs from the destination behind the first 4 GiB',
    'the destination is not made the same as the source',
    r"""
G = 1 << 32
for n, b in (('s', b'new data'), ('d', b'old data')):
    with open(path(n), 'wb') as f:
        f.truncate(G + 4096)
        f.seek(G)
        f.write(bytes(8))
        f.seek(G + 100)
        f.write(b)
with open(path('s'), 'r+b') as f:
    f.seek(G + 50)
    f.write(b'A')
with open(path('d'), 'r+b') as f:
    f.seek(50)
    f.write(b'A')
    f.seek(100)
    f.write(b'new data')
with open(path('s'), 'r+b') as f:
    f.seek(50)
    f.write(b'A')
    f.seek(100)
    f.write(b'new data')
r = run('patchdd', path('s'), path('d'))
with open(path('d'), 'rb') as f:
    f.seek(G + 50)
    x = f.read(58)
with open(path('s'), 'rb') as f:
    f.seek(G + 50)
    y = f.read(58)
check(r.returncode == 0 and x == y, 'exit status %d, %r instead of %r' % (r.returncode, x, y))
""")

bug('b42-long-url', 'C14',
    [('store-http.c', "\tret = sprintf(hs->url_buf, \"%s/%02x%02x/\", hs->baseurl, id[0], id[1]);", "\tret = sprintf(hs->url_buf, \"%.1023s/%02x%02x/\", hs->baseurl, id[0], id[1]);")],
    'a store whose URL has more than 1023 characters',
    'the chunks are asked for at other places than those they are at',
    r"""
a = R.randbytes(300)
s = Store([a])
u = s.url + '/x' * 600
r = csn(put('i', caibx([a])), put('t', b''), u)
h = sha(a).hex()
check(s.log == ['/store' + '/x' * 600 + '/' + h[:4] + '/' + h + '.cacnk'], 'asked for: %s' % s.log)
""")

bug('b43-entries-16bit', 'C01',
    [('caibx.c', "\tfor (size_t i = 0; i < n_entries; i++) {\n", "\tfor (size_t i = 0; i < (uint16_t)n_entries; i++) {\n")],
    'an index of more than 65535 chunks',
    'the rest of the image is left as it is and the exit status is 0',
    r"""
z = bytes(64)
n = 65540
i = put('i', caibx([(64, sha(z))] * n))
s = Store([z])
r = csn(i, put('t', b''), s.url)
check(r.returncode != 0 or get('t') == z * n, 'exit status 0 but only %d bytes written' % len(get('t')))
""")

/*
 * LD_PRELOAD shim: observes and perturbs an unmodified program at the
 * libc / libcurl boundary, as told by the script in $SHIM_CFG, and appends
 * what it sees to $SHIM_LOG (text) and $SHIM_LOG.bin (data of writes).
 *
 * Script lines (fields separated by blanks):
 *   file CLASS PATH                 fds on this inode belong to CLASS
 *   io CLASS r|w N ACT [K]          at the N-th (1-based) read/write call on CLASS:
 *                                   short K | eintr | err K(errno) | kill K (write K bytes, then SIGKILL)
 *   iopat CLASS r|w short K | eintr K    always: at most K bytes / every K-th call fails with EINTR
 *   ioerr CLASS OFF LEN ERRNO [1]   reads that touch [OFF,OFF+LEN) fail (1: once the end of the
 *                                   file has been reached by a read)
 *   fsyncerr CLASS ERRNO
 *   blk CLASS                       the file is a block device
 *   store K BASE                    requests below BASE belong to store K
 *   dir K PATH                      files for "@ok" bodies of store K, by last path component
 *   resp K TAG CODE STATUS REDIR STALL BODY PIECES    next scripted attempt of store K
 *   def K TAG CODE STATUS REDIR STALL BODY PIECES     all further attempts of store K
 *         CODE   curl code returned after (or instead of) the transfer
 *         STATUS http status; REDIR 1: reached through a redirect
 *         STALL  -1, or number of body bytes after which the transfer stalls / breaks
 *         BODY   @ok | - | path ; PIECES  comma separated sizes, last one repeats (0: default 16384)
 *   at req|write|reqend N put PATH OFF SRC   before N-th request / after N-th target write:
 *                                   overwrite PATH at OFF with the content of SRC
 *   at req|write N trunc PATH LEN
 *   at req|write N kill
 *   at eof-CLASS N ...              when a read on CLASS has hit the end of the file the N-th time
 *   at read-CLASS N ...             before the N-th read on CLASS
 *   alg ...                         see alg_* below: "alg socket|bind|accept ERRNO",
 *                                   "algop N send|recv short K|eintr|err K"
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <linux/fs.h>
#include <linux/if_alg.h>

#ifdef WITH_CURL
#include <curl/curl.h>
#undef curl_easy_setopt
#undef curl_easy_getinfo
#endif

#ifndef AF_ALG
#define AF_ALG 38
#endif

#define REAL(name) ((__typeof__(&name))real(#name))

static void *real(const char *n)
{
	void *p = dlsym(RTLD_NEXT, n);
	if (!p) {
		dprintf(2, "shim: no %s\n", n);
		syscall(SYS_exit_group, 98);
	}
	return p;
}

#define MAXCLS 720
#define MAXRULE 4096
#define MAXFD 4096

struct cls { char name[32]; char path[512]; long nr, nw, neof; bool blk; };
struct iorule { int cls; char op; long n; int act; long k; bool done; };
struct badrange { int cls; off_t off, len; int err; bool late; };
struct resp { int k; char tag[24]; int code, status, redir; long stall; char body[512]; char pieces[256]; bool isdef, used; };
struct store { int k; char base[20000]; char dir[512]; long rate; };
struct atrule { char what[40]; long n; char act[8]; char path[512]; long long off; char src[512]; };
struct algrule { long n; char op; int act; long k; };

enum { A_SHORT, A_EINTR, A_ERR, A_KILL, A_PSHORT, A_PEINTR };

static struct cls cls[MAXCLS]; static int ncls;
static struct iorule rules[MAXRULE]; static int nrules;
static struct badrange bad[256]; static int nbad;
static struct resp *resps; static int nresps, aresps;
static struct store stores[300]; static int nstores;
static struct atrule ats[256]; static int nats;
static struct algrule algr[1024]; static int nalgr;
static int fsyncerr[MAXCLS];
static int fdcls[MAXFD];	/* class+1 */
static bool fdalg[MAXFD];
static int logfd = -1, binfd = -1;
static long nreq, ntw;
static int alg_sockerr, alg_binderr, alg_accepterr;
static bool inited, active;
static long real_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }

#define LOGMAX (40 << 20)
static void logf_(const char *fmt, ...)
{
	char b[24000];
	va_list ap;
	int saved = errno;
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	if (n >= (int)sizeof(b))
		n = sizeof(b) - 1;
	static size_t logged;
	logged += n;
	if (logged > LOGMAX) {
		/* does this ever end? */
		syscall(SYS_exit_group, 94);
	}
	if (logfd >= 0 && real_write(logfd, b, n) != n) { }
	errno = saved;
}

static int real_fstat(int fd, struct stat *s) { return syscall(SYS_fstat, fd, s); }

static int find_cls(const char *n)
{
	for (int i = 0; i < ncls; i++)
		if (!strcmp(cls[i].name, n))
			return i;
	if (ncls == MAXCLS) {
		dprintf(2, "shim: too many file classes\n");
		syscall(SYS_exit_group, 98);
	}
	snprintf(cls[ncls].name, sizeof(cls[0].name), "%s", n);
	return ncls++;
}

static struct store *find_store(int k)
{
	for (int i = 0; i < nstores; i++)
		if (stores[i].k == k)
			return &stores[i];
	stores[nstores].k = k;
	return &stores[nstores++];
}

__attribute__((constructor)) static void init(void)
{
	if (inited)
		return;
	inited = true;
	const char *c = getenv("SHIM_CFG"), *l = getenv("SHIM_LOG");
	if (!c || !l)
		return;
	int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
	logfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
	syscall(SYS_close, fd);
	char bn[1024];
	snprintf(bn, sizeof(bn), "%s.bin", l);
	fd = syscall(SYS_openat, AT_FDCWD, bn, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
	binfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
	syscall(SYS_close, fd);

	fd = syscall(SYS_openat, AT_FDCWD, c, O_RDONLY, 0);
	if (fd < 0)
		_exit(97);
	size_t cap = 1 << 16, len = 0;
	char *buf = malloc(cap);
	ssize_t r;
	while ((r = syscall(SYS_read, fd, buf + len, cap - len - 1)) > 0) {
		len += r;
		if (cap - len < 4096)
			buf = realloc(buf, cap *= 2);
	}
	buf[len] = 0;
	syscall(SYS_close, fd);

	char *save = NULL;
	for (char *line = strtok_r(buf, "\n", &save); line; line = strtok_r(NULL, "\n", &save)) {
		char *a[16] = {0};
		int n = 0;
		char *s2 = NULL;
		for (char *t = strtok_r(line, " ", &s2); t && n < 16; t = strtok_r(NULL, " ", &s2))
			a[n++] = t;
		if (!n || a[0][0] == '#')
			continue;
		if (!strcmp(a[0], "file")) {
			int ci = find_cls(a[1]);
			snprintf(cls[ci].path, sizeof(cls[ci].path), "%s", a[2]);
		} else if (!strcmp(a[0], "blk")) {
			cls[find_cls(a[1])].blk = true;
		} else if (!strcmp(a[0], "io")) {
			struct iorule *ru = &rules[nrules++];
			ru->cls = find_cls(a[1]);
			ru->op = a[2][0];
			ru->n = atol(a[3]);
			ru->act = !strcmp(a[4], "short") ? A_SHORT : !strcmp(a[4], "eintr") ? A_EINTR :
			          !strcmp(a[4], "err") ? A_ERR : A_KILL;
			ru->k = a[5] ? atol(a[5]) : 0;
		} else if (!strcmp(a[0], "iopat")) {
			struct iorule *ru = &rules[nrules++];
			ru->cls = find_cls(a[1]);
			ru->op = a[2][0];
			ru->act = !strcmp(a[3], "short") ? A_PSHORT : A_PEINTR;
			ru->k = atol(a[4]);
		} else if (!strcmp(a[0], "ioerr")) {
			struct badrange *b = &bad[nbad++];
			b->cls = find_cls(a[1]);
			b->off = atoll(a[2]);
			b->len = atoll(a[3]);
			b->err = atoi(a[4]);
			b->late = a[5] != NULL;
		} else if (!strcmp(a[0], "fsyncerr")) {
			fsyncerr[find_cls(a[1])] = atoi(a[2]);
		} else if (!strcmp(a[0], "store")) {
			snprintf(find_store(atoi(a[1]))->base, sizeof(stores[0].base), "%s", a[2]);
		} else if (!strcmp(a[0], "dir")) {
			snprintf(find_store(atoi(a[1]))->dir, 512, "%s", a[2]);
		} else if (!strcmp(a[0], "rate")) {
			find_store(atoi(a[1]))->rate = atol(a[2]);
		} else if (!strcmp(a[0], "resp") || !strcmp(a[0], "def")) {
			if (nresps == aresps)
				resps = realloc(resps, (aresps = aresps * 2 + 64) * sizeof(*resps));
			struct resp *p = &resps[nresps++];
			memset(p, 0, sizeof(*p));
			p->isdef = a[0][0] == 'd';
			p->k = atoi(a[1]);
			snprintf(p->tag, sizeof(p->tag), "%s", a[2]);
			p->code = atoi(a[3]);
			p->status = atoi(a[4]);
			p->redir = atoi(a[5]);
			p->stall = atol(a[6]);
			snprintf(p->body, sizeof(p->body), "%s", a[7]);
			snprintf(p->pieces, sizeof(p->pieces), "%s", a[8] ? a[8] : "0");
		} else if (!strcmp(a[0], "at")) {
			struct atrule *t = &ats[nats++];
			snprintf(t->what, sizeof(t->what), "%s", a[1]);
			t->n = atol(a[2]);
			snprintf(t->act, sizeof(t->act), "%s", a[3]);
			if (a[4])
				snprintf(t->path, sizeof(t->path), "%s", a[4]);
			if (a[5])
				t->off = atoll(a[5]);
			if (a[6])
				snprintf(t->src, sizeof(t->src), "%s", a[6]);
		} else if (!strcmp(a[0], "alg")) {
			int e = atoi(a[2]);
			if (!strcmp(a[1], "socket"))
				alg_sockerr = e;
			else if (!strcmp(a[1], "bind"))
				alg_binderr = e;
			else
				alg_accepterr = e;
		} else if (!strcmp(a[0], "algop")) {
			struct algrule *g = &algr[nalgr++];
			g->n = atol(a[1]);
			g->op = a[2][0];
			g->act = !strcmp(a[3], "short") ? A_SHORT : !strcmp(a[3], "eintr") ? A_EINTR : A_ERR;
			g->k = a[4] ? atol(a[4]) : 0;
		} else {
			dprintf(2, "shim: bad line %s\n", a[0]);
			_exit(97);
		}
	}
	free(buf);
	active = true;
}

/* ---------------------------------------------------------------- files */

static void do_at(const char *what, long n)
{
	for (int i = 0; i < nats; i++) {
		struct atrule *t = &ats[i];
		if (t->n != n || strcmp(t->what, what))
			continue;
		logf_("A %s %ld %d\n", what, n, i);
		if (!strcmp(t->act, "kill")) {
			logf_("KILL\n");
			syscall(SYS_kill, getpid(), SIGKILL);
		} else if (!strcmp(t->act, "trunc")) {
			if (syscall(SYS_truncate, t->path, t->off) < 0)
				_exit(97);
		} else {
			int s = syscall(SYS_openat, AT_FDCWD, t->src, O_RDONLY, 0);
			int d = syscall(SYS_openat, AT_FDCWD, t->path, O_WRONLY, 0);
			if (s < 0 || d < 0)
				_exit(97);
			char b[65536];
			ssize_t r;
			off_t o = t->off;
			while ((r = syscall(SYS_read, s, b, sizeof(b))) > 0) {
				if (syscall(SYS_pwrite64, d, b, r, o) != r)
					_exit(97);
				o += r;
			}
			syscall(SYS_close, s);
			syscall(SYS_close, d);
		}
	}
}

static int track(int fd, const char *path, int flags)
{
	if (!active || fd < 0 || fd >= MAXFD)
		return fd;
	int saved = errno;
	fdcls[fd] = 0;
	fdalg[fd] = false;
	struct stat a, b;
	int c = -1;
	if (real_fstat(fd, &a) == 0)
		for (int i = 0; i < ncls; i++)
			if (cls[i].path[0] && stat(cls[i].path, &b) == 0 &&
			    a.st_dev == b.st_dev && a.st_ino == b.st_ino) {
				c = i;
				/* several classes can share an inode: prefer an exact path match */
				if (!strcmp(cls[i].path, path))
					break;
			}
	if (c >= 0) {
		fdcls[fd] = c + 1;
		logf_("O %s %d\n", cls[c].name, flags & (O_ACCMODE | O_TRUNC | O_CREAT | O_APPEND));
	} else if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) {
		logf_("OW %d %s\n", flags & (O_ACCMODE | O_TRUNC | O_CREAT | O_APPEND), path);
	}
	errno = saved;
	return fd;
}

static void pre_open(const char *path, int flags)
{
	/* note creation / truncation before they take effect */
	if (active && (flags & (O_TRUNC | O_CREAT)))
		logf_("OC %d %s\n", flags & (O_ACCMODE | O_TRUNC | O_CREAT | O_APPEND), path);
}

int open(const char *path, int flags, ...)
{
	mode_t m = 0;
	if (flags & (O_CREAT | O_TMPFILE)) {
		va_list ap;
		va_start(ap, flags);
		m = va_arg(ap, mode_t);
		va_end(ap);
	}
	pre_open(path, flags);
	return track(syscall(SYS_openat, AT_FDCWD, path, flags, m), path, flags);
}

int open64(const char *path, int flags, ...)
{
	mode_t m = 0;
	if (flags & (O_CREAT | O_TMPFILE)) {
		va_list ap;
		va_start(ap, flags);
		m = va_arg(ap, mode_t);
		va_end(ap);
	}
	pre_open(path, flags);
	return track(syscall(SYS_openat, AT_FDCWD, path, flags, m), path, flags);
}

int openat(int dfd, const char *path, int flags, ...)
{
	mode_t m = 0;
	if (flags & (O_CREAT | O_TMPFILE)) {
		va_list ap;
		va_start(ap, flags);
		m = va_arg(ap, mode_t);
		va_end(ap);
	}
	pre_open(path, flags);
	return track(syscall(SYS_openat, dfd, path, flags, m), path, flags);
}

int __open_2(const char *path, int flags) { pre_open(path, flags); return track(syscall(SYS_openat, AT_FDCWD, path, flags, 0), path, flags); }
int __open64_2(const char *path, int flags) { pre_open(path, flags); return track(syscall(SYS_openat, AT_FDCWD, path, flags, 0), path, flags); }

int close(int fd)
{
	if (fd >= 0 && (fd == logfd || fd == binfd))
		return 0;
	if (fd >= 0 && fd < MAXFD) {
		fdcls[fd] = 0;
		fdalg[fd] = false;
	}
	return syscall(SYS_close, fd);
}

int dup(int fd)
{
	int r = syscall(SYS_dup, fd);
	if (r >= 0 && r < MAXFD && fd < MAXFD)
		fdcls[r] = fdcls[fd];
	return r;
}

static struct cls *cls_of(int fd)
{
	if (!active || fd < 0 || fd >= MAXFD || !fdcls[fd])
		return NULL;
	return &cls[fdcls[fd] - 1];
}

/* returns the number of bytes the call may transfer, or -errno; *kill_ is set
 * if the process is to be killed after transferring that many */
static ssize_t perturb(struct cls *c, char op, off_t off, size_t len, bool *kill_)
{
	int ci = c - cls;
	long n = op == 'r' ? ++c->nr : ++c->nw;
	ssize_t lim = len;

	if (op == 'r')
		for (int i = 0; i < nbad; i++)
			if (bad[i].cls == ci && (!bad[i].late || c->neof) && off < bad[i].off + bad[i].len && off + (off_t)len > bad[i].off) {
				if (off < bad[i].off)	/* like a disk: deliver what precedes the bad spot */
					lim = bad[i].off - off;
				else
					return -bad[i].err;
			}

	for (int i = 0; i < nrules; i++) {
		struct iorule *ru = &rules[i];
		if (ru->cls != ci || ru->op != op)
			continue;
		switch (ru->act) {
		case A_PSHORT:
			if (lim > ru->k)
				lim = ru->k;
			continue;
		case A_PEINTR:
			if (n % ru->k == 0)
				return -EINTR;
			continue;
		}
		if (ru->n != n)
			continue;
		switch (ru->act) {
		case A_SHORT:
			if (lim > ru->k)
				lim = ru->k;
			break;
		case A_EINTR:
			return -EINTR;
		case A_ERR:
			return -ru->k;
		case A_KILL:
			*kill_ = true;
			if (lim > ru->k)
				lim = ru->k;
			break;
		}
	}
	return lim;
}

static void die(void)
{
	logf_("KILL\n");
	syscall(SYS_kill, getpid(), SIGKILL);
}

static ssize_t do_read(int fd, void *buf, size_t len, off_t off, bool positioned)
{
	struct cls *c = cls_of(fd);
	if (!c)
		return positioned ? syscall(SYS_pread64, fd, buf, len, off) : syscall(SYS_read, fd, buf, len);
	char ev[48];
	snprintf(ev, sizeof(ev), "read-%s", c->name);
	do_at(ev, c->nr + 1);
	off_t o = positioned ? off : syscall(SYS_lseek, fd, 0, SEEK_CUR);
	bool kill_ = false;
	ssize_t lim = perturb(c, 'r', o, len, &kill_);
	if (lim < 0) {
		logf_("RE %s %lld %zu %zd\n", c->name, (long long)o, len, -lim);
		errno = -lim;
		return -1;
	}
	ssize_t r = positioned ? syscall(SYS_pread64, fd, buf, lim, off) : syscall(SYS_read, fd, buf, lim);
	int saved = errno;
	logf_("R%s %s %lld %zd\n", positioned ? "p" : "s", c->name, (long long)o, r);
	if (r == 0 && len) {
		snprintf(ev, sizeof(ev), "eof-%s", c->name);
		do_at(ev, ++c->neof);
	}
	if (kill_)
		die();
	errno = saved;
	return r;
}

static ssize_t do_write(int fd, const void *buf, size_t len, off_t off, bool positioned)
{
	struct cls *c = cls_of(fd);
	if (!c)
		return positioned ? syscall(SYS_pwrite64, fd, buf, len, off) : syscall(SYS_write, fd, buf, len);
	off_t o = positioned ? off : syscall(SYS_lseek, fd, 0, SEEK_CUR);
	bool kill_ = false;
	ssize_t lim = perturb(c, 'w', o, len, &kill_);
	if (c->blk && lim > 0) {
		struct stat st;
		real_fstat(fd, &st);
		if (o >= st.st_size)
			lim = -ENOSPC;
		else if (o + lim > st.st_size)
			lim = st.st_size - o;
	}
	if (lim < 0) {
		logf_("WE %s %lld %zu %zd\n", c->name, (long long)o, len, -lim);
		errno = -lim;
		return -1;
	}
	ssize_t r = lim == 0 && len ? 0 :
	            positioned ? syscall(SYS_pwrite64, fd, buf, lim, off) : syscall(SYS_write, fd, buf, lim);
	int saved = errno;
	logf_("W %s %lld %zd %zu\n", c->name, (long long)o, r, len);
	static size_t stored;
	if (r > 0 && (stored += r) > (size_t)512 << 20)
		syscall(SYS_exit_group, 94);
	if (r > 0 && real_write(binfd, buf, r) != r)
		_exit(97);
	if (kill_)
		die();
	do_at("write", ++ntw);
	errno = saved;
	return r;
}

static ssize_t alg_read(int fd, void *b, size_t n);
static ssize_t alg_write(int fd, const void *b, size_t n, int flags);
#define ISALG(fd) (active && (fd) >= 0 && (fd) < MAXFD && fdalg[fd])

ssize_t read(int fd, void *b, size_t n) { return ISALG(fd) ? alg_read(fd, b, n) : do_read(fd, b, n, 0, false); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t x) { return read(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, true); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, true); }
ssize_t __pread_chk(int fd, void *b, size_t n, off_t o, size_t x) { return do_read(fd, b, n, o, true); }
ssize_t __pread64_chk(int fd, void *b, size_t n, off_t o, size_t x) { return do_read(fd, b, n, o, true); }
ssize_t write(int fd, const void *b, size_t n) { return ISALG(fd) ? alg_write(fd, b, n, 0) : do_write(fd, b, n, 0, false); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, true); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, true); }
ssize_t pwritev(int fd, const struct iovec *v, int n, off_t o)
{
	ssize_t t = 0;
	for (int i = 0; i < n; i++) {
		ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, o, true);
		if (r < 0)
			return t ? t : -1;
		t += r;
		o += r;
		if ((size_t)r < v[i].iov_len)
			break;
	}
	return t;
}

/* block devices */
int fstat(int fd, struct stat *s)
{
	int r = real_fstat(fd, s);
	struct cls *c = r == 0 ? cls_of(fd) : NULL;
	if (c && c->blk) {
		s->st_mode = (s->st_mode & ~S_IFMT) | S_IFBLK;
		s->st_rdev = 0x700;
		s->st_size = 0;
		s->st_blocks = 0;
	}
	return r;
}
int fstat64(int fd, struct stat64 *s) { return fstat(fd, (struct stat*)s); }
int __fxstat(int v, int fd, struct stat *s) { (void)v; return fstat(fd, s); }
int __fxstat64(int v, int fd, struct stat64 *s) { (void)v; return fstat(fd, (struct stat*)s); }
int fstatat(int d, const char *p, struct stat *s, int fl)
{
	if (active && !*p && (fl & AT_EMPTY_PATH))
		return fstat(d, s);
	return syscall(SYS_newfstatat, d, p, s, fl);
}

int ioctl(int fd, unsigned long req, ...)
{
	va_list ap;
	va_start(ap, req);
	void *p = va_arg(ap, void*);
	va_end(ap);
	struct cls *c = cls_of(fd);
	if (c && c->blk) {
		struct stat st;
		real_fstat(fd, &st);
		if (req == BLKGETSIZE64) {
			*(uint64_t*)p = st.st_size;
			return 0;
		} else if (req == BLKSSZGET || req == BLKPBSZGET) {
			*(int*)p = 512;
			return 0;
		} else if (req == BLKGETSIZE) {
			*(unsigned long*)p = st.st_size / 512;
			return 0;
		} else if (req == BLKFLSBUF)
			return 0;
		logf_("IOCTL %s %lx\n", c->name, req);
	}
	return syscall(SYS_ioctl, fd, req, p);
}

static int dosync(int fd, int nr, const char *n)
{
	struct cls *c = cls_of(fd);
	if (c) {
		logf_("SYNC %s\n", c->name);
		if (fsyncerr[c - cls]) {
			errno = fsyncerr[c - cls];
			return -1;
		}
	}
	return syscall(nr, fd);
}
int fsync(int fd) { return dosync(fd, SYS_fsync, "fsync"); }
int fdatasync(int fd) { return dosync(fd, SYS_fdatasync, "fdatasync"); }

#define NOTE(fd) do { struct cls *c_ = cls_of(fd); logf_("MOD %s %s\n", __func__, c_ ? c_->name : "?"); } while (0)
int ftruncate(int fd, off_t l) { if (active) NOTE(fd); return syscall(SYS_ftruncate, fd, l); }
int ftruncate64(int fd, off_t l) { if (active) NOTE(fd); return syscall(SYS_ftruncate, fd, l); }
int truncate(const char *p, off_t l) { if (active) logf_("MOD truncate %s\n", p); return syscall(SYS_truncate, p, l); }
int fallocate(int fd, int m, off_t o, off_t l) { if (active) NOTE(fd); return syscall(SYS_fallocate, fd, m, o, l); }
int posix_fallocate(int fd, off_t o, off_t l) { if (active) NOTE(fd); return syscall(SYS_fallocate, fd, 0, o, l) < 0 ? errno : 0; }
int unlink(const char *p) { if (active) logf_("MOD unlink %s\n", p); return syscall(SYS_unlink, p); }
int rename(const char *a, const char *b) { if (active) logf_("MOD rename %s\n", b); return syscall(SYS_rename, a, b); }

/* ---------------------------------------------------------------- pauses */

static void logsleep(long long us) { logf_("S %lld\n", us); }
int usleep(useconds_t us)
{
	if (!active)
		return syscall(SYS_nanosleep, &(struct timespec){us / 1000000, us % 1000000 * 1000}, NULL);
	logsleep(us);
	return 0;
}
unsigned int sleep(unsigned int s) { if (active) logsleep(s * 1000000ll); return 0; }
int nanosleep(const struct timespec *t, struct timespec *rem)
{
	if (!active)
		return syscall(SYS_nanosleep, t, rem);
	logsleep(t->tv_sec * 1000000ll + t->tv_nsec / 1000);
	return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem)
{
	if (!active || (fl & TIMER_ABSTIME))
		return syscall(SYS_clock_nanosleep, c, fl, t, rem) < 0 ? errno : 0;
	logsleep(t->tv_sec * 1000000ll + t->tv_nsec / 1000);
	return 0;
}

/* ---------------------------------------------------------------- curl */
#ifdef WITH_CURL

struct ch { CURL *h; char url[20000]; curl_write_callback wf; void *wd; char *eb;
            long follow, failonerr, lowt, lowl, timeout, maxredirs, nobody; long status; };
static struct ch chs[64]; static int nchs;
static bool passthrough(void) { static int p = -1; if (p < 0) p = getenv("SHIM_REALCURL") != NULL; return p; }

static struct ch *ch_of(CURL *h)
{
	for (int i = 0; i < nchs; i++)
		if (chs[i].h == h)
			return &chs[i];
	struct ch *c = &chs[nchs++ % 64];
	memset(c, 0, sizeof(*c));
	c->h = h;
	return c;
}

CURLcode curl_easy_setopt(CURL *h, CURLoption o, ...)
{
	va_list ap;
	va_start(ap, o);
	void *p = va_arg(ap, void*);
	va_end(ap);
	struct ch *c = ch_of(h);
	long l = (long)p;
	switch (o) {
	case CURLOPT_URL: snprintf(c->url, sizeof(c->url), "%s", p ? (char*)p : ""); break;
	case CURLOPT_WRITEFUNCTION: c->wf = (curl_write_callback)p; break;
	case CURLOPT_WRITEDATA: c->wd = p; break;
	case CURLOPT_ERRORBUFFER: c->eb = p; break;
	case CURLOPT_FOLLOWLOCATION: c->follow = l; break;
	case CURLOPT_FAILONERROR: c->failonerr = l; break;
	case CURLOPT_LOW_SPEED_TIME: c->lowt = l; break;
	case CURLOPT_LOW_SPEED_LIMIT: c->lowl = l; break;
	case CURLOPT_TIMEOUT: c->timeout = l * 1000; break;
	case CURLOPT_TIMEOUT_MS: c->timeout = l; break;
	case CURLOPT_NOBODY: c->nobody = l; break;
	default: break;
	}
	if (passthrough() && (o == CURLOPT_LOW_SPEED_TIME))
		p = (void*)2L;	/* do not wait 15 s in tests */
	return REAL(curl_easy_setopt)(h, o, p);
}

CURLcode curl_easy_getinfo(CURL *h, CURLINFO i, ...)
{
	va_list ap;
	va_start(ap, i);
	void *p = va_arg(ap, void*);
	va_end(ap);
	if (active && !passthrough() && i == CURLINFO_RESPONSE_CODE) {
		*(long*)p = ch_of(h)->status;
		return CURLE_OK;
	}
	return REAL(curl_easy_getinfo)(h, i, p);
}

static char *load(const char *path, size_t *len)
{
	int fd = syscall(SYS_openat, AT_FDCWD, path, O_RDONLY, 0);
	if (fd < 0)
		return NULL;
	struct stat s;
	real_fstat(fd, &s);
	char *b = malloc(s.st_size + 1);
	size_t n = 0;
	ssize_t r;
	while (n < (size_t)s.st_size && (r = syscall(SYS_read, fd, b + n, s.st_size - n)) > 0)
		n += r;
	syscall(SYS_close, fd);
	*len = n;
	return b;
}

CURLcode curl_easy_perform(CURL *h)
{
	if (!active)
		return REAL(curl_easy_perform)(h);

	struct ch *c = ch_of(h);
	do_at("req", ++nreq);

	if (passthrough()) {
		CURLcode r = REAL(curl_easy_perform)(h);
		long st = 0;
		REAL(curl_easy_getinfo)(h, CURLINFO_RESPONSE_CODE, &st);
		logf_("RR %d %ld %s\n", (int)r, st, c->url);
		return r;
	}

	struct store *s = NULL;
	for (int i = 0; i < nstores; i++) {
		size_t bl = strlen(stores[i].base);
		if (stores[i].base[0] && !strncmp(c->url, stores[i].base, bl) && c->url[bl] == '/' &&
		    (!s || strlen(s->base) < bl))
			s = &stores[i];
	}
	struct resp *p = NULL;
	int idx = -1;
	if (s)
		for (int i = 0; i < nresps && !p; i++)
			if (resps[i].k == s->k && (resps[i].isdef || !resps[i].used)) {
				p = &resps[i];
				p->used = true;
				idx = i;
			}
	if (!p) {
		logf_("Q -1 -1 nostore 0 %s\n", c->url);
		c->status = 404;
		return CURLE_OK;
	}
	int code = p->code, status = p->status;
	const char *tag = p->tag;
	char *body = NULL;
	size_t blen = 0;
	if (!strcmp(p->body, "@ok")) {
		const char *base = strrchr(c->url, '/');
		char path[2048];
		snprintf(path, sizeof(path), "%s%s", s->dir, base);
		body = load(path, &blen);
		if (!body) {
			status = 404;
			tag = "miss";
			code = 0;
		}
	} else if (p->body[0] != '-') {
		body = load(p->body, &blen);
		if (!body)
			_exit(97);
	}
	bool broken = p->stall >= 0 && (size_t)p->stall <= blen && code;
	if (broken)
		blen = p->stall;
	if (s->rate && !broken && !c->nobody) {
		/* the server is slow but steady: how long does the transfer take? */
		double ms = 1000.0 * blen / s->rate;
		size_t upto = blen;
		if (c->timeout > 0 && ms > c->timeout)
			upto = (double)s->rate * c->timeout / 1000;
		if (c->lowt > 0 && c->lowl > s->rate && ms > 1000.0 * c->lowt && s->rate * c->lowt < (long)upto)
			upto = s->rate * c->lowt;
		if (upto < blen) {
			blen = upto;
			code = CURLE_OPERATION_TIMEDOUT;
			logf_("# too slow for the client\n");
		}
	}
	if (p->redir && !c->follow) {
		status = 302;
		blen = 0;
		tag = "noredir";
		code = 0;
	}
	logf_("Q %d %d %s %d %s\n", s->k, idx, tag, status, c->url);

	if (code && p->code && p->stall < 0) {
		/* failed before any response */
		c->status = 0;
		if (c->eb)
			snprintf(c->eb, CURL_ERROR_SIZE, "scripted error %d", code);
		free(body);
		do_at("reqend", nreq);
		return code;
	}
	c->status = status;
	if (c->failonerr && status >= 400) {
		free(body);
		return CURLE_HTTP_RETURNED_ERROR;
	}
	size_t pos = 0;
	long piece = 0;
	char *pp = p->pieces;
	CURLcode ret = CURLE_OK;
	while (pos < blen && !c->nobody) {
		if (*pp) {
			piece = strtol(pp, &pp, 10);
			if (*pp == ',')
				pp++;
		}
		size_t n = piece > 0 ? (size_t)piece : CURL_MAX_WRITE_SIZE;
		if (n > blen - pos)
			n = blen - pos;
		/* exact size heap copy, so that overreads can be noticed */
		char *cp = malloc(n);
		memcpy(cp, body + pos, n);
		size_t w = c->wf ? c->wf(cp, 1, n, c->wd) : n;
		free(cp);
		if (w != n) {
			ret = CURLE_WRITE_ERROR;
			if (c->eb)
				snprintf(c->eb, CURL_ERROR_SIZE, "Failure writing output to destination");
			break;
		}
		pos += n;
	}
	free(body);
	if (ret == CURLE_OK && code) {
		if (code == CURLE_OPERATION_TIMEDOUT && !((c->lowt > 0 && c->lowl > 0) || c->timeout > 0)) {
			/* nobody would ever notice that the transfer has stalled */
			logf_("HANG\n");
			_exit(96);
		}
		ret = code;
		if (c->eb)
			snprintf(c->eb, CURL_ERROR_SIZE, "scripted error %d", code);
	}
	logf_("QE %d %zu\n", (int)ret, pos);
	do_at("reqend", nreq);
	return ret;
}
#endif

/* ---------------------------------------------------------------- AF_ALG */

/* for harnesses: a line for the recording */
void shim_note(const char *s) { logf_("%s\n", s); }

#include "refsha.h"
static struct refsha alg_ctx;
static bool alg_more;
static long nalg;
static bool alg_isalg_sock[MAXFD];

int socket(int d, int t, int p)
{
	if (!active || d != AF_ALG)
		return syscall(SYS_socket, d, t, p);
	logf_("ALG socket\n");
	if ((t & ~(SOCK_CLOEXEC | SOCK_NONBLOCK)) != SOCK_SEQPACKET || p != 0) {
		errno = p != 0 ? EPROTONOSUPPORT : ESOCKTNOSUPPORT;
		return -1;
	}
	if (alg_sockerr) {
		errno = alg_sockerr;
		return -1;
	}
	int fd = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0);
	if (fd >= 0 && fd < MAXFD)
		alg_isalg_sock[fd] = true;
	return fd;
}

int bind(int fd, const struct sockaddr *a, socklen_t l)
{
	if (!active || fd < 0 || fd >= MAXFD || !alg_isalg_sock[fd])
		return syscall(SYS_bind, fd, a, l);
	const struct sockaddr_alg *sa = (const void*)a;
	logf_("ALG bind %s %s\n", sa->salg_type, sa->salg_name);
	if (alg_binderr || strcmp((char*)sa->salg_type, "hash") ||
	    strncmp((char*)sa->salg_name, "sha256", 6)) {
		errno = alg_binderr ? alg_binderr : ENOENT;
		return -1;
	}
	return 0;
}

static int alg_accept(int fd)
{
	logf_("ALG accept\n");
	if (alg_accepterr) {
		errno = alg_accepterr;
		return -1;
	}
	int r = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0);
	if (r >= 0 && r < MAXFD)
		fdalg[r] = true;
	refsha_init(&alg_ctx);
	alg_more = false;
	return r;
}
int accept(int fd, struct sockaddr *a, socklen_t *l)
{
	if (active && fd >= 0 && fd < MAXFD && alg_isalg_sock[fd])
		return alg_accept(fd);
	return syscall(SYS_accept, fd, a, l);
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int f)
{
	if (active && fd >= 0 && fd < MAXFD && alg_isalg_sock[fd])
		return alg_accept(fd);
	return syscall(SYS_accept4, fd, a, l, f);
}

static struct algrule *alg_rule(char op)
{
	nalg++;
	for (int i = 0; i < nalgr; i++)
		if (algr[i].n == nalg && (algr[i].op == op || algr[i].op == '*'))
			return &algr[i];
	return NULL;
}

static uint8_t alg_result[32];
static bool alg_have_result;

static ssize_t alg_write(int fd, const void *b, size_t n, int flags)
{
	struct algrule *r = alg_rule('s');
	if (r && r->act != A_SHORT) {
		logf_("ALG %s\n", r->act == A_EINTR ? "intr" : "fail");
		errno = r->act == A_EINTR ? EINTR : r->k;
		return -1;
	}
	if (r && n > (size_t)r->k) {
		n = r->k;
		flags |= MSG_MORE;	/* the kernel keeps the operation open */
	}
	if (!alg_more) {
		refsha_init(&alg_ctx);
		alg_have_result = false;
	}
	refsha_update(&alg_ctx, b, n);
	alg_more = flags & MSG_MORE;
	if (!alg_more) {
		refsha_final(&alg_ctx, alg_result);
		alg_have_result = true;
	}
	uint32_t crc = 0xffffffff;
	for (size_t i = 0; i < n; i++) {
		crc ^= ((const uint8_t*)b)[i];
		for (int k = 0; k < 8; k++)
			crc = crc >> 1 ^ (crc & 1 ? 0xedb88320 : 0);
	}
	logf_("ALG send %zu %d %u\n", n, alg_more, ~crc);
	return n;
}

static ssize_t alg_read(int fd, void *b, size_t n)
{
	struct algrule *r = alg_rule('r');
	if (r && r->act != A_SHORT) {
		logf_("ALG %s\n", r->act == A_EINTR ? "intr" : "fail");
		errno = r->act == A_EINTR ? EINTR : r->k;
		return -1;
	}
	if (!alg_have_result) {
		if (!alg_more)
			refsha_init(&alg_ctx);
		refsha_final(&alg_ctx, alg_result);
	}
	alg_more = alg_have_result = false;
	if (n > 32)
		n = 32;
	if (r && n > (size_t)r->k)
		n = r->k;
	memcpy(b, alg_result, n);
	logf_("ALG recv %zu\n", n);
	return n;
}

ssize_t send(int fd, const void *b, size_t n, int fl)
{
	if (ISALG(fd))
		return alg_write(fd, b, n, fl);
	return syscall(SYS_sendto, fd, b, n, fl, NULL, 0);
}
ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l)
{
	if (ISALG(fd))
		return alg_write(fd, b, n, fl);
	return syscall(SYS_sendto, fd, b, n, fl, a, l);
}
ssize_t recv(int fd, void *b, size_t n, int fl)
{
	if (ISALG(fd))
		return alg_read(fd, b, n);
	return syscall(SYS_recvfrom, fd, b, n, fl, NULL, NULL);
}
ssize_t __recv_chk(int fd, void *b, size_t n, size_t x, int fl) { return recv(fd, b, n, fl); }
ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l)
{
	if (ISALG(fd))
		return alg_read(fd, b, n);
	return syscall(SYS_recvfrom, fd, b, n, fl, a, l);
}

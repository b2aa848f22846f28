/*
 * The simulated operating system of one reqtrace process.
 *
 * Preloaded into the real, unmodified binary. It owns every libc call through which the
 * program meets files, directories, standard streams, clocks, sleeps and randomness. Every
 * such call that concerns the simulated world (files below `root`, stdout, stderr) is a
 * numbered step; the plan (text in shared memory, written by the driver) decides what
 * happens at it. Everything is a pure function of the plan and the program.
 *
 * It is also a fork server: __libc_start_main is held back, and for each command read from
 * the control pipe a child is forked that goes through the real start-up with the argv and
 * environment of the plan.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define PLAN_SIZE (4u << 20)
#define LOG_SIZE (96u << 20)
#define TURN_SIZE 4096u
#define MAXRUN 8
#define MAXFD 1024
#define MAXFAULT 256
#define MAXEDIT 256
#define MAXPATHS 2048
#define PATHLEN 1024
#define MAXARG 256

enum kind { K_OPEN, K_CREATE, K_READ, K_WRITE, K_OPENDIR, K_READDIR, K_STAT, K_FSTAT, K_MKDIR,
	K_CLOSE, K_RENAME, K_UNLINK, K_TRUNC, K_SEEK, K_SYNC, K_OTHER, NKIND };
static const char *kind_name[NKIND] = { "open", "create", "read", "write", "opendir", "readdir",
	"stat", "fstat", "mkdir", "close", "rename", "unlink", "trunc", "seek", "sync", "other" };

struct fault {
	int kind; unsigned nth; char action; long arg; int persist; char path[PATHLEN];
	int fired; /* for persistent faults */
};
struct edit { int kind; unsigned nth; char op; char path[PATHLEN]; char dst[PATHLEN]; char src[PATHLEN]; int done; };
struct pathrec { char path[PATHLEN]; unsigned cnt[NKIND]; };

static struct {
	char root[PATHLEN], cwd[PATHLEN], out[PATHLEN], err[PATHLEN];
	uint64_t seed;
	unsigned shortr_pm, shortr_max, shortw_pm, shortw_max, eintr_pm;
	int dirshuf, clockmode, mtime;
	unsigned maxsteps;
	int nfault, nedit, argc, nenv;
	struct fault fault[MAXFAULT];
	struct edit edit[MAXEDIT];
	char *argv[2 * MAXARG + 4];
	char *envv[MAXARG];
} P;

static volatile int active;
static unsigned steps;
static char fdpath[MAXFD][PATHLEN];
static struct pathrec paths[MAXPATHS];
static int npaths;
static char *shm;
static char *logp;
static uint32_t *log_len;
static uint32_t *log_steps;
static uint64_t *log_simtime;
static int64_t sim_ns = 1700000000LL * 1000000000LL;
static int64_t sim_mono = 5000000000LL;
static uint64_t rnd_state;

/* ---------- raw system calls ---------- */
static long raw(long n, long a, long b, long c, long d, long e, long f)
{
	long ret;
	register long r10 __asm__("r10") = d;
	register long r8 __asm__("r8") = e;
	register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
			 : "rcx", "r11", "memory");
	return ret;
}
#define RAW(n, a, b, c, d, e, f) raw((n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static long ret_errno(long r)
{
	if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
	return r;
}

/* ---------- seeded choices ---------- */
static uint64_t mix(uint64_t x)
{
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}
static uint64_t hash_str(const char *s)
{
	uint64_t h = 1469598103934665603ull;
	for (; *s; s++) { h ^= (unsigned char)*s; h *= 1099511628211ull; }
	return h;
}
/* a choice for the nth call of a kind on a path: independent of everything else that happens */
static uint64_t choice(int kind, const char *path, unsigned nth, unsigned salt)
{
	return mix(P.seed ^ mix(hash_str(path) ^ mix(((uint64_t)kind << 40) ^ ((uint64_t)salt << 32) ^ nth)));
}

/* ---------- log ---------- */
static void logf_(const char *fmt, ...)
{
	char buf[PATHLEN * 2];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (n < 0) return;
	if (n >= (int)sizeof buf) n = sizeof buf - 1;
	if (*log_len + (uint32_t)n < LOG_SIZE - 256) {
		memcpy(logp + *log_len, buf, (size_t)n);
		*log_len += (uint32_t)n;
	}
}
static void die(int code)
{
	RAW(SYS_exit_group, code, 0, 0, 0, 0, 0);
	__builtin_unreachable();
}

/* ---------- threads: one runs at a time, the seed decides which ---------- */
#define MAXT 256
enum tstate { T_FREE, T_READY, T_FUTEX, T_JOIN, T_SLEEP, T_DONE };
static struct thr {
	int state, timedout, target;
	uint32_t go;
	const uint32_t *addr;
	uint32_t bits;
	int64_t deadline; /* monotonic, -1 never */
	pthread_t handle;
	void *(*fn)(void *);
	void *arg;
} T[MAXT] = { [0] = { .state = T_READY, .deadline = -1 } };
static int nthr = 1;
static __thread int me;
static pthread_key_t end_key;
static int end_key_made;
static uint64_t sched_state;

static void hand_over(int to, int wait)
{
	if (to == me) return;
	int self = me;
	logf_("%u\tswitch\tthread %d\t0\t0\t0\t-\n", steps, to);
	__atomic_store_n(&T[to].go, 1, __ATOMIC_SEQ_CST);
	RAW(SYS_futex, &T[to].go, FUTEX_WAKE, INT_MAX, 0, 0, 0);
	if (!wait) return;
	while (!__atomic_load_n(&T[self].go, __ATOMIC_SEQ_CST)) RAW(SYS_futex, &T[self].go, FUTEX_WAIT, 0, 0, 0, 0);
	__atomic_store_n(&T[self].go, 0, __ATOMIC_SEQ_CST);
}
/* who runs next; the present thread has set its state */
static int next_thread(void)
{
	for (;;) {
		int ready[MAXT], n = 0, first = -1;
		for (int i = 0; i < nthr; i++) {
			if (T[i].state == T_READY) ready[n++] = i;
			else if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline >= 0
				 && (first < 0 || T[i].deadline < T[first].deadline)) first = i;
		}
		if (n) {
			sched_state = mix(sched_state + 5);
			/* three schedulers: any thread, mostly the same one, the same one until it blocks */
			unsigned stay = P.seed % 3 == 0 ? 0 : P.seed % 3 == 1 ? 7 : 8;
			if (T[me].state == T_READY && (sched_state >> 50) % 8 < stay) return me;
			return ready[(sched_state >> 20) % (unsigned)n];
		}
		if (first < 0) {
			logf_("%u\tLIMIT\tdeadlock\t0\t0\t0\tL\n", steps);
			die(99);
		}
		if (T[first].deadline > sim_mono) { sim_ns += T[first].deadline - sim_mono; sim_mono = T[first].deadline; }
		T[first].timedout = 1;
		T[first].state = T_READY;
	}
}
static void reschedule(void) { hand_over(next_thread(), 1); }
static void preempt(void) { if (nthr > 1) reschedule(); }
static long futex_wait(const uint32_t *addr, uint32_t val, uint32_t bits, int64_t deadline)
{
	preempt();
	if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
	struct thr *t = &T[me];
	t->addr = addr;
	t->bits = bits;
	t->deadline = deadline;
	t->timedout = 0;
	t->state = T_FUTEX;
	reschedule();
	t->addr = NULL;
	t->deadline = -1;
	if (t->timedout) { errno = ETIMEDOUT; return -1; }
	return 0;
}
static long futex_wake(const uint32_t *addr, uint32_t max, uint32_t bits)
{
	long n = 0;
	while ((uint32_t)n < max) {
		int w[MAXT], k = 0;
		for (int i = 0; i < nthr; i++) if (T[i].state == T_FUTEX && T[i].addr == addr && (T[i].bits & bits)) w[k++] = i;
		if (!k) break;
		sched_state = mix(sched_state + 7);
		T[w[(sched_state >> 20) % (unsigned)k]].state = T_READY;
		n++;
	}
	preempt();
	return n;
}
static void wait_until(int64_t mono)
{
	struct thr *t = &T[me];
	t->deadline = mono;
	t->state = T_SLEEP;
	reschedule();
	t->deadline = -1;
	t->state = T_READY;
}
static void thread_over(void *p)
{
	struct thr *t = p;
	int i = (int)(t - T);
	t->state = T_DONE;
	for (int j = 0; j < nthr; j++) if (T[j].state == T_JOIN && T[j].target == i) T[j].state = T_READY;
	hand_over(next_thread(), 0);
}
static void *thread_begin(void *p)
{
	struct thr *t = p;
	me = (int)(t - T);
	while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) RAW(SYS_futex, &t->go, FUTEX_WAIT, 0, 0, 0, 0);
	__atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST);
	pthread_setspecific(end_key, t);
	return t->fn(t->arg);
}
int pthread_create(pthread_t *h, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	int (*pc)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = dlsym(RTLD_NEXT, "pthread_create");
	if (!active) return pc(h, a, fn, arg);
	if (!end_key_made) { end_key_made = 1; pthread_key_create(&end_key, thread_over); }
	int i = 1;
	while (i < nthr && T[i].state != T_FREE) i++;
	if (i == MAXT) return EAGAIN;
	T[i] = (struct thr){ .state = T_READY, .deadline = -1, .fn = fn, .arg = arg };
	int r = pc(h, a, thread_begin, &T[i]);
	if (r) { T[i].state = T_FREE; return r; }
	T[i].handle = *h;
	if (i == nthr) nthr++;
	logf_("%u\tthread\tthread %d\t0\t0\t0\t-\n", steps, i);
	preempt();
	return 0;
}
int pthread_join(pthread_t h, void **ret)
{
	int (*pj)(pthread_t, void **) = dlsym(RTLD_NEXT, "pthread_join");
	if (active) {
		for (int i = 1; i < nthr; i++) {
			if (T[i].state == T_FREE || !pthread_equal(T[i].handle, h)) continue;
			preempt();
			if (T[i].state != T_DONE) {
				T[me].state = T_JOIN;
				T[me].target = i;
				reschedule();
			}
			int r = pj(h, ret);
			T[i].state = T_FREE;
			return r;
		}
	}
	return pj(h, ret);
}
int sched_yield(void) { if (active) preempt(); return 0; }
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set)
{
	(void)pid;
	memset(set, 0, n);
	for (int i = 0; i < 4; i++) CPU_SET_S(i, n, set);
	return 0;
}

/* ---------- several runs at once: one makes steps at a time, the seed decides which ---------- */
struct turns { uint32_t who, n, step, stay, from, to; uint64_t state; uint32_t done[MAXRUN]; };
static struct turns *turns;
static uint32_t run_idx; /* 0 alone, otherwise number of the run plus one */
static int turn_pick(int not_me)
{
	int c[MAXRUN], k = 0;
	for (uint32_t i = 0; i < turns->n && i < MAXRUN; i++) if (!turns->done[i] && !(not_me && i + 1 == run_idx)) c[k++] = (int)i;
	if (!k) return -1;
	turns->state = mix(turns->state + 11);
	return c[(turns->state >> 20) % (unsigned)k];
}
static void turn_give(uint32_t to)
{
	__atomic_store_n(&turns->who, to, __ATOMIC_SEQ_CST);
	RAW(SYS_futex, &turns->who, FUTEX_WAKE, INT_MAX, 0, 0, 0);
}
static void turn_wait(void)
{
	uint32_t w;
	while ((w = __atomic_load_n(&turns->who, __ATOMIC_SEQ_CST)) != run_idx - 1) RAW(SYS_futex, &turns->who, FUTEX_WAIT, w, 0, 0, 0);
}
/* may another run go on? `must`: this one waits for something the others do */
static void turn_point(int must, int kind)
{
	if (!run_idx) return;
	uint32_t at = ++turns->step;
	turns->state = mix(turns->state + 13);
	if (!must) {
		if (at < turns->from || at >= turns->to) return;
		uint32_t stay = turns->stay;
		if (stay >= 2000) { /* only where somebody changes the disk */
			if (kind != K_CREATE && kind != K_WRITE && kind != K_MKDIR && kind != K_RENAME && kind != K_UNLINK && kind != K_TRUNC) return;
			stay -= 2000;
		}
		if ((turns->state >> 40) % 1000 < stay) return;
	}
	int to = turn_pick(must);
	if (to < 0 || (uint32_t)to + 1 == run_idx) return;
	logf_("%u\tturn\trun %d\t%u\t0\t0\t-\n", steps, to + 1, at);
	turn_give((uint32_t)to);
	turn_wait();
}

/* ---------- paths ---------- */
static void absolute(const char *p, char *out)
{
	char tmp[PATHLEN * 2];
	if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
	else snprintf(tmp, sizeof tmp, "%s/%s", P.cwd, p);
	/* normalise . .. // */
	char *o = out;
	char *s = tmp;
	*o = 0;
	while (*s) {
		while (*s == '/') s++;
		if (!*s) break;
		char *e = s;
		while (*e && *e != '/') e++;
		size_t l = (size_t)(e - s);
		if (l == 1 && s[0] == '.') { }
		else if (l == 2 && s[0] == '.' && s[1] == '.') {
			while (o > out && *--o != '/') { }
			*o = 0;
		} else if ((size_t)(o - out) + l + 2 < PATHLEN) {
			*o++ = '/';
			memcpy(o, s, l);
			o += l;
			*o = 0;
		}
		s = e;
	}
	if (o == out) { out[0] = '/'; out[1] = 0; }
}
static int in_root(const char *abs)
{
	size_t n = strlen(P.root);
	return strncmp(abs, P.root, n) == 0 && (abs[n] == 0 || abs[n] == '/');
}
static const char *rel(const char *abs)
{
	size_t n = strlen(P.root);
	if (in_root(abs)) return abs[n] ? abs + n + 1 : ".";
	return abs;
}
static struct pathrec *rec(const char *path)
{
	for (int i = 0; i < npaths; i++) if (!strcmp(paths[i].path, path)) return &paths[i];
	if (npaths == MAXPATHS) return &paths[MAXPATHS - 1];
	snprintf(paths[npaths].path, PATHLEN, "%s", path);
	return &paths[npaths++];
}

/* ---------- the editor: another party working on the same disk ---------- */
static void do_edit(struct edit *e)
{
	char d[PATHLEN * 2], s[PATHLEN * 2];
	snprintf(d, sizeof d, "%s/%s", P.root, e->dst);
	snprintf(s, sizeof s, "%s/%s", P.root, e->src);
	e->done = 1;
	if (e->op == 'r') {
		RAW(SYS_rename, s, d, 0, 0, 0, 0);
	} else if (e->op == 'u') {
		RAW(SYS_unlink, d, 0, 0, 0, 0, 0);
	} else if (e->op == 'i') { /* rewrite in place */
		long in = RAW(SYS_open, s, O_RDONLY, 0, 0, 0, 0);
		long o = RAW(SYS_open, d, O_WRONLY | O_CREAT | O_TRUNC, 0666, 0, 0, 0);
		char buf[4096];
		long n;
		while (in >= 0 && o >= 0 && (n = RAW(SYS_read, in, buf, sizeof buf, 0, 0, 0)) > 0)
			RAW(SYS_write, o, buf, n, 0, 0, 0);
		if (in >= 0) RAW(SYS_close, in, 0, 0, 0, 0, 0);
		if (o >= 0) RAW(SYS_close, o, 0, 0, 0, 0, 0);
	}
	logf_("%u\tedit\t%s\t0\t%d\t0\tt\n", steps, e->dst, (int)e->op);
}

#define MAXSMALL 30000
/* ---------- one step ---------- */
struct verdict { char action; long arg; unsigned nth; };
/* action: 0 proceed, 'e' fail with errno arg, 'z' return 0, 's' shorten to arg bytes,
 * 'k' kill (after transferring arg bytes of a write) */
static struct verdict step(int kind, const char *path)
{
	struct verdict v = { 0, 0, 0 };
	preempt();
	turn_point(0, kind);
	struct pathrec *r = rec(path);
	v.nth = ++r->cnt[kind];
	steps++;
	*log_steps = steps;
	*log_simtime = (uint64_t)(sim_mono - 5000000000LL);
	if (P.maxsteps && steps > P.maxsteps) { logf_("%u\tLIMIT\t%s\t0\t0\t0\tL\n", steps, path); die(99); }
	for (int i = 0; i < P.nedit; i++) {
		struct edit *e = &P.edit[i];
		if (!e->done && e->kind == kind && e->nth == v.nth && !strcmp(e->path, path)) do_edit(e);
	}
	for (int i = 0; i < P.nfault; i++) {
		struct fault *f = &P.fault[i];
		if (f->kind != kind || strcmp(f->path, path)) continue;
		if (f->nth == v.nth || (f->persist && f->fired)) {
			f->fired = 1;
			v.action = f->action;
			v.arg = f->arg;
			if (f->persist && v.nth != f->nth && v.action == 's') v.action = 0;
			return v;
		}
	}
	if (steps > MAXSMALL) return v; /* enough small pieces for one run */
	if (kind == K_READ || kind == K_WRITE) {
		unsigned pm = kind == K_READ ? P.shortr_pm : P.shortw_pm;
		unsigned mx = kind == K_READ ? P.shortr_max : P.shortw_max;
		if (P.eintr_pm && choice(kind, path, v.nth, 1) % 1000 < P.eintr_pm) { v.action = 'i'; v.arg = EINTR; return v; }
		if (pm && choice(kind, path, v.nth, 2) % 1000 < pm) {
			v.action = 'h';
			v.arg = 1 + (long)(choice(kind, path, v.nth, 3) % (mx ? mx : 1));
		}
	} else if (kind == K_OPEN || kind == K_CREATE) {
		if (P.eintr_pm && choice(kind, path, v.nth, 1) % 1000 < P.eintr_pm) { v.action = 'i'; v.arg = EINTR; }
	}
	return v;
}
static void done(int kind, const char *path, struct verdict v, long ret, int err)
{
	if (!strcmp(path, "<stderr>") && !v.action) return;
	logf_("%u\t%s\t%s\t%u\t%ld\t%d\t%c\n", steps, kind_name[kind], path, v.nth, ret, err, v.action ? v.action : '-');
}
static void do_kill(int kind, const char *path, struct verdict v)
{
	done(kind, path, v, 0, 0);
	die(137);
}

/* simple operations without data: returns 1 if the verdict replaces the call (then *ret is set) */
static int simple(int kind, const char *path, struct verdict *v, long *ret)
{
	*v = step(kind, path);
	if (v->action == 'k') do_kill(kind, path, *v);
	if (v->action == 'e' || v->action == 'i') {
		done(kind, path, *v, -1, (int)v->arg);
		errno = (int)v->arg;
		*ret = -1;
		return 1;
	}
	return 0;
}
static int deny_outside(const char *what, const char *abs)
{
	/* nothing outside the simulated disk may be changed */
	logf_("%u\tESCAPE\t%s\t0\t0\t0\tX\n", steps, abs);
	(void)what;
	errno = EACCES;
	return -1;
}

/* ---------- open / close ---------- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
	if (!active) return (int)ret_errno(RAW(SYS_openat, dirfd, path, flags, mode, 0, 0));
	char abs[PATHLEN], tmp[PATHLEN * 2];
	if (dirfd != AT_FDCWD && path[0] != '/' && dirfd >= 0 && dirfd < MAXFD && fdpath[dirfd][0] && fdpath[dirfd][0] != '<') {
		snprintf(tmp, sizeof tmp, "%s/%s/%s", P.root, fdpath[dirfd], path);
		absolute(tmp, abs);
	} else absolute(path, abs);
	int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
	if (!in_root(abs)) {
		if (wr && strcmp(abs, "/dev/null")) return deny_outside("open", abs);
		if (!strncmp(abs, "/proc/", 6) || !strncmp(abs, "/sys/", 5)) { errno = ENOENT; return -1; } /* the machine */
		return (int)ret_errno(RAW(SYS_openat, dirfd, path, flags, mode, 0, 0));
	}
	const char *rp = rel(abs);
	int kind = wr ? K_CREATE : K_OPEN;
	struct verdict v;
	long ret;
	if (simple(kind, rp, &v, &ret)) return (int)ret;
	long r = RAW(SYS_openat, dirfd, path, flags, mode, 0, 0);
	done(kind, rp, v, r < 0 ? -1 : 0, r < 0 ? (int)-r : 0);
	if (r >= 0 && r < MAXFD) snprintf(fdpath[r], PATHLEN, "%s", rp);
	return (int)ret_errno(r);
}
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd)
{
	if (active && fd >= 0 && fd < MAXFD && fdpath[fd][0]) {
		struct verdict v = step(K_CLOSE, fdpath[fd]);
		if (v.action == 'k') do_kill(K_CLOSE, fdpath[fd], v);
		done(K_CLOSE, fdpath[fd], v, 0, 0);
		fdpath[fd][0] = 0;
	}
	return (int)ret_errno(RAW(SYS_close, fd, 0, 0, 0, 0, 0));
}
static void copyfd(int from, int to)
{
	if (active && from >= 0 && from < MAXFD && to >= 0 && to < MAXFD) memcpy(fdpath[to], fdpath[from], PATHLEN);
}
int dup(int fd) { int r = (int)ret_errno(RAW(SYS_dup, fd, 0, 0, 0, 0, 0)); copyfd(fd, r); return r; }
int dup2(int fd, int to) { int r = (int)ret_errno(RAW(SYS_dup2, fd, to, 0, 0, 0, 0)); copyfd(fd, r); return r; }
int dup3(int fd, int to, int fl) { int r = (int)ret_errno(RAW(SYS_dup3, fd, to, fl, 0, 0, 0)); copyfd(fd, r); return r; }
static const char *simfd(int fd);
static struct verdict step(int kind, const char *path);
/* whoever waits for a lock lets the others go on */
static int wait_lock(int fd, long nr, long op, long arg)
{
	for (;;) {
		step(K_OTHER, simfd(fd) ? fdpath[fd] : "<lock>");
		long r = RAW(nr, fd, op, arg, 0, 0, 0);
		if (r != -EAGAIN && r != -EACCES) return (int)ret_errno(r);
		preempt();
		turn_point(1, K_OTHER);
	}
}
int flock(int fd, int op)
{
	if (active && !(op & LOCK_NB) && (op & (LOCK_SH | LOCK_EX))) return wait_lock(fd, SYS_flock, op | LOCK_NB, 0);
	return (int)ret_errno(RAW(SYS_flock, fd, op, 0, 0, 0, 0));
}
static int do_fcntl(int fd, int cmd, long arg)
{
	if (active && cmd == F_SETLKW) return wait_lock(fd, SYS_fcntl, F_SETLK, arg);
	if (active && cmd == F_OFD_SETLKW) return wait_lock(fd, SYS_fcntl, F_OFD_SETLK, arg);
	int r = (int)ret_errno(RAW(SYS_fcntl, fd, cmd, arg, 0, 0, 0));
	if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) copyfd(fd, r);
	return r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }

/* ---------- data ---------- */
static const char *simfd(int fd)
{
	if (!active || fd < 0 || fd >= MAXFD || !fdpath[fd][0]) return NULL;
	return fdpath[fd];
}
/* one read or write of `total` bytes; `io` performs it for the first n bytes */
static ssize_t transfer(int kind, int fd, size_t total, long (*io)(void *, size_t), void *ctx)
{
	const char *path = fdpath[fd];
	struct verdict v = step(kind, path);
	size_t n = total;
	switch (v.action) {
	case 'e': case 'i':
		done(kind, path, v, -1, (int)v.arg);
		errno = (int)v.arg;
		return -1;
	case 'z':
		done(kind, path, v, 0, 0);
		return 0;
	case 'k':
		if (kind == K_WRITE && v.arg > 0) io(ctx, (size_t)v.arg < total ? (size_t)v.arg : total);
		do_kill(kind, path, v);
		break;
	case 's': case 'h':
		if ((size_t)v.arg < n) n = (size_t)v.arg;
		else v.action = 0;
		break;
	}
	long r = io(ctx, n);
	done(kind, path, v, r < 0 ? -1 : r, r < 0 ? (int)-r : 0);
	return (ssize_t)ret_errno(r);
}
struct rw { int fd; const void *buf; off64_t off; int pos; int wr; };
static long io_rw(void *c, size_t n)
{
	struct rw *x = c;
	if (x->pos) return RAW(x->wr ? SYS_pwrite64 : SYS_pread64, x->fd, x->buf, n, x->off, 0, 0);
	return RAW(x->wr ? SYS_write : SYS_read, x->fd, x->buf, n, 0, 0, 0);
}
ssize_t read(int fd, void *buf, size_t n)
{
	if (!simfd(fd)) return (ssize_t)ret_errno(RAW(SYS_read, fd, buf, n, 0, 0, 0));
	struct rw x = { fd, buf, 0, 0, 0 };
	return transfer(K_READ, fd, n, io_rw, &x);
}
ssize_t write(int fd, const void *buf, size_t n)
{
	if (!simfd(fd)) return (ssize_t)ret_errno(RAW(SYS_write, fd, buf, n, 0, 0, 0));
	struct rw x = { fd, buf, 0, 0, 1 };
	return transfer(K_WRITE, fd, n, io_rw, &x);
}
static ssize_t do_pread(int fd, void *buf, size_t n, off64_t off)
{
	if (!simfd(fd)) return (ssize_t)ret_errno(RAW(SYS_pread64, fd, buf, n, off, 0, 0));
	struct rw x = { fd, buf, off, 1, 0 };
	return transfer(K_READ, fd, n, io_rw, &x);
}
static ssize_t do_pwrite(int fd, const void *buf, size_t n, off64_t off)
{
	if (!simfd(fd)) return (ssize_t)ret_errno(RAW(SYS_pwrite64, fd, buf, n, off, 0, 0));
	struct rw x = { fd, buf, off, 1, 1 };
	return transfer(K_WRITE, fd, n, io_rw, &x);
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return do_pread(fd, buf, n, off); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) { return do_pread(fd, buf, n, off); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return do_pwrite(fd, buf, n, off); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) { return do_pwrite(fd, buf, n, off); }

struct vec { int fd; const struct iovec *v; int cnt; int wr; };
static long io_vec(void *c, size_t n)
{
	struct vec *x = c;
	struct iovec loc[64];
	int k = 0;
	size_t left = n;
	for (int i = 0; i < x->cnt && k < 64; i++) {
		loc[k] = x->v[i];
		if (loc[k].iov_len > left) loc[k].iov_len = left;
		left -= loc[k].iov_len;
		k++;
		if (!left) break;
	}
	return RAW(x->wr ? SYS_writev : SYS_readv, x->fd, loc, k, 0, 0, 0);
}
static size_t vlen(const struct iovec *v, int c) { size_t n = 0; for (int i = 0; i < c && i < 64; i++) n += v[i].iov_len; return n; }
ssize_t readv(int fd, const struct iovec *v, int c)
{
	if (!simfd(fd)) return (ssize_t)ret_errno(RAW(SYS_readv, fd, v, c, 0, 0, 0));
	struct vec x = { fd, v, c, 0 };
	return transfer(K_READ, fd, vlen(v, c), io_vec, &x);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
	if (!simfd(fd)) return (ssize_t)ret_errno(RAW(SYS_writev, fd, v, c, 0, 0, 0));
	struct vec x = { fd, v, c, 1 };
	return transfer(K_WRITE, fd, vlen(v, c), io_vec, &x);
}
/* in-kernel copies are not offered: callers fall back to read and write, which are steps */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f)
{
	if (!active) return (ssize_t)ret_errno(RAW(SYS_copy_file_range, a, b, c, d, n, f));
	errno = ENOSYS;
	return -1;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n)
{
	if (!active) return (ssize_t)ret_errno(RAW(SYS_sendfile, o, i, off, n, 0, 0));
	errno = ENOSYS;
	return -1;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, (off64_t *)off, n); }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f)
{
	if (!active) return (ssize_t)ret_errno(RAW(SYS_splice, a, b, c, d, n, f));
	errno = EINVAL;
	return -1;
}

/* ---------- stat ---------- */
static int path_step(int kind, const char *path, struct verdict *v, long *ret, char *rp)
{
	char abs[PATHLEN];
	rp[0] = 0;
	if (!active || !path) return 0;
	absolute(path, abs);
	if (!in_root(abs)) return 0;
	snprintf(rp, PATHLEN, "%s", rel(abs));
	return simple(kind, rp, v, ret);
}
/* file times and inode numbers are what the plan says: any, but the same for a path within a run */
static uint64_t filetime(const char *rp, uint64_t salt)
{
	return mix(P.seed ^ mix(hash_str(rp) + salt));
}
static void fake_stat(const char *rp, struct stat *st)
{
	if (!P.mtime || !rp[0] || rp[0] == '<') return;
	st->st_mtim.tv_sec = 1500000000 + (long)(filetime(rp, 1) % 300000000);
	st->st_mtim.tv_nsec = (long)(filetime(rp, 2) % 1000000000);
	st->st_ctim = st->st_atim = st->st_mtim;
	st->st_ino = filetime(rp, 3) | 1;
}
static void fake_statx(const char *rp, struct statx *st)
{
	if (!P.mtime || !rp[0] || rp[0] == '<') return;
	st->stx_mtime.tv_sec = 1500000000 + (long)(filetime(rp, 1) % 300000000);
	st->stx_mtime.tv_nsec = (unsigned)(filetime(rp, 2) % 1000000000);
	st->stx_ctime = st->stx_atime = st->stx_btime = st->stx_mtime;
	st->stx_ino = filetime(rp, 3) | 1;
}
static long finish(int kind, const char *rp, struct verdict v, long r)
{
	if (rp[0]) done(kind, rp, v, r < 0 ? -1 : 0, r < 0 ? (int)-r : 0);
	return ret_errno(r);
}
#define STATLIKE(NAME, T, NR_CALL) \
	int NAME(const char *path, T *st) { struct verdict v; long ret; char rp[PATHLEN]; \
		if (path_step(K_STAT, path, &v, &ret, rp)) return (int)ret; \
		long r = NR_CALL; \
		if (r >= 0) fake_stat(rp, (struct stat *)st); \
		return (int)finish(K_STAT, rp, v, r); }
STATLIKE(stat, struct stat, RAW(SYS_stat, path, st, 0, 0, 0, 0))
STATLIKE(stat64, struct stat64, RAW(SYS_stat, path, st, 0, 0, 0, 0))
STATLIKE(lstat, struct stat, RAW(SYS_lstat, path, st, 0, 0, 0, 0))
STATLIKE(lstat64, struct stat64, RAW(SYS_lstat, path, st, 0, 0, 0, 0))
static int do_fstatat(int d, const char *path, void *st, int fl)
{
	struct verdict v; long ret; char rp[PATHLEN];
	rp[0] = 0;
	if (path && path[0] && (d == AT_FDCWD || path[0] == '/') && path_step(K_STAT, path, &v, &ret, rp)) return (int)ret;
	long r = RAW(SYS_newfstatat, d, path, st, fl, 0, 0);
	if (r >= 0) fake_stat(rp[0] ? rp : active && path && !path[0] && d >= 0 && d < MAXFD ? fdpath[d] : "", st);
	return (int)finish(K_STAT, rp, v, r);
}
int fstatat(int d, const char *path, struct stat *st, int fl) { return do_fstatat(d, path, st, fl); }
int fstatat64(int d, const char *path, struct stat64 *st, int fl) { return do_fstatat(d, path, st, fl); }
static int do_statx(int d, const char *path, int fl, unsigned mask, void *st)
{
	struct verdict v; long ret; char rp[PATHLEN];
	rp[0] = 0;
	if (path && path[0] && (d == AT_FDCWD || path[0] == '/') && path_step(K_STAT, path, &v, &ret, rp)) return (int)ret;
	long r = RAW(SYS_statx, d, path, fl, mask, st, 0);
	if (r >= 0) fake_statx(rp[0] ? rp : active && (!path || !path[0]) && d >= 0 && d < MAXFD ? fdpath[d] : "", st);
	return (int)finish(K_STAT, rp, v, r);
}
int statx(int d, const char *restrict path, int fl, unsigned mask, struct statx *restrict st) { return do_statx(d, path, fl, mask, st); }
static int do_fstat(int d, struct stat *st)
{
	long r = RAW(SYS_fstat, d, st, 0, 0, 0, 0);
	if (r >= 0 && active && d >= 0 && d < MAXFD) fake_stat(fdpath[d], st);
	return (int)ret_errno(r);
}
int fstat(int d, struct stat *st) { return do_fstat(d, st); }
int fstat64(int d, struct stat64 *st) { return do_fstat(d, (struct stat *)st); }
int access(const char *path, int m)
{
	struct verdict v; long ret; char rp[PATHLEN];
	if (path_step(K_STAT, path, &v, &ret, rp)) return (int)ret;
	return (int)finish(K_STAT, rp, v, RAW(SYS_access, path, m, 0, 0, 0, 0));
}
int faccessat(int d, const char *path, int m, int f)
{
	struct verdict v; long ret; char rp[PATHLEN];
	rp[0] = 0;
	if (d == AT_FDCWD && path_step(K_STAT, path, &v, &ret, rp)) return (int)ret;
	(void)f;
	return (int)finish(K_STAT, rp, v, RAW(SYS_faccessat, d, path, m, 0, 0, 0));
}

/* ---------- changes to the tree ---------- */
static int outside(const char *path)
{
	char abs[PATHLEN];
	if (!active) return 0;
	absolute(path, abs);
	if (in_root(abs)) return 0;
	deny_outside("tree", abs);
	return 1;
}
int mkdir(const char *path, mode_t m)
{
	struct verdict v; long ret; char rp[PATHLEN], abs[PATHLEN];
	if (active) {
		absolute(path, abs);
		if (!in_root(abs)) { /* an existing directory above the root: let the caller see EEXIST */
			struct stat st;
			if (RAW(SYS_stat, abs, &st, 0, 0, 0, 0) == 0) { errno = EEXIST; return -1; }
			return deny_outside("mkdir", abs);
		}
	}
	if (path_step(K_MKDIR, path, &v, &ret, rp)) return (int)ret;
	return (int)finish(K_MKDIR, rp, v, RAW(SYS_mkdir, path, m, 0, 0, 0, 0));
}
int rename(const char *a, const char *b)
{
	struct verdict v; long ret; char rp[PATHLEN];
	if (outside(a) || outside(b)) return -1;
	if (path_step(K_RENAME, b, &v, &ret, rp)) return (int)ret;
	return (int)finish(K_RENAME, rp, v, RAW(SYS_rename, a, b, 0, 0, 0, 0));
}
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f)
{
	if (active && (d1 != AT_FDCWD || d2 != AT_FDCWD)) { errno = ENOSYS; return -1; }
	if (outside(a) || outside(b)) return -1;
	return (int)ret_errno(RAW(SYS_renameat2, d1, a, d2, b, f, 0));
}
#define TREE1(NAME, KIND, PROTO, ARGPATH, CALL) \
	int NAME PROTO { struct verdict v; long ret; char rp[PATHLEN]; \
		if (outside(ARGPATH)) return -1; \
		if (path_step(KIND, ARGPATH, &v, &ret, rp)) return (int)ret; \
		return (int)finish(KIND, rp, v, CALL); }
TREE1(unlink, K_UNLINK, (const char *p), p, RAW(SYS_unlink, p, 0, 0, 0, 0, 0))
TREE1(rmdir, K_UNLINK, (const char *p), p, RAW(SYS_rmdir, p, 0, 0, 0, 0, 0))
TREE1(truncate, K_TRUNC, (const char *p, off_t l), p, RAW(SYS_truncate, p, l, 0, 0, 0, 0))
TREE1(truncate64, K_TRUNC, (const char *p, off64_t l), p, RAW(SYS_truncate, p, l, 0, 0, 0, 0))
TREE1(chmod, K_OTHER, (const char *p, mode_t m), p, RAW(SYS_chmod, p, m, 0, 0, 0, 0))
TREE1(chown, K_OTHER, (const char *p, uid_t u, gid_t g), p, RAW(SYS_chown, p, u, g, 0, 0, 0))
TREE1(symlink, K_OTHER, (const char *t, const char *p), p, RAW(SYS_symlink, t, p, 0, 0, 0, 0))
TREE1(link, K_OTHER, (const char *t, const char *p), p, RAW(SYS_link, t, p, 0, 0, 0, 0))
int linkat(int a, const char *t, int b, const char *p, int f)
{
	if (outside(p)) return -1;
	return (int)ret_errno(RAW(SYS_linkat, a, t, b, p, f, 0));
}
int unlinkat(int d, const char *p, int fl)
{
	char abs[PATHLEN], tmp[PATHLEN * 2];
	if (active) {
		if (d != AT_FDCWD && p[0] != '/') {
			if (!simfd(d)) return deny_outside("unlinkat", p);
			snprintf(tmp, sizeof tmp, "%s/%s/%s", P.root, fdpath[d], p);
			absolute(tmp, abs);
		} else absolute(p, abs);
		if (!in_root(abs)) return deny_outside("unlinkat", abs);
		struct verdict v; long ret;
		const char *rp = rel(abs);
		if (simple(K_UNLINK, rp, &v, &ret)) return (int)ret;
		return (int)finish(K_UNLINK, rp, v, RAW(SYS_unlinkat, d, p, fl, 0, 0, 0));
	}
	return (int)ret_errno(RAW(SYS_unlinkat, d, p, fl, 0, 0, 0));
}
static int do_ftruncate(int fd, off64_t l)
{
	if (simfd(fd)) {
		struct verdict v; long ret; char rp[PATHLEN];
		snprintf(rp, sizeof rp, "%s", fdpath[fd]);
		if (simple(K_TRUNC, rp, &v, &ret)) return (int)ret;
		return (int)finish(K_TRUNC, rp, v, RAW(SYS_ftruncate, fd, l, 0, 0, 0, 0));
	}
	return (int)ret_errno(RAW(SYS_ftruncate, fd, l, 0, 0, 0, 0));
}
int ftruncate(int fd, off_t l) { return do_ftruncate(fd, l); }
int ftruncate64(int fd, off64_t l) { return do_ftruncate(fd, l); }
#define SYNCLIKE(NAME, NR) int NAME(int fd) { if (simfd(fd)) { struct verdict v; long ret; char rp[PATHLEN]; \
	snprintf(rp, sizeof rp, "%s", fdpath[fd]); if (simple(K_SYNC, rp, &v, &ret)) return (int)ret; \
	return (int)finish(K_SYNC, rp, v, RAW(NR, fd, 0, 0, 0, 0, 0)); } return (int)ret_errno(RAW(NR, fd, 0, 0, 0, 0, 0)); }
SYNCLIKE(fsync, SYS_fsync)
SYNCLIKE(fdatasync, SYS_fdatasync)

/* ---------- directories ---------- */
struct simdir { uint64_t magic; DIR *real; char path[PATHLEN]; struct dirent64 *ent; int n, pos; int err; };
#define DMAGIC 0x51d1d1d1d1d1d1d1ull
static struct simdir *as_sim(DIR *d) { struct simdir *s = (struct simdir *)d; return s && s->magic == DMAGIC ? s : NULL; }
static int cmp_ent(const void *a, const void *b) { return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name); }
static DIR *wrap_dir(DIR *real, const char *rp)
{
	struct dirent64 *(*rd)(DIR *) = dlsym(RTLD_NEXT, "readdir64");
	struct simdir *s = calloc(1, sizeof *s);
	s->magic = DMAGIC;
	s->real = real;
	snprintf(s->path, PATHLEN, "%s", rp);
	int cap = 0;
	struct dirent64 *e;
	while ((e = rd(real))) {
		if (s->n == cap) { cap = cap ? cap * 2 : 16; s->ent = realloc(s->ent, (size_t)cap * sizeof *s->ent); }
		memset(&s->ent[s->n], 0, sizeof *s->ent);
		memcpy(&s->ent[s->n], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
		s->ent[s->n].d_reclen = sizeof *e;
		s->n++;
	}
	if (s->n) qsort(s->ent, (size_t)s->n, sizeof *s->ent, cmp_ent);
	if (P.dirshuf) for (int i = s->n - 1; i > 0; i--) {
		int j = (int)(choice(K_READDIR, rp, (unsigned)i, 7) % (unsigned)(i + 1));
		struct dirent64 t = s->ent[i]; s->ent[i] = s->ent[j]; s->ent[j] = t;
	}
	return (DIR *)s;
}
DIR *opendir(const char *path)
{
	DIR *(*od)(const char *) = dlsym(RTLD_NEXT, "opendir");
	struct verdict v; long ret; char rp[PATHLEN];
	rp[0] = 0;
	if (path_step(K_OPENDIR, path, &v, &ret, rp)) return NULL;
	if (!rp[0]) return od(path);
	int was = active;
	active = 0;
	DIR *d = od(path);
	int e = errno;
	active = was;
	done(K_OPENDIR, rp, v, d ? 0 : -1, d ? 0 : e);
	if (!d) { errno = e; return NULL; }
	active = 0;
	DIR *w = wrap_dir(d, rp);
	active = was;
	return w;
}
DIR *fdopendir(int fd)
{
	DIR *(*od)(int) = dlsym(RTLD_NEXT, "fdopendir");
	const char *p = simfd(fd);
	DIR *d = od(fd);
	if (!p || !d) return d;
	int was = active;
	active = 0;
	DIR *w = wrap_dir(d, p);
	active = was;
	return w;
}
struct dirent64 *readdir64(DIR *d)
{
	struct simdir *s = as_sim(d);
	if (!s) { struct dirent64 *(*rd)(DIR *) = dlsym(RTLD_NEXT, "readdir64"); return rd(d); }
	struct verdict v; long ret;
	if (simple(K_READDIR, s->path, &v, &ret)) return NULL; /* errno is set */
	done(K_READDIR, s->path, v, s->pos < s->n, 0);
	if (s->pos >= s->n) { errno = 0; return NULL; }
	return &s->ent[s->pos++];
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d)
{
	int (*cd)(DIR *) = dlsym(RTLD_NEXT, "closedir");
	struct simdir *s = as_sim(d);
	if (!s) return cd(d);
	DIR *r = s->real;
	free(s->ent);
	s->magic = 0;
	free(s);
	return cd(r);
}
int dirfd(DIR *d)
{
	int (*df)(DIR *) = dlsym(RTLD_NEXT, "dirfd");
	struct simdir *s = as_sim(d);
	return df(s ? s->real : d);
}

/* ---------- time and randomness ---------- */
static void tick(void)
{
	rnd_state = mix(rnd_state + 1);
	int64_t d = 1000 + (int64_t)(rnd_state % 2000000);
	if (P.clockmode >= 1 && (rnd_state >> 40) % 7 == 0) d += (int64_t)((rnd_state >> 20) % 400000) * 1000000000LL; /* suspend */
	sim_mono += d;
	sim_ns += d;
	if (P.clockmode >= 2 && (rnd_state >> 33) % 5 == 0) sim_ns -= (int64_t)((rnd_state >> 13) % 90000000) * 1000000000LL; /* set back */
}
int clock_gettime(clockid_t c, struct timespec *ts)
{
	if (!active) return (int)ret_errno(RAW(SYS_clock_gettime, c, ts, 0, 0, 0, 0));
	tick();
	int64_t t = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? sim_ns : sim_mono;
	if (t < 0) t = 0;
	ts->tv_sec = t / 1000000000;
	ts->tv_nsec = t % 1000000000;
	return 0;
}
time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
	struct timespec ts; (void)tz;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
static void sleep_until(int64_t mono)
{
	struct verdict v = step(K_OTHER, "<sleep>");
	(void)v;
	turn_point(1, K_OTHER);
	if (mono > sim_mono) wait_until(mono);
}
int nanosleep(const struct timespec *a, struct timespec *b)
{
	if (!active) return (int)ret_errno(RAW(SYS_nanosleep, a, b, 0, 0, 0, 0));
	sleep_until(sim_mono + a->tv_sec * 1000000000LL + a->tv_nsec);
	return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b)
{
	if (!active) return (int)-RAW(SYS_clock_nanosleep, c, fl, a, b, 0, 0);
	int64_t t = a->tv_sec * 1000000000LL + a->tv_nsec;
	if (fl & TIMER_ABSTIME) t -= c == CLOCK_REALTIME ? sim_ns : sim_mono;
	sleep_until(sim_mono + t);
	return 0;
}
unsigned sleep(unsigned s) { struct timespec ts = { s, 0 }; nanosleep(&ts, NULL); return 0; }
int usleep(useconds_t u) { struct timespec ts = { u / 1000000, (long)(u % 1000000) * 1000 }; return nanosleep(&ts, NULL); }
static void fill_random(unsigned char *b, size_t n)
{
	for (size_t i = 0; i < n; i++) { rnd_state = mix(rnd_state + 3); b[i] = (unsigned char)(rnd_state >> 24); }
}
ssize_t getrandom(void *b, size_t n, unsigned f)
{
	if (!active) return (ssize_t)ret_errno(RAW(SYS_getrandom, b, n, f, 0, 0, 0));
	fill_random(b, n);
	return (ssize_t)n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
pid_t getpid(void) { return active ? (pid_t)(4711 + run_idx) : (pid_t)RAW(SYS_getpid, 0, 0, 0, 0, 0, 0); }

long syscall(long nr, ...)
{
	va_list ap;
	va_start(ap, nr);
	long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
	va_end(ap);
	if (active) {
		if (nr == SYS_getrandom) return getrandom((void *)a, (size_t)b, (unsigned)c);
		if (nr == SYS_statx) return do_statx((int)a, (const char *)b, (int)c, (unsigned)d, (void *)e);
		if (nr == SYS_copy_file_range || nr == SYS_sendfile || nr == SYS_splice) { errno = ENOSYS; return -1; }
		if (nr == SYS_renameat2) return renameat2((int)a, (const char *)b, (int)c, (const char *)d, (unsigned)e);
		if (nr == SYS_futex) {
			int op = (int)b & 127 & ~FUTEX_PRIVATE_FLAG;
			if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
				int64_t until = -1;
				const struct timespec *ts = (const struct timespec *)d;
				if (ts) {
					until = ts->tv_sec * 1000000000LL + ts->tv_nsec;
					if (op == FUTEX_WAIT) until += sim_mono;
					else if (b & FUTEX_CLOCK_REALTIME) until += sim_mono - sim_ns;
				}
				return futex_wait((const uint32_t *)a, (uint32_t)c, op == FUTEX_WAIT ? ~0u : (uint32_t)f, until < 0 && ts ? 0 : until);
			}
			if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) return futex_wake((const uint32_t *)a, (uint32_t)c, op == FUTEX_WAKE ? ~0u : (uint32_t)f);
		}
		if (nr == SYS_openat) return do_open((int)a, (const char *)b, (int)c, (mode_t)d);
	}
	return ret_errno(raw(nr, a, b, c, d, e, f));
}
/* ---------- plan ---------- */
static int kind_of(const char *s)
{
	for (int i = 0; i < NKIND; i++) if (!strcmp(s, kind_name[i])) return i;
	return K_OTHER;
}
static void parse_plan(char *text)
{
	memset(&P, 0, sizeof P);
	char *line = text, *next;
	for (; line && *line; line = next) {
		next = strchr(line, '\n');
		if (next) *next++ = 0;
		char *a[10];
		int n = 0;
		char *s = line;
		while (n < 10) { /* fields separated by tabs */
			a[n++] = s;
			s = strchr(s, '\t');
			if (!s) break;
			*s++ = 0;
		}
#define IS(k, cnt) (!strcmp(a[0], k) && n > cnt)
		if (IS("argv", 1) && P.argc < MAXARG) P.argv[P.argc++] = a[1];
		else if (IS("env", 1) && P.nenv < MAXARG - 1) P.envv[P.nenv++] = a[1];
		else if (IS("cwd", 1)) snprintf(P.cwd, PATHLEN, "%s", a[1]);
		else if (IS("out", 1)) snprintf(P.out, PATHLEN, "%s", a[1]);
		else if (IS("err", 1)) snprintf(P.err, PATHLEN, "%s", a[1]);
		else if (IS("root", 1)) snprintf(P.root, PATHLEN, "%s", a[1]);
		else if (IS("seed", 1)) P.seed = strtoull(a[1], NULL, 10);
		else if (IS("shortr", 2)) { P.shortr_pm = (unsigned)atoi(a[1]); P.shortr_max = (unsigned)atoi(a[2]); }
		else if (IS("shortw", 2)) { P.shortw_pm = (unsigned)atoi(a[1]); P.shortw_max = (unsigned)atoi(a[2]); }
		else if (IS("eintr", 1)) P.eintr_pm = (unsigned)atoi(a[1]);
		else if (IS("dirshuf", 1)) P.dirshuf = atoi(a[1]);
		else if (IS("mtime", 1)) P.mtime = atoi(a[1]);
		else if (IS("clock", 1)) P.clockmode = atoi(a[1]);
		else if (IS("maxsteps", 1)) P.maxsteps = (unsigned)atoi(a[1]);
		else if (IS("fault", 6) && P.nfault < MAXFAULT) {
			struct fault *f = &P.fault[P.nfault++];
			f->kind = kind_of(a[1]); f->nth = (unsigned)atoi(a[2]); f->action = a[3][0];
			f->arg = atol(a[4]); f->persist = atoi(a[5]);
			snprintf(f->path, PATHLEN, "%s", a[6]);
		} else if (IS("edit", 6) && P.nedit < MAXEDIT) {
			struct edit *e = &P.edit[P.nedit++];
			e->kind = kind_of(a[1]); e->nth = (unsigned)atoi(a[2]);
			snprintf(e->path, PATHLEN, "%s", a[3]);
			e->op = a[4][0];
			snprintf(e->dst, PATHLEN, "%s", a[5]);
			snprintf(e->src, PATHLEN, "%s", a[6]);
		}
	}
}

typedef int (*main_t)(int, char **, char **);
typedef int (*start_t)(main_t, int, char **, void (*)(void), void (*)(void), void (*)(void), void *);

int __libc_start_main(main_t main, int argc, char **argv, void (*init)(void), void (*fini)(void),
		      void (*rtld_fini)(void), void *stack_end)
{
	start_t real = (start_t)dlsym(RTLD_NEXT, "__libc_start_main");
	const char *shm_path = getenv("VSIM_SHM"), *turn_path = getenv("VSIM_TURN");
	if (!shm_path) return real(main, argc, argv, init, fini, rtld_fini, stack_end);

	int fd = (int)RAW(SYS_open, shm_path, O_RDWR, 0, 0, 0, 0);
	if (fd < 0) _exit(96);
	shm = mmap(NULL, PLAN_SIZE + LOG_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if (shm == MAP_FAILED) _exit(96);
	RAW(SYS_close, fd, 0, 0, 0, 0, 0);
	log_len = (uint32_t *)(shm + PLAN_SIZE);
	log_steps = log_len + 1;
	log_simtime = (uint64_t *)(shm + PLAN_SIZE + 8);
	logp = shm + PLAN_SIZE + 64;

	if (turn_path) { /* the part all runs of one machine share */
		fd = (int)RAW(SYS_open, turn_path, O_RDWR, 0, 0, 0, 0);
		if (fd < 0) _exit(96);
		turns = mmap(NULL, TURN_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, PLAN_SIZE + LOG_SIZE);
		if (turns == MAP_FAILED) _exit(96);
		RAW(SYS_close, fd, 0, 0, 0, 0, 0);
	}

	/* commands come on fd 0, answers go to fd 1 */
	for (;;) {
		char c;
		long n = RAW(SYS_read, 0, &c, 1, 0, 0, 0);
		if (n == -EINTR) continue;
		if (n <= 0) _exit(0);
		*log_len = 0;
		*log_steps = 0;
		*log_simtime = 0;
		run_idx = turns ? *(uint32_t *)(shm + PLAN_SIZE + 16) : 0;
		pid_t pid = fork();
		if (pid == 0) break;
		int st = 0xff00;
		if (pid > 0) while (RAW(SYS_wait4, pid, &st, 0, 0, 0, 0) == -EINTR) { }
		if (run_idx && run_idx <= MAXRUN) { /* it is over, however it ended: the others go on */
			turns->done[run_idx - 1] = 1;
			int to = turns->who == run_idx - 1 ? turn_pick(0) : -1;
			if (to >= 0) turn_give((uint32_t)to);
		}
		if (RAW(SYS_write, 1, &st, 4, 0, 0, 0) != 4) _exit(0);
	}

	/* the child: become one run of the program */
	size_t plen = strnlen(shm, PLAN_SIZE - 1);
	char *plan = malloc(plen + 1);
	memcpy(plan, shm, plen);
	plan[plen] = 0;
	parse_plan(plan);
	if (RAW(SYS_chdir, P.cwd, 0, 0, 0, 0, 0) < 0) _exit(97);
	int in = (int)RAW(SYS_open, "/dev/null", O_RDONLY, 0, 0, 0, 0);
	int o = (int)RAW(SYS_open, P.out, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0666, 0, 0, 0);
	int e = (int)RAW(SYS_open, P.err, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0666, 0, 0, 0);
	if (in < 0 || o < 0 || e < 0) _exit(97);
	RAW(SYS_dup2, in, 0, 0, 0, 0, 0);
	RAW(SYS_dup2, o, 1, 0, 0, 0, 0);
	RAW(SYS_dup2, e, 2, 0, 0, 0, 0);
	for (int i = 3; i < 64; i++) RAW(SYS_close, i, 0, 0, 0, 0, 0);
	strcpy(fdpath[1], "<stdout>");
	strcpy(fdpath[2], "<stderr>");
	struct rlimit rl = { 10, 10 };
	setrlimit(RLIMIT_CPU, &rl);
	rl.rlim_cur = rl.rlim_max = 0;
	setrlimit(RLIMIT_CORE, &rl);
	rl.rlim_cur = rl.rlim_max = 1024;
	setrlimit(RLIMIT_NOFILE, &rl);
	rl.rlim_cur = rl.rlim_max = 256u << 20;
	setrlimit(RLIMIT_FSIZE, &rl);
	rl.rlim_cur = rl.rlim_max = 3ull << 30;
	setrlimit(RLIMIT_AS, &rl);
	umask(0);
	rnd_state = mix(P.seed ^ 0xabcdef);
	sched_state = mix(P.seed ^ 0x123457);
	int argn = P.argc;
	P.argv[argn] = NULL;
	for (int i = 0; i < P.nenv; i++) P.argv[argn + 1 + i] = P.envv[i];
	P.argv[argn + 1 + P.nenv] = NULL;
	P.argv[argn + 2 + P.nenv] = NULL;
	extern char **environ;
	environ = &P.argv[argn + 1];
	steps = 0;
	if (run_idx) turn_wait();
	active = 1;
	return real(main, argn, P.argv, init, fini, rtld_fini, stack_end);
}

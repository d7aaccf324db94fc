/*
 * Environment shim linked into the real scache binary with -Wl,--wrap=...
 * It never changes what the program computes; it controls the environment:
 *   - virtual clock (offset added to the system time)
 *   - observation (live heap bytes, event loop turns, file system operations)
 *   - fault injection (errors / short transfers) and crash points
 * State shared with the harness lives in a mmap'd file named by $VSHIM.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <netinet/in.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPEN = 0, OP_WRITE, OP_TRUNC, OP_RENAME, OP_UNLINK, OP_FORK, OP_SYNC, OP_COPY, OP_OPENRD, OP_PREAD, OP_SENDRD, OP_SEEK, OP_LINE, OP_ACCESS, OP_MKDIR, OP_N };
#define LOGN 8192
#define COVN 65536

struct shm {
	volatile int64_t clock_off_us;   /* 0 */
	volatile uint64_t ticks;         /* 8  clock reads by the server */
	volatile uint64_t turns;         /* 16 main event loop turns */
	volatile uint32_t sample_req;    /* 24 */
	volatile uint32_t sample_ack;    /* 28 */
	volatile uint64_t live_bytes;    /* 32 */
	volatile int32_t server_pid;     /* 40 */
	volatile int32_t sndbuf;         /* 44 SO_SNDBUF for accepted sockets */
	volatile int32_t sock_wlimit;    /* 48 max bytes per socket write/sendfile */
	volatile int32_t sock_rlimit;    /* 52 max bytes per socket read */
	volatile int32_t f_mask;         /* 56 bit per op */
	volatile int32_t f_role;         /* 60 1 server 2 child 3 both */
	volatile int32_t f_skip;         /* 64 */
	volatile int32_t f_count;        /* 68 */
	volatile int32_t f_errno;        /* 72 */
	volatile int32_t f_short;        /* 76 partial transfer first */
	volatile int32_t f_hits;         /* 80 */
	volatile int32_t k_role;         /* 84 */
	volatile int32_t k_at;           /* 88 */
	volatile int32_t k_phase;        /* 92 0 before 1 after 2 partial */
	volatile int32_t killed;         /* 96 */
	volatile int32_t child_delay_us; /* 100 */
	volatile int32_t accept_delay_us;/* 104 */
	volatile int32_t k_only;         /* 108 1: kill only the process hit */
	volatile uint32_t ops[2];        /* 112 */
	volatile uint32_t logn;          /* 120 */
	volatile int32_t epoll_cap_ms;   /* 124 */
	volatile int64_t sock_eagain;    /* 128 socket writes that returned EAGAIN or short */
	volatile int64_t sock_writes;    /* 136 */
	volatile int64_t forks;          /* 144 */
	volatile int64_t last_clock_us;  /* 152 last time handed out */
	volatile int32_t rw_yield;       /* 160 every nth socket read reports EAGAIN */
	volatile int32_t wr_yield;       /* 164 every nth socket write reports EAGAIN */
	volatile uint8_t log[LOGN];      /* 168 (role<<4)|op */
	uint8_t cov[COVN];               /* 8360 pairs of code locations passed */
	volatile int32_t sig_mask;       /* 73896 signals raised around calls: 1 ALRM 2 USR1 4 CHLD */
	volatile int32_t sig_every;      /* 73900 at every nth call */
	volatile int32_t sig_raised;     /* 73904 */
	volatile int32_t fork_wait;      /* 73908 fork returns in the parent when the child has ended */
	volatile int32_t unsafe;         /* 73912 calls from a signal handler which are not async-signal-safe */
	volatile int32_t handlers;       /* 73916 runs of signal handlers */
	volatile int32_t foreign;        /* 73920 of these, on another thread than the main one */
	char unsafe_what[64];            /* 73924 */
	volatile int32_t sched_us;       /* 73988 random delays up to this around the synchronization of threads */
	volatile int32_t term_at;        /* 73992 counts the points where a signal may arrive, term_sig arrives at the last one */
	volatile int32_t term_sig;       /* 73996 */
	volatile int32_t fsop_delay_us;  /* 74000 delay before every file operation of the server itself */
	volatile int32_t transp_fail;    /* 74004 IP_TRANSPARENT is refused */
	volatile int64_t transp;         /* 74008 file descriptors IP_TRANSPARENT was requested for */
	volatile int32_t epadd_fail;     /* 74016 sockets can't be added to an epoll set */
	volatile int32_t hold;           /* 74020 the event loop does not go on until it is reset */
};
static struct shm dummy;
static struct shm *S = &dummy;
static pid_t main_pid;

__attribute__((constructor)) static void shim_init(void) {
	const char *p = getenv("VSHIM");
	if (!p) return;
	int fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC, 0);
	if (fd < 0) return;
	void *m = mmap(NULL, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	syscall(SYS_close, fd);
	if (m == MAP_FAILED) return;
	S = (struct shm *)m;
	main_pid = getpid();
	S->server_pid = main_pid;
}

static int is_child(void) { return main_pid && getpid() != main_pid; }

static void die(void) {
	S->killed = 1;
	if (is_child() && !S->k_only) kill(main_pid, SIGKILL);
	kill(getpid(), SIGKILL);
	for (;;) pause();
}

/* Returns 1 when the operation must fail (errno set), 2 when it must be cut short and the process die */
static int fsop(int op) {
	int role = is_child();
	int saved = errno;
	if (S == &dummy) return 0;
	if (role && S->child_delay_us) usleep(S->child_delay_us);
	if (!role && S->fsop_delay_us) usleep(S->fsop_delay_us);
	uint32_t n = __atomic_add_fetch(&S->ops[role], 1, __ATOMIC_SEQ_CST);
	uint32_t l = __atomic_fetch_add(&S->logn, 1, __ATOMIC_SEQ_CST);
	if (l < LOGN) S->log[l] = (uint8_t)((role << 4) | op);
	if (S->k_role == role + 1 && (int32_t)n == S->k_at) {
		if (S->k_phase == 0) die();
		if (S->k_phase == 2) { errno = saved; return 2; }
	}
	if ((S->f_mask & (1 << op)) && (S->f_role & (role + 1))) {
		if (S->f_skip > 0) S->f_skip--;
		else if (S->f_count != 0) {
			if (S->f_count > 0) S->f_count--;
			S->f_hits++;
			errno = S->f_errno;
			return 1;
		}
	}
	errno = saved;
	return 0;
}
static void poke(void);
static void fsop_done(int op) {
	(void)op;
	if (S == &dummy) return;
	poke();
	int role = is_child();
	if (S->k_role == role + 1 && S->k_phase >= 1 && (int32_t)S->ops[role] == S->k_at) die();
}

static int is_reg(int fd) {
	struct stat st;
	int saved = errno;
	int r = fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
	errno = saved;
	return r;
}
/* the limit is read only once, it may change at any time */
static void cap(size_t *n, int limit) {
	if (limit > 0 && *n > (size_t)limit) *n = limit;
}

static int is_sock(int fd) {
	struct stat st;
	int saved = errno;
	int r = fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode);
	errno = saved;
	return r;
}

/* ---- signals ---- */
#define NSIGS 65
static void (*sig_handler[NSIGS])(int);
static volatile __thread int in_handler;

static void sig_trampoline(int sig) {
	in_handler++;
	if (!is_child()) {
		__atomic_add_fetch(&S->handlers, 1, __ATOMIC_SEQ_CST);
		if (main_pid && syscall(SYS_gettid) != main_pid) __atomic_add_fetch(&S->foreign, 1, __ATOMIC_SEQ_CST);
	}
	sig_handler[sig](sig);
	in_handler--;
}
int __real_sigaction(int sig, const struct sigaction *a, struct sigaction *o);
int __wrap_sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
	struct sigaction b;
	void (*old)(int) = sig > 0 && sig < NSIGS ? sig_handler[sig] : NULL;
	if (a && sig > 0 && sig < NSIGS && !(a->sa_flags & SA_SIGINFO) && a->sa_handler != SIG_DFL && a->sa_handler != SIG_IGN) {
		b = *a;
		sig_handler[sig] = a->sa_handler;
		b.sa_handler = sig_trampoline;
		a = &b;
	}
	int r = __real_sigaction(sig, a, o);
	if (r == 0 && o && o->sa_handler == sig_trampoline) o->sa_handler = old;
	return r;
}
typedef void (*sighandler)(int);
sighandler __real_signal(int sig, sighandler h);
sighandler __wrap_signal(int sig, sighandler h) {
	sighandler old = sig > 0 && sig < NSIGS ? sig_handler[sig] : NULL;
	if (sig > 0 && sig < NSIGS && h != SIG_DFL && h != SIG_IGN) {
		sig_handler[sig] = h;
		h = sig_trampoline;
	}
	sighandler r = __real_signal(sig, h);
	return r == sig_trampoline ? old : r;
}
static void unsafe(const char *what) {
	if (in_handler && S != &dummy && !is_child() && __atomic_add_fetch(&S->unsafe, 1, __ATOMIC_SEQ_CST) == 1) {
		strncpy(S->unsafe_what, what, sizeof(S->unsafe_what) - 1);
	}
}
/* A signal arrives here; errno is left as the handler leaves it */
static void poke(void) {
	static unsigned n, w;
	if (S->term_at > 0 && !in_handler && main_pid && syscall(SYS_gettid) == main_pid && !is_child() && --S->term_at == 0) {
		int saved = errno;
		syscall(SYS_tgkill, main_pid, main_pid, S->term_sig);
		errno = saved;
	}
	if (!S->sig_mask || in_handler || !main_pid || syscall(SYS_gettid) != main_pid) return;
	int every = S->sig_every;
	if (every <= 0) every = 1;
	if (++n % every) return;
	static const int sigs[] = {SIGALRM, SIGUSR1, SIGCHLD};
	int saved = errno;
	for (int i = 0; i < 3; i++, w++) {
		if (S->sig_mask & (1 << (w % 3))) {
			int sig = sigs[w++ % 3];
			if (!sig_handler[sig]) return;
			__atomic_add_fetch(&S->sig_raised, 1, __ATOMIC_SEQ_CST);
			errno = saved;
			syscall(SYS_tgkill, main_pid, main_pid, sig);
			return;
		}
	}
}
void *__real_malloc(size_t n);
void *__wrap_malloc(size_t n) { unsafe("malloc"); poke(); return __real_malloc(n); }
void *__real_calloc(size_t n, size_t m);
void *__wrap_calloc(size_t n, size_t m) { unsafe("calloc"); return __real_calloc(n, m); }
void *__real_realloc(void *p, size_t n);
void *__wrap_realloc(void *p, size_t n) { unsafe("realloc"); return __real_realloc(p, n); }
void __real_free(void *p);
void __wrap_free(void *p) { unsafe("free"); poke(); __real_free(p); }
void __real_exit(int st) __attribute__((noreturn));
void __wrap_exit(int st) { unsafe("exit"); __real_exit(st); }
/* another thread gets its turn here */
static void perturb(void) {
	static __thread uint32_t x;
	int us = S->sched_us;
	if (us <= 0) return;
	if (!x) x = (uint32_t)syscall(SYS_gettid) * 2654435761u | 1;
	x ^= x << 13; x ^= x >> 17; x ^= x << 5;
	int saved = errno;
	if (x % 3 == 0) usleep((x >> 8) % us);
	else if (x % 3 == 1) sched_yield();
	errno = saved;
}
int __real_pthread_mutex_lock(void *m);
int __wrap_pthread_mutex_lock(void *m) { unsafe("pthread_mutex_lock"); perturb(); return __real_pthread_mutex_lock(m); }
int __real_pthread_mutex_unlock(void *m);
int __wrap_pthread_mutex_unlock(void *m) { int r = __real_pthread_mutex_unlock(m); perturb(); return r; }
int __real_printf(const char *f, ...);
int __wrap_printf(const char *f, ...) {
	unsafe("printf");
	va_list ap;
	va_start(ap, f);
	int r = vprintf(f, ap);
	va_end(ap);
	return r;
}
void *__real_opendir(const char *p);
void *__wrap_opendir(const char *p) { unsafe("opendir"); return __real_opendir(p); }

/* ---- coverage of the server's code, only called in variants built with it ---- */
extern char __executable_start;
static __thread uint32_t cov_prev;
void __sanitizer_cov_trace_pc(void) {
	uint32_t pc = (uint32_t)((char *)__builtin_return_address(0) - &__executable_start);
	uint32_t h = (pc * 2654435761u) >> 16;
	S->cov[(h ^ cov_prev) & (COVN - 1)] = 1;
	cov_prev = h >> 1;
}

/* ---- time ---- */
int __real_gettimeofday(struct timeval *tv, void *tz);
int __wrap_gettimeofday(struct timeval *tv, void *tz) {
	int r = __real_gettimeofday(tv, tz);
	if (r == 0 && tv) {
		int64_t us = (int64_t)tv->tv_sec * 1000000 + tv->tv_usec + S->clock_off_us;
		tv->tv_sec = us / 1000000;
		tv->tv_usec = us % 1000000;
		S->last_clock_us = us;
	}
	if (!is_child()) __atomic_add_fetch(&S->ticks, 1, __ATOMIC_SEQ_CST);
	return r;
}
int __real_clock_gettime(clockid_t c, struct timespec *ts);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
	int r = __real_clock_gettime(c, ts);
	if (r == 0) {
		int64_t us = (int64_t)ts->tv_sec * 1000000 + ts->tv_nsec / 1000 + S->clock_off_us;
		ts->tv_sec = us / 1000000;
		ts->tv_nsec = (us % 1000000) * 1000;
		if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) S->last_clock_us = us;
	}
	if (!is_child()) __atomic_add_fetch(&S->ticks, 1, __ATOMIC_SEQ_CST);
	return r;
}
time_t __real_time(time_t *t);
time_t __wrap_time(time_t *t) {
	struct timeval tv;
	__wrap_gettimeofday(&tv, NULL);
	if (t) *t = tv.tv_sec;
	return tv.tv_sec;
}

/* ---- event loop ---- */
int __real_epoll_wait(int ep, struct epoll_event *ev, int n, int timeout);
int __wrap_epoll_wait(int ep, struct epoll_event *ev, int n, int timeout) {
	if (main_pid && syscall(SYS_gettid) == main_pid) {
		__atomic_add_fetch(&S->turns, 1, __ATOMIC_SEQ_CST);
		uint32_t req = S->sample_req;
		if (req != S->sample_ack) {
			struct mallinfo2 mi = mallinfo2();
			S->live_bytes = mi.uordblks + mi.hblkhd;
			__atomic_store_n(&S->sample_ack, req, __ATOMIC_SEQ_CST);
		}
	}
	if (S->hold && main_pid && syscall(SYS_gettid) == main_pid) {
		S->hold = 2;
		for (int i = 0; S->hold && i < 25000; i++) usleep(200);
	}
	if (S->epoll_cap_ms > 0 && (timeout < 0 || timeout > S->epoll_cap_ms)) timeout = S->epoll_cap_ms;
	poke();
	int r = __real_epoll_wait(ep, ev, n, timeout);
	poke();
	return r;
}
int __real_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev);
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
	if (S->epadd_fail && op == EPOLL_CTL_ADD) { errno = ENOSPC; return -1; }
	return __real_epoll_ctl(ep, op, fd, ev);
}

static void tune(int fd) {
	int v = S->sndbuf;
	if (fd >= 0 && v > 0) {
		int saved = errno;
		setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v);
		errno = saved;
	}
}
int __real_flock(int fd, int op);
int __wrap_flock(int fd, int op) {
	if (S->fsop_delay_us) usleep(S->fsop_delay_us);
	return __real_flock(fd, op);
}
int __real_setsockopt(int fd, int level, int name, const void *v, socklen_t n);
int __wrap_setsockopt(int fd, int level, int name, const void *v, socklen_t n) {
	if ((level == IPPROTO_IP && name == IP_TRANSPARENT) || (level == IPPROTO_IPV6 && name == IPV6_TRANSPARENT)) {
		if (S->transp_fail) { errno = EPERM; return -1; }
		/* needs a privilege, which the sandbox might not have */
		if (fd >= 0 && fd < 63 && n == sizeof(int) && *(const int *)v) S->transp |= 1LL << fd;
		__real_setsockopt(fd, level, name, v, n);
		return 0;
	}
	return __real_setsockopt(fd, level, name, v, n);
}

int __real_accept4(int fd, struct sockaddr *a, socklen_t *l, int flags);
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int flags) {
	if (S->accept_delay_us) usleep(S->accept_delay_us);
	int r = __real_accept4(fd, a, l, flags);
	tune(r);
	return r;
}
int __real_accept(int fd, struct sockaddr *a, socklen_t *l);
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) {
	if (S->accept_delay_us) usleep(S->accept_delay_us);
	int r = __real_accept(fd, a, l);
	tune(r);
	return r;
}

/* ---- transfers ---- */
static int again(int32_t every, int fd) {
	static unsigned turn;
	if (every <= 0 || fd < 0) return 0;
	if (__atomic_add_fetch(&turn, 1, __ATOMIC_RELAXED) % (unsigned)every) return 0;
	errno = EAGAIN;
	return 1;
}
ssize_t __real_read(int fd, void *b, size_t n);
ssize_t __wrap_read(int fd, void *b, size_t n) {
	if (S->rw_yield && is_sock(fd) && again(S->rw_yield, fd)) return -1;
	cap(&n, is_sock(fd) ? S->sock_rlimit : 0);
	poke();
	if (n == 8) perturb();
	ssize_t r = __real_read(fd, b, n);
	poke();
	return r;
}
ssize_t __real_recv(int fd, void *b, size_t n, int fl);
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) {
	if (again(S->rw_yield, fd)) return -1;
	cap(&n, S->sock_rlimit);
	poke();
	ssize_t r = __real_recv(fd, b, n, fl);
	poke();
	return r;
}
static ssize_t note(ssize_t r, size_t want) {
	int saved = errno;
	__atomic_add_fetch(&S->sock_writes, 1, __ATOMIC_SEQ_CST);
	if (r < (ssize_t)want) __atomic_add_fetch(&S->sock_eagain, 1, __ATOMIC_SEQ_CST);
	poke();
	errno = saved;
	return r;
}
ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __wrap_write(int fd, const void *b, size_t n) {
	if (S == &dummy) return __real_write(fd, b, n);
	if (n == 8 && !in_handler) perturb();
	if (is_reg(fd) && fd > 2) {
		int f = fsop(OP_WRITE);
		if (f == 1) {
			if (S->f_short && n > 1) return __real_write(fd, b, n / 2);
			return -1;
		}
		if (f == 2) { if (n > 1) (void)!__real_write(fd, b, n / 2); die(); }
		ssize_t r = __real_write(fd, b, n);
		fsop_done(OP_WRITE);
		return r;
	}
	if (is_sock(fd)) {
		size_t want = n;
		if (again(S->wr_yield, fd)) return note(-1, want);
		cap(&n, S->sock_wlimit);
		return note(__real_write(fd, b, n), want);
	}
	return __real_write(fd, b, n);
}
ssize_t __real_pwrite(int fd, const void *b, size_t n, off_t o);
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) {
	int f = fsop(OP_WRITE);
	if (f == 1) {
		if (S->f_short && n > 1) return __real_pwrite(fd, b, n / 2, o);
		return -1;
	}
	if (f == 2) { if (n > 1) (void)!__real_pwrite(fd, b, n / 2, o); die(); }
	ssize_t r = __real_pwrite(fd, b, n, o);
	fsop_done(OP_WRITE);
	return r;
}
ssize_t __real_pwrite64(int fd, const void *b, size_t n, off64_t o);
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off64_t o) { return __wrap_pwrite(fd, b, n, o); }
ssize_t __real_send(int fd, const void *b, size_t n, int fl);
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) {
	size_t want = n;
	if (again(S->wr_yield, fd)) return note(-1, want);
	cap(&n, S->sock_wlimit);
	return note(__real_send(fd, b, n, fl), want);
}
ssize_t __real_sendfile(int out, int in, off_t *o, size_t n);
static ssize_t do_sendfile(int out, int in, off_t *o, size_t n) {
	if (S == &dummy) return __real_sendfile(out, in, o, n);
	if (is_reg(out)) {
		int f = fsop(OP_COPY);
		if (f == 1) {
			if (S->f_short && n > 1) return __real_sendfile(out, in, o, n / 2);
			return -1;
		}
		if (f == 2) { if (n > 1) (void)!__real_sendfile(out, in, o, n / 2); die(); }
		ssize_t r = __real_sendfile(out, in, o, n);
		fsop_done(OP_COPY);
		return r;
	}
	size_t want = n;
	if (S->f_mask & (1 << OP_SENDRD)) {
		if (fsop(OP_SENDRD) == 1) {
			if (S->f_short && n > 1) return note(__real_sendfile(out, in, o, n / 2), want);
			return -1;
		}
	}
	if (again(S->wr_yield, out)) return note(-1, want);
	cap(&n, S->sock_wlimit);
	return note(__real_sendfile(out, in, o, n), want);
}
ssize_t __wrap_sendfile(int out, int in, off_t *o, size_t n) { return do_sendfile(out, in, o, n); }
ssize_t __wrap_sendfile64(int out, int in, off64_t *o, size_t n) { return do_sendfile(out, in, (off_t *)o, n); }
ssize_t __real_copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned fl);
ssize_t __wrap_copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned fl) {
	int f = fsop(OP_COPY);
	if (f == 1) return -1;
	if (f == 2) die();
	ssize_t r = __real_copy_file_range(a, ao, b, bo, n, fl);
	fsop_done(OP_COPY);
	return r;
}

ssize_t __real_pread(int fd, void *b, size_t n, off_t o);
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) {
	if (S->f_mask & (1 << OP_PREAD)) {
		int f = fsop(OP_PREAD);
		if (f == 1) {
			if (S->f_short && n > 1) return __real_pread(fd, b, n / 2, o);
			return -1;
		}
	}
	return __real_pread(fd, b, n, o);
}
ssize_t __wrap_pread64(int fd, void *b, size_t n, off64_t o) { return __wrap_pread(fd, b, n, o); }

/* ---- files ---- */
int __real_open(const char *p, int fl, ...);
static int do_open(const char *p, int fl, mode_t m) {
	int op = (fl & (O_CREAT | O_TRUNC)) ? OP_OPEN : OP_OPENRD;
	int f = 0;
	if (op == OP_OPEN) f = fsop(op);
	else if (S->f_mask & (1 << OP_OPENRD)) f = fsop(op);
	if (f == 1) return -1;
	int r = __real_open(p, fl, m);
	if (f == 2) die();
	if (op == OP_OPEN) fsop_done(op);
	return r;
}
int __wrap_open(const char *p, int fl, ...) {
	va_list ap; va_start(ap, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
	return do_open(p, fl, m);
}
int __wrap_open64(const char *p, int fl, ...) {
	va_list ap; va_start(ap, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
	return do_open(p, fl | O_LARGEFILE, m);
}
#define SIMPLE(ret, name, op, args, call) \
	ret __real_##name args; \
	ret __wrap_##name args { int f = fsop(op); if (f == 1) return -1; ret r = __real_##name call; if (f == 2) die(); fsop_done(op); return r; }
SIMPLE(int, ftruncate, OP_TRUNC, (int fd, off_t l), (fd, l))
SIMPLE(int, ftruncate64, OP_TRUNC, (int fd, off64_t l), (fd, l))
SIMPLE(int, rename, OP_RENAME, (const char *a, const char *b), (a, b))
SIMPLE(int, link, OP_RENAME, (const char *a, const char *b), (a, b))
SIMPLE(int, unlink, OP_UNLINK, (const char *a), (a))
SIMPLE(int, fdatasync, OP_SYNC, (int fd), (fd))
SIMPLE(int, fsync, OP_SYNC, (int fd), (fd))
off_t __real_lseek(int fd, off_t o, int w);
off_t __wrap_lseek(int fd, off_t o, int w) {
	if ((S->f_mask & (1 << OP_SEEK)) && fsop(OP_SEEK) == 1) return -1;
	return __real_lseek(fd, o, w);
}
off64_t __wrap_lseek64(int fd, off64_t o, int w) { return __wrap_lseek(fd, o, w); }
ssize_t __real_getline(char **b, size_t *n, FILE *f);
ssize_t __wrap_getline(char **b, size_t *n, FILE *f) {
	if ((S->f_mask & (1 << OP_LINE)) && fsop(OP_LINE) == 1) {
		f->_flags |= 0x20;      /* what ferror() looks at in glibc */
		return -1;
	}
	return __real_getline(b, n, f);
}
int __real_access(const char *p, int m);
int __wrap_access(const char *p, int m) {
	if ((S->f_mask & (1 << OP_ACCESS)) && fsop(OP_ACCESS) == 1) return -1;
	return __real_access(p, m);
}
int __real_mkdir(const char *p, mode_t m);
int __wrap_mkdir(const char *p, mode_t m) {
	if ((S->f_mask & (1 << OP_MKDIR)) && fsop(OP_MKDIR) == 1) return -1;
	return __real_mkdir(p, m);
}
pid_t __real_fork(void);
pid_t __wrap_fork(void) {
	if (S != &dummy) {
		int f = fsop(OP_FORK);
		if (f == 1) return -1;
		if (f == 2) die();
		__atomic_add_fetch(&S->forks, 1, __ATOMIC_SEQ_CST);
	}
	pid_t p = __real_fork();
	if (p > 0 && S->fork_wait && !is_child()) {
		siginfo_t si;
		int saved = errno;
		while (waitid(P_PID, p, &si, WEXITED | WNOWAIT) == -1 && errno == EINTR);
		errno = saved;
	}
	return p;
}

/* ---- quiet debug output: DEBUG() lines start with "[#" ---- */
int __wrap_fprintf(FILE *f, const char *fmt, ...) {
	if (fmt[0] == '[' && fmt[1] == '#') return 0;
	unsafe("fprintf");
	va_list ap;
	va_start(ap, fmt);
	int r = vfprintf(f, fmt, ap);
	va_end(ap);
	return r;
}

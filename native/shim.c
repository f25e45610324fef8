// Preloaded into the programs under test (never into the commands they run, whose environment is only what is configured).
// Controls by environment, all optional:
//   SHIM_SHORT=seed:max:percent   short transfers on pipes and sockets (as the kernel may do)
//   SHIM_DELAY=seed:maxus:percent delays before system calls (different schedules)
//   SHIM_SIGNAL=k:sig             the server process gets the signal right before its k-th system call counted from the first file creation
//   SHIM_DAEMON=1                 ... where the server process is the first forked child
//   SHIM_FAIL=func:n:errno        the n-th (from 1) call of func fails ("func:n:short" transfers about half of it; a failing close also loses half of the written file, like delayed writes that failed)
//   SHIM_FAR=ms                   with SHIM_WARP: the time of interest, for programs that wait in many small steps
//   SHIM_WARP=ms                  virtual monotonic time: sleeping takes no time, polling at most ms of real time per call
//   SHIM_CONNECT_AT=ms            connections are refused before this virtual time (-1: never possible)
//   SHIM_JUMP=seed                the wall clock is set forth and back all the time
//   SHIM_LOG=file                 one line per interesting event
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static int inited, isTarget = 1, armed, forks, daemonMode, sigNum, shortMax, shortPct, delayMax, delayPct, failNth, failErrno, failShort;
static long sigAt = -1, calls, failCount;
static uint64_t shortState = 88172645463325252ULL, delayState = 88172645463325252ULL;
static char failFunc[32], logFile[4096];
static long long warpMs, farMs = -1, offsetNs, connectAt; static int haveConnectAt;
static long long startNs, jumpSeconds;
static uint64_t jumpState; // the wall clock gets set now and then (if this is not 0)

static uint64_t rnd(uint64_t *s) { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; return *s; }
static long long realNs(void) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }

static void init(void)
{
	if (inited) return;
	inited = 1;
	const char *e; unsigned long long a; int b, c; long l;
	if ((e = getenv("SHIM_SHORT")) && sscanf(e, "%llu:%d:%d", &a, &b, &c) == 3) { shortState += a * 0x9e3779b97f4a7c15ULL; shortMax = b; shortPct = c; }
	if ((e = getenv("SHIM_DELAY")) && sscanf(e, "%llu:%d:%d", &a, &b, &c) == 3) { delayState += a * 0x9e3779b97f4a7c15ULL; delayMax = b; delayPct = c; }
	if ((e = getenv("SHIM_SIGNAL")) && sscanf(e, "%ld:%d", &l, &b) == 2) { sigAt = l; sigNum = b; }
	if ((e = getenv("SHIM_DAEMON"))) daemonMode = atoi(e);
	if ((e = getenv("SHIM_FAIL"))) { char v[32] = ""; if (sscanf(e, "%31[^:]:%d:%31s", failFunc, &failNth, v) == 3) { failShort = !strcmp(v, "short"); failErrno = atoi(v); } }
	if ((e = getenv("SHIM_JUMP"))) jumpState += 88172645463325252ULL + strtoull(e, NULL, 10) * 0x9e3779b97f4a7c15ULL;
	if ((e = getenv("SHIM_WARP"))) warpMs = atoll(e);
	if ((e = getenv("SHIM_FAR"))) farMs = atoll(e);
	if ((e = getenv("SHIM_CONNECT_AT"))) { haveConnectAt = 1; connectAt = atoll(e); }
	if ((e = getenv("SHIM_LOG"))) snprintf(logFile, sizeof(logFile), "%s", e);
	startNs = realNs();
}
__attribute__((constructor)) static void ctor(void) { init(); }

static void logLine(const char *fmt, ...)
{
	if (!logFile[0]) return;
	char line[512]; int e = errno; va_list ap; va_start(ap, fmt); int n = vsnprintf(line, sizeof(line), fmt, ap); va_end(ap);
	int fd = syscall(SYS_openat, AT_FDCWD, logFile, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666);
	if (fd >= 0) { syscall(SYS_write, fd, line, n); syscall(SYS_close, fd); }
	errno = e;
}

static long long virtualMs(void) { return (realNs() - startNs + offsetNs) / 1000000; }

static void point(const char *name)
{
	init();
	int e = errno;
	if (delayPct && (int)(rnd(&delayState) % 100) < delayPct) { struct timespec t = { 0, (long)(rnd(&delayState) % (uint64_t)(delayMax + 1)) * 1000 }; syscall(SYS_nanosleep, &t, NULL); }
	if (sigAt >= 0 && isTarget && armed && calls++ == sigAt) { logLine("signal %d before %s at %ld\n", sigNum, name, sigAt); kill(getpid(), sigNum); }
	errno = e;
}

static int failing(const char *name) { return failNth && !strcmp(name, failFunc) && ++failCount == failNth; }
static size_t shorten(size_t n) { return shortPct && n > 1 && (int)(rnd(&shortState) % 100) < shortPct ? 1 + rnd(&shortState) % (n < (size_t)shortMax ? n - 1 : (size_t)shortMax) : n; }
static int isStream(int fd) { struct stat st; return fstat(fd, &st) == 0 && (S_ISFIFO(st.st_mode) || S_ISSOCK(st.st_mode)); }

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
#define FAIL(name, bad) if (failing(name)) { logLine("fail %s\n", name); errno = failErrno; return bad; }

ssize_t read(int fd, void *b, size_t n)
{
	REAL(ssize_t, read, int, void *, size_t); point("read");
	if (failing("read")) { logLine("fail read\n"); if (failShort) return real(fd, b, n > 1 ? n / 2 : n); errno = failErrno; return -1; }
	return real(fd, b, isStream(fd) ? shorten(n) : n);
}
ssize_t write(int fd, const void *b, size_t n)
{
	REAL(ssize_t, write, int, const void *, size_t); point("write");
	if (failing("write")) { logLine("fail write\n"); if (failShort) return real(fd, b, n > 1 ? n / 2 : n); errno = failErrno; return -1; }
	return real(fd, b, isStream(fd) && (fcntl(fd, F_GETFL) & O_NONBLOCK) ? shorten(n) : n);
}
ssize_t recv(int fd, void *b, size_t n, int f) { REAL(ssize_t, recv, int, void *, size_t, int); point("recv"); FAIL("recv", -1) return real(fd, b, shorten(n), f); }
ssize_t send(int fd, const void *b, size_t n, int f) { REAL(ssize_t, send, int, const void *, size_t, int); point("send"); FAIL("send", -1) return real(fd, b, shorten(n), f); }
int accept(int fd, struct sockaddr *a, socklen_t *l) { REAL(int, accept, int, struct sockaddr *, socklen_t *); point("accept"); FAIL("accept", -1) int r = real(fd, a, l); logLine("accept %d %lld\n", r >= 0, virtualMs()); return r; }
int accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { REAL(int, accept4, int, struct sockaddr *, socklen_t *, int); point("accept"); FAIL("accept", -1) int r = real(fd, a, l, f); logLine("accept %d %lld\n", r >= 0, virtualMs()); return r; }
int close(int fd)
{
	REAL(int, close, int); point("close");
	struct stat st; int fl;
	if (failNth && !strcmp(failFunc, "close") && fstat(fd, &st) == 0 && S_ISREG(st.st_mode) && (fl = fcntl(fd, F_GETFL)) >= 0 && (fl & O_ACCMODE) != O_RDONLY && failing("close")) { logLine("fail close\n"); if (ftruncate(fd, st.st_size / 2)) {} real(fd); errno = failErrno; return -1; }
	return real(fd);
}
int kill(pid_t p, int s) { REAL(int, kill, pid_t, int); if (p != getpid()) point("kill"); return real(p, s); }
pid_t waitpid(pid_t p, int *s, int o) { REAL(pid_t, waitpid, pid_t, int *, int); point("waitpid"); return real(p, s, o); }
pid_t wait(int *s) { REAL(pid_t, wait, int *); point("wait"); return real(s); }
int symlink(const char *a, const char *b) { REAL(int, symlink, const char *, const char *); point("symlink"); FAIL("symlink", -1) int r = real(a, b); if (r == 0) { armed = 1; point("symlinked"); } return r; }
int symlinkat(const char *a, int d, const char *b) { REAL(int, symlinkat, const char *, int, const char *); point("symlink"); FAIL("symlink", -1) int r = real(a, d, b); if (r == 0) { armed = 1; point("symlinked"); } return r; }
int unlinkat(int d, const char *a, int f) { REAL(int, unlinkat, int, const char *, int); point("unlink"); return real(d, a, f); }
int remove(const char *a) { REAL(int, remove, const char *); point("unlink"); return real(a); }
int linkat(int c, const char *a, int d, const char *b, int f) { REAL(int, linkat, int, const char *, int, const char *, int); point("link"); FAIL("link", -1) return real(c, a, d, b, f); }
int unlink(const char *a) { REAL(int, unlink, const char *); point("unlink"); return real(a); }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *); point("link"); FAIL("link", -1) return real(a, b); }
int chdir(const char *a) { REAL(int, chdir, const char *); point("chdir"); return real(a); }
pid_t setsid(void) { REAL(pid_t, setsid, void); point("setsid"); return real(); }
int dup2(int a, int b) { REAL(int, dup2, int, int); point("dup2"); return real(a, b); }
int pipe(int p[2]) { REAL(int, pipe, int *); point("pipe"); FAIL("pipe", -1) return real(p); }
int pipe2(int p[2], int f) { REAL(int, pipe2, int *, int); point("pipe"); FAIL("pipe", -1) return real(p, f); }
int dup3(int a, int b, int f) { REAL(int, dup3, int, int, int); point("dup2"); return real(a, b, f); }
int sigaction(int s, const struct sigaction *a, struct sigaction *b) { REAL(int, sigaction, int, const struct sigaction *, struct sigaction *); point("sigaction"); return real(s, a, b); }
int chmod(const char *p, mode_t m) { REAL(int, chmod, const char *, mode_t); point("fchmod"); FAIL("fchmod", -1) return real(p, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { REAL(int, fchmodat, int, const char *, mode_t, int); point("fchmod"); FAIL("fchmod", -1) return real(d, p, m, f); }
int sigprocmask(int h, const sigset_t *a, sigset_t *b) { REAL(int, sigprocmask, int, const sigset_t *, sigset_t *); point("sigprocmask"); return real(h, a, b); }
__sighandler_t signal(int s, __sighandler_t h) { REAL(__sighandler_t, signal, int, __sighandler_t); point("signal"); return real(s, h); }
int execv(const char *p, char *const a[]) { REAL(int, execv, const char *, char *const *); point("execv"); return real(p, a); }
int execvp(const char *p, char *const a[]) { REAL(int, execvp, const char *, char *const *); point("execvp"); return real(p, a); }
int shutdown(int fd, int h) { REAL(int, shutdown, int, int); point("shutdown"); return real(fd, h); }
int fchmod(int fd, mode_t m) { REAL(int, fchmod, int, mode_t); point("fchmod"); FAIL("fchmod", -1) return real(fd, m); }
int setsockopt(int fd, int l, int n, const void *v, socklen_t s) { REAL(int, setsockopt, int, int, int, const void *, socklen_t); point("setsockopt"); return real(fd, l, n, v, s); }

pid_t fork(void)
{
	REAL(pid_t, fork, void); point("fork"); FAIL("fork", -1)
	int first = forks++ == 0; if (first) logLine("fork %ld\n", calls); pid_t p = real();
	if (p == 0) { if (!(daemonMode && first)) isTarget = 0; shortState += (uint64_t)getpid() * 2654435761u; delayState += (uint64_t)getpid() * 2654435761u; }
	else if (daemonMode && first) isTarget = 0;
	return p;
}

static int doOpen(int (*real)(const char *, int, ...), const char *p, int f, mode_t m)
{
	point("open"); FAIL("open", -1)
	int r = real(p, f, m);
	if (r >= 0 && (f & O_CREAT)) { armed = 1; point("opened"); }
	return r;
}
int open(const char *p, int f, ...) { static int (*real)(const char *, int, ...); if (!real) real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open"); mode_t m = 0; if (f & O_CREAT) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } return doOpen(real, p, f, m); }
int open64(const char *p, int f, ...) { static int (*real)(const char *, int, ...); if (!real) real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open64"); mode_t m = 0; if (f & O_CREAT) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } return doOpen(real, p, f, m); }

int openat(int d, const char *p, int f, ...)
{
	REAL(int, openat, int, const char *, int, ...); mode_t m = 0; if (f & O_CREAT) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); }
	point("open"); FAIL("open", -1)
	int r = real(d, p, f, m);
	if (r >= 0 && (f & O_CREAT)) { armed = 1; point("opened"); }
	return r;
}

int connect(int fd, const struct sockaddr *a, socklen_t l)
{
	REAL(int, connect, int, const struct sockaddr *, socklen_t); point("connect");
	if (haveConnectAt) { long long v = virtualMs(); int ok = connectAt >= 0 && v >= connectAt; logLine("connect %d %lld\n", ok, v); if (!ok) { errno = ECONNREFUSED; return -1; } }
	return real(fd, a, l);
}

static long long jump(void)
{
	static const long long sizes[] = { 0, 0, 1, -1, 10, -10, 3600, -3600, 86400 * 365, -86400 * 365, 86400LL * 365 * 30 };
	if (rnd(&jumpState) % 4 == 0) jumpSeconds = sizes[rnd(&jumpState) % (sizeof(sizes) / sizeof(sizes[0]))];
	return jumpSeconds;
}
time_t time(time_t *t) { struct timespec n; clock_gettime(CLOCK_REALTIME, &n); if (t) *t = n.tv_sec; return n.tv_sec; }
int gettimeofday(struct timeval *t, void *z) { struct timespec n; clock_gettime(CLOCK_REALTIME, &n); t->tv_sec = n.tv_sec; t->tv_usec = n.tv_nsec / 1000; return 0; }
int clock_gettime(clockid_t c, struct timespec *t)
{
	int r = syscall(SYS_clock_gettime, c, t);
	if (r == 0 && jumpState && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += jump();
	if (r == 0 && warpMs && (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME))
	{
		long long ns = t->tv_nsec + offsetNs % 1000000000LL;
		t->tv_sec += offsetNs / 1000000000LL + ns / 1000000000LL; t->tv_nsec = ns % 1000000000LL;
	}
	return r;
}

static int sleepNs(long long ns) { struct timespec t = { 0, 200000 }; if (ns > 0) { offsetNs += ns; syscall(SYS_nanosleep, &t, NULL); } return 0; }
int nanosleep(const struct timespec *t, struct timespec *r)
{
	REAL(int, nanosleep, const struct timespec *, struct timespec *); init();
	return warpMs ? sleepNs(t->tv_sec * 1000000000LL + t->tv_nsec) : real(t, r);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *r)
{
	REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *); init();
	if (!warpMs) return real(c, f, t, r);
	long long ns = t->tv_sec * 1000000000LL + t->tv_nsec;
	if (f & TIMER_ABSTIME) { struct timespec n; clock_gettime(c, &n); ns -= n.tv_sec * 1000000000LL + n.tv_nsec; }
	return sleepNs(ns);
}
int usleep(useconds_t u) { REAL(int, usleep, useconds_t); init(); return warpMs ? sleepNs(u * 1000LL) : real(u); }
unsigned sleep(unsigned s) { REAL(unsigned, sleep, unsigned); init(); return warpMs ? (unsigned)sleepNs(s * 1000000000LL) : real(s); }

// Waiting in virtual time. A program may wait in small steps as well: after many of them without any event, one step skips half of what is left until SHIM_FAR
// (as if the system had been suspended during that step).
static long idle;
static int step(long long timeout) { return timeout < 0 || timeout > warpMs ? (int)(idle < 50 ? warpMs : 1) : (int)(idle < 50 ? timeout : timeout < 1 ? timeout : 1); }
static void waited(const char *what, int r, long long timeout, long long before)
{
	if (r) { idle = 0; return; }
	long long left = timeout * 1000000LL - (realNs() - before), now = virtualMs();
	if (++idle > 50 && farMs >= 0 && now + timeout < farMs - 20000 && timeout < farMs - 20000) left = (farMs - 10000 - now) / 2 * 1000000LL;
	if (left > 0) offsetNs += left;
	logLine("%s %lld %lld\n", what, timeout, virtualMs());
}
int poll(struct pollfd *p, nfds_t n, int timeout)
{
	REAL(int, poll, struct pollfd *, nfds_t, int); point("poll");
	if (!warpMs || timeout <= 0) return real(p, n, timeout);
	long long before = realNs();
	int r = real(p, n, step(timeout));
	waited("poll", r, timeout, before);
	return r;
}
int ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *m)
{
	REAL(int, ppoll, struct pollfd *, nfds_t, const struct timespec *, const sigset_t *); point("ppoll");
	long long timeout = t ? t->tv_sec * 1000LL + (t->tv_nsec + 999999) / 1000000 : -1;
	if (!warpMs || timeout <= 0) return real(p, n, t, m);
	long long before = realNs();
	struct timespec s = { 0, step(timeout) * 1000000LL }; s.tv_sec = s.tv_nsec / 1000000000LL; s.tv_nsec %= 1000000000LL;
	int r = real(p, n, &s, m);
	waited("ppoll", r, timeout, before);
	return r;
}
int select(int n, fd_set *a, fd_set *b, fd_set *c, struct timeval *t)
{
	REAL(int, select, int, fd_set *, fd_set *, fd_set *, struct timeval *); point("select");
	long long timeout = t ? t->tv_sec * 1000LL + (t->tv_usec + 999) / 1000 : -1;
	if (!warpMs || timeout <= 0) return real(n, a, b, c, t);
	long long before = realNs();
	struct timeval s = { step(timeout) / 1000, step(timeout) % 1000 * 1000 };
	int r = real(n, a, b, c, &s);
	waited("select", r, timeout, before);
	return r;
}
int epoll_wait(int e, struct epoll_event *v, int n, int timeout)
{
	REAL(int, epoll_wait, int, struct epoll_event *, int, int); point("epoll_wait");
	if (!warpMs || timeout <= 0) return real(e, v, n, timeout);
	long long before = realNs();
	int r = real(e, v, n, step(timeout));
	waited("epoll_wait", r, timeout, before);
	return r;
}
void abort(void)
{
	static void (*real)(void); if (!real) real = (void (*)(void))dlsym(RTLD_NEXT, "abort");
	if (warpMs) logLine("exit %ld %lld\n", calls, virtualMs());
	real(); __builtin_unreachable();
}
__attribute__((destructor)) static void dtor(void) { if (isTarget && (sigAt >= 0 || warpMs)) logLine("exit %ld %lld\n", calls, virtualMs()); }

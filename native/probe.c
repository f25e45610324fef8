// The program run as the "remote command" (and a few helpers that have to run as the unprivileged user).
// usage: probe EVFILE op...        - executes the operations in order, recording events in EVFILE
//        probe R:FILE args...      - writes a report about itself into FILE and exits with 0
//        probe killall|fds PID|dirfd...
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern char **environ;
static char ev[4096];
static volatile int trapExit = -1;

static long long nowUs(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000LL + t.tv_nsec / 1000; }

static size_t putNum(char *b, long long v)
{
	char t[24]; size_t n = 0, i = 0; unsigned long long u = v < 0 ? -(unsigned long long)v : (unsigned long long)v;
	if (v < 0) b[i++] = '-';
	do t[n++] = '0' + u % 10; while (u /= 10);
	while (n) b[i++] = t[--n];
	return i;
}

static void event(const char *name, long long a, long long b) // async-signal-safe
{
	char line[256]; size_t n = 0; int e = errno;
	while (*name && n < 100) line[n++] = *name++;
	line[n++] = ' '; n += putNum(line + n, a); line[n++] = ' '; n += putNum(line + n, b);
	line[n++] = ' '; n += putNum(line + n, getpid()); line[n++] = ' '; n += putNum(line + n, nowUs()); line[n++] = '\n';
	int fd = open(ev, O_WRONLY | O_APPEND | O_CREAT, 0666);
	if (fd >= 0) { if (write(fd, line, n) < 0) { } close(fd); }
	errno = e;
}

static void onSignal(int s) { event("sig", s, 0); if (trapExit >= 0) _exit(trapExit); }
static void msleep(long long us) { struct timespec t = { us / 1000000, us % 1000000 * 1000 }; while (nanosleep(&t, &t) != 0 && errno == EINTR) ; }
static void hex(FILE *f, const char *s, size_t n) { fputc('"', f); for (size_t i = 0; i < n; i++) fprintf(f, "%02x", (unsigned char)s[i]); fputc('"', f); }

static void listFds(FILE *f, const char *dirname, int exclude)
{
	char link[4096], p[4500]; int first = 1;
	DIR *d = opendir(dirname); struct dirent *e;
	fputc('[', f);
	while (d && (e = readdir(d)))
	{
		if (e->d_name[0] == '.') continue;
		int n = atoi(e->d_name);
		if (exclude >= 0 && (n == dirfd(d) || n == exclude)) continue;
		snprintf(p, sizeof(p), "%s/%s", dirname, e->d_name);
		ssize_t l = readlink(p, link, sizeof(link));
		fprintf(f, "%s[%d,", first ? "" : ",", n); hex(f, link, l < 0 ? 0 : l); fputc(']', f); first = 0;
	}
	fputc(']', f);
	if (d) closedir(d);
}

static int report(const char *file, int argc, char **argv)
{
	char tmp[5000], buf[65536]; snprintf(tmp, sizeof(tmp), "%s.tmp.%d", file, (int)getpid());
	FILE *f = fopen(tmp, "w"); if (!f) return 98;
	fprintf(f, "{\"pid\":%d,\"ppid\":%d,\"sid\":%d,\"argv\":[", getpid(), getppid(), getsid(0));
	for (int i = 0; i < argc; i++) { if (i) fputc(',', f); hex(f, argv[i], strlen(argv[i])); }
	fprintf(f, "],\"env\":[");
	for (int i = 0; environ[i]; i++) { if (i) fputc(',', f); hex(f, environ[i], strlen(environ[i])); }
	fprintf(f, "],\"cwd\":");
	char *c = getcwd(buf, sizeof(buf)); hex(f, c ? c : "", c ? strlen(c) : 0);
	struct stat st; fprintf(f, ",\"cwdino\":"); if (stat(".", &st) == 0) fprintf(f, "%llu", (unsigned long long)st.st_ino); else fprintf(f, "0");
	ssize_t l = readlink("/proc/self/exe", buf, sizeof(buf)); fprintf(f, ",\"exe\":"); hex(f, buf, l < 0 ? 0 : l);
	fprintf(f, ",\"fds\":"); listFds(f, "/proc/self/fd", fileno(f));
	FILE *s = fopen("/proc/self/status", "r");
	while (s && fgets(buf, sizeof(buf), s))
	{
		unsigned long long v;
		if (sscanf(buf, "SigBlk: %llx", &v) == 1) fprintf(f, ",\"blocked\":%llu", v);
		if (sscanf(buf, "SigIgn: %llx", &v) == 1) fprintf(f, ",\"ignored\":%llu", v);
	}
	if (s) fclose(s);
	fprintf(f, "}\n"); fclose(f);
	return rename(tmp, file) == 0 ? 0 : 97;
}

static long long writeAll(int fd, const char *data, long long len, long long chunk, long long delay)
{
	long long done = 0;
	while (done < len)
	{
		long long want = chunk > 0 && chunk < len - done ? chunk : len - done;
		ssize_t n = write(fd, data + done, want);
		if (n < 0) { if (errno == EINTR) continue; event("werr", fd, errno); return done; }
		done += n;
		if (delay && done < len) msleep(delay);
	}
	return done;
}

static int run(int argc, char **argv, int i, int child)
{
	static char buf[1 << 20];
	for (; i < argc; i++)
	{
		const char *op = argv[i];
#define ARG(n) (i + (n) < argc ? argv[i + (n)] : "")
#define NUM(n) atoll(ARG(n))
		if (!strcmp(op, ")")) { if (child) _exit(0); }
		else if (!strcmp(op, "w")) // w FD FILE OFF LEN CHUNK DELAYUS
		{
			int f = open(ARG(2), O_RDONLY); long long off = NUM(3), len = NUM(4), chunk = NUM(5), delay = NUM(6), done = 0; int fd = NUM(1);
			char *d = malloc(len + 1); if (f < 0 || pread(f, d, len, off) != len) { event("harness-error", errno, 1); _exit(96); }
			close(f); done = writeAll(fd, d, len, chunk, delay); free(d);
			event("wrote", fd, done); i += 6;
		}
		else if (!strcmp(op, "r")) // r FILE N CHUNK DELAYUS  (N < 0: until end of file)
		{
			int f = open(ARG(1), O_WRONLY | O_CREAT | O_APPEND, 0666); long long n = NUM(2), chunk = NUM(3), delay = NUM(4), done = 0; int eof = 0;
			if (chunk <= 0 || chunk > (long long)sizeof(buf)) chunk = sizeof(buf);
			while (n < 0 || done < n)
			{
				ssize_t got = read(0, buf, n < 0 || n - done > chunk ? chunk : n - done);
				if (got < 0) { if (errno == EINTR) continue; event("rerr", errno, 0); break; }
				if (got == 0) { eof = 1; break; }
				if (write(f, buf, got) != got) { event("harness-error", errno, 2); _exit(96); }
				done += got;
				if (delay) msleep(delay);
			}
			close(f); event("read", done, eof); i += 4;
		}
		else if (!strcmp(op, "cat")) // cat CHUNK
		{
			long long chunk = NUM(1), done = 0; if (chunk <= 0 || chunk > (long long)sizeof(buf)) chunk = sizeof(buf);
			for (;;)
			{
				ssize_t got = read(0, buf, chunk);
				if (got < 0) { if (errno == EINTR) continue; break; }
				if (got == 0) break;
				if (writeAll(1, buf, got, 0, 0) != got) break;
				done += got;
			}
			event("cat", done, 0); i += 1;
		}
		else if (!strcmp(op, "lines")) // lines N REPLYFD : reads N newline terminated messages one byte at a time, and answers each with the same message
		{
			long long n = NUM(1); int fd = NUM(2);
			while (n-- > 0)
			{
				size_t k = 0; ssize_t got;
				do { got = read(0, buf + k, 1); if (got == 1) k++; } while ((got == 1 && buf[k - 1] != '\n' && k < sizeof(buf)) || (got < 0 && errno == EINTR));
				event("line", k, 0);
				writeAll(fd, buf, k, 0, 0);
				if (got <= 0) break;
			}
			i += 2;
		}
		else if (!strcmp(op, "flood")) // flood FD CHUNK : writes forever
		{
			int fd = NUM(1); long long chunk = NUM(2); memset(buf, 'f', chunk);
			for (;;) { ssize_t n = write(fd, buf, chunk); if (n < 0 && errno != EINTR) { event("floodend", errno, 0); break; } }
			i += 2;
		}
		else if (!strcmp(op, "close")) { close(NUM(1)); event("closed", NUM(1), 0); i += 1; }
		else if (!strcmp(op, "sleep")) { msleep(NUM(1) * 1000); i += 1; }
		else if (!strcmp(op, "exit")) { event("exit", NUM(1), 0); _exit(NUM(1)); }
		else if (!strcmp(op, "kill"))
		{
			struct sigaction sa = { 0 }; sa.sa_handler = SIG_DFL; int s = NUM(1); sigset_t m; prctl(PR_SET_DUMPABLE, 0);
			event("kill", s, 0); sigaction(s, &sa, NULL); sigemptyset(&m); sigaddset(&m, s); sigprocmask(SIG_UNBLOCK, &m, NULL);
			kill(getpid(), s); msleep(2000000); _exit(95);
		}
		else if (!strcmp(op, "mark")) { event(ARG(1), 0, 0); i += 1; }
		else if (!strcmp(op, "waitfile")) { while (access(ARG(1), F_OK) != 0) msleep(1000); i += 1; }
		else if (!strcmp(op, "report")) { if (report(ARG(1), argc, argv)) _exit(94); i += 1; }
		else if (!strcmp(op, "trap")) // trap EXITCODE|-1
		{
			struct sigaction sa = { 0 }; sa.sa_handler = onSignal; trapExit = NUM(1);
			int list[] = { SIGHUP, SIGINT, SIGQUIT, SIGTERM, SIGUSR1, SIGUSR2, SIGALRM, SIGPIPE, SIGCONT };
			for (size_t k = 0; k < sizeof(list) / sizeof(*list); k++) sigaction(list[k], &sa, NULL);
			event("trapped", 0, 0); i += 1;
		}
		else if (!strcmp(op, "("))
		{
			pid_t p = fork();
			if (p == 0) return run(argc, argv, i + 1, 1);
			int depth = 1; while (depth && ++i < argc) { if (!strcmp(argv[i], "(")) depth++; else if (!strcmp(argv[i], ")")) depth--; }
		}
		else if (!strcmp(op, "wait")) while (wait(NULL) > 0 || errno == EINTR) ;
		else if (!strcmp(op, "setsid")) setsid();
		else if (!strcmp(op, "nop")) ;
		else { event("bad-op", i, 0); _exit(93); }
	}
	if (child) _exit(0);
	return 0;
}

// Connects to a port as fast as possible from several processes, for some time; prints the number of connections
static int storm(int port, int seconds, int processes)
{
	long long end = nowUs() + seconds * 1000000LL; int p[2]; long long total = 0, n = 0; pid_t self = getpid();
	if (pipe(p) != 0) return 2;
	for (int i = 0; i < processes; i++)
	{
		if (fork() != 0) continue;
		prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != self) _exit(0);
		struct { unsigned short family, port; unsigned addr; char zero[8]; } a = { AF_INET, (unsigned short)(port << 8 | port >> 8), 0x0100007f, { 0 } };
		struct linger l = { 1, 0 }; int s[16]; size_t k = 0; memset(s, -1, sizeof(s));
		while (nowUs() < end)
		{
			if (s[k] >= 0) { setsockopt(s[k], SOL_SOCKET, SO_LINGER, &l, sizeof(l)); close(s[k]); }
			s[k] = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
			if (connect(s[k], (struct sockaddr *)&a, sizeof(a)) == 0 || errno == EINPROGRESS) n++;
			k = (k + 1) % (sizeof(s) / sizeof(*s));
			msleep(20);
		}
		_exit(write(p[1], &n, sizeof(n)) != sizeof(n));
	}
	close(p[1]);
	while (read(p[0], &n, sizeof(n)) == sizeof(n)) total += n;
	printf("%lld\n", total);
	return 0;
}

// start EVFILE [circumstance...] -- PROGRAM ARG... : executes the program in unusual circumstances
static int start(int argc, char **argv)
{
	int i;
	snprintf(ev, sizeof(ev), "%s", argv[2]);
	for (i = 3; i < argc && strcmp(argv[i], "--"); i++)
	{
		if (!strcmp(argv[i], "sub")) { if (prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0) != 0) return 91; } // orphans are adopted, as they are by the first process of a container
		else if (!strcmp(argv[i], "kid")) // kid MS : a child from before
		{
			int ms = NUM(1);
			pid_t p = fork();
			if (p == 0) { char t[24]; t[putNum(t, ms)] = 0; char *ops[] = { "trap", "-1", "mark", "kid", "sleep", t, "exit", "0", NULL }; return run(8, ops, 0, 1); }
			i += 1;
		}
		else if (!strcmp(argv[i], "ign")) { signal(NUM(1), SIG_IGN); i += 1; }
		else if (!strcmp(argv[i], "umask")) { umask(NUM(1)); i += 1; }
		else if (!strcmp(argv[i], "nice")) { if (nice(NUM(1)) == -1) { } i += 1; }
		else if (!strcmp(argv[i], "rmcwd")) { char d[4096]; if (!getcwd(d, sizeof(d)) || rmdir(d) != 0) return 91; }
		else if (!strcmp(argv[i], "fd")) { int d = open("/dev/null", O_RDWR); if (dup2(d, NUM(1)) < 0) return 91; if (d != NUM(1)) close(d); i += 1; }
		else return 91;
	}
	execv(argv[i + 1], argv + i + 1);
	return 90;
}

int main(int argc, char **argv)
{
	if (argc < 2) return 2;
	if (!strcmp(argv[1], "storm")) return storm(atoi(argv[2]), atoi(argv[3]), atoi(argv[4]));
	if (!strcmp(argv[1], "start")) return start(argc, argv);
	if (!strcmp(argv[1], "killall")) { kill(-1, SIGKILL); return 0; }
	if (!strcmp(argv[1], "kill")) { return kill(atoi(argv[2]), atoi(argv[3])) == 0 ? 0 : 1; }
	if (!strcmp(argv[1], "fds")) { char p[64]; snprintf(p, sizeof(p), "/proc/%s/fd", argv[2]); listFds(stdout, p, -1); return 0; }
	if (!strcmp(argv[1], "readlink")) { char b[4096]; ssize_t n = readlink(argv[2], b, sizeof(b)); return n < 0 || write(1, b, n) != n; }
	if (!strcmp(argv[1], "show")) { char b[65536]; int d = open(argv[2], O_RDONLY); ssize_t n = read(d, b, sizeof(b)); return n < 0 || write(1, b, n) != n; }
	if (!strncmp(argv[1], "R:", 2)) return report(argv[1] + 2, argc, argv);
	snprintf(ev, sizeof(ev), "%s", argv[1]);
	event("start", argc, 0);
	int r = run(argc, argv, 2, 0);
	event("end", r, 0);
	return r;
}

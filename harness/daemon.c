/*
 * Runs the whole daemon (run_daemon and everything below it) in a scripted
 * world: input devices, uinput, inotify, the clock and the clients of the
 * control socket are played by this file, and everything which crosses the
 * boundary is recorded.
 *
 * daemon SCENARIOS  (one process and one scratch directory per scenario)
 *
 *   S id                                start of a scenario
 *   B ms                                what the clock shows at time 0
 *   J seed max                          the daemon is woken up to max ms late
 *   V idx vendor product keys rels abss minx maxx miny maxy held name
 *                                       a device (lists are comma separated, - if empty)
 *   N idx                               ... which is there from the start
 *   L k                                 the configuration files are those of ./set<k>
 *   then, ordered by time:
 *   A t idx / X t idx                   the device is plugged in / unplugged
 *   E t idx type code value             input event
 *   C t client type timeout size hexdata how arg   a client connects
 *        how: full | eof (after arg bytes) | silent (after arg bytes) | drip (arg ms per quarter)
 *             | gone (full, then closed at once) | stall (full, never reads)
 *   R t client                          the client closes its end
 *   F t                                 the next accept fails
 *   K t                                 SIGTERM
 *   Q t                                 end of the scenario
 *   .
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdint.h>
#include <stdarg.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <poll.h>
#include <pthread.h>
#include <time.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <linux/input.h>
#include <linux/uinput.h>
#include "keyd.h"

int keyd_main(int argc, char **argv);
int __real_open(const char *, int, ...);
int __real_close(int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
int __real_ioctl(int, unsigned long, ...);
int __real_poll(struct pollfd *, nfds_t, int);
DIR *__real_opendir(const char *);
struct dirent *__real_readdir(DIR *);
int __real_closedir(DIR *);
ssize_t __real_recv(int, void *, size_t, int);

#define MAXDEV 160
#define MAXCLI 128
#define MAXFD 1024

static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static pid_t self;

/* ------------------------------------------------------------ the record */
static char *buf;
static size_t len, cap;
static int outfd = -1;
static int first = 1;

static void put(const char *fmt, ...)
{
	va_list ap;
	if (cap - len < 65536) {
		cap = cap ? cap * 2 : 1 << 18;
		buf = realloc(buf, cap);
	}
	va_start(ap, fmt);
	len += vsnprintf(buf + len, cap - len, fmt, ap);
	va_end(ap);
}

static void put_bytes(const char *s, size_t n)
{
	put("\"");
	for (; n; s++, n--) {
		unsigned char c = *s;
		if (c == '"' || c == '\\')
			put("\\%c", c);
		else if (c < 32 || c > 126)
			put("\\u%04x", c);
		else
			put("%c", c);
	}
	put("\"");
}

static void flush(void)
{
	size_t off = 0;
	while (off < len) {
		ssize_t w = __real_write(outfd, buf + off, len - off);
		if (w <= 0)
			break;
		off += w;
	}
	len = 0;
}

/* the entry being recorded */
static char head[16384];
static char *outs, *grabs;
static size_t nouts, ngrabs, capouts, capgrabs;
static int open_entry;
static long ncmd_off;
static int limited;
static long total_out;

static void app(char **b, size_t *n, size_t *c, const char *fmt, ...)
{
	va_list ap;
	if (*c - *n < 256)
		*b = realloc(*b, *c = *c ? *c * 2 : 4096);
	va_start(ap, fmt);
	*n += vsnprintf(*b + *n, *c - *n, fmt, ap);
	va_end(ap);
}

static void add_out(int dst, int type, int code, int value)
{
	if (++total_out > 60000) {
		limited = 1;
		return;
	}
	app(&outs, &nouts, &capouts, "%s[%d,%d,%d,%d]", nouts ? "," : "", dst, type, code, value);
}

static void close_entry(void)
{
	FILE *f;
	char *line = NULL;
	size_t sz = 0;
	if (!open_entry)
		return;
	while (waitpid(-1, NULL, 0) > 0 || errno == EINTR)
		;
	put("%s{%s,\"o\":[%.*s],\"g\":[%.*s],\"m\":[", first ? "" : ",", head, (int)nouts, outs ? outs : "",
	    (int)ngrabs, grabs ? grabs : "");
	first = 0;
	if ((f = fopen("cmdlog", "r"))) {
		int n = 0;
		fseek(f, ncmd_off, SEEK_SET);
		while (getdelim(&line, &sz, 0, f) > 0) {
			put(n++ ? "," : "");
			put_bytes(line, strlen(line));
		}
		ncmd_off = ftell(f);
		free(line);
		fclose(f);
	}
	put("]}");
	nouts = ngrabs = 0;
	open_entry = 0;
	flush();
}

static void entry(const char *fmt, ...)
{
	va_list ap;
	close_entry();
	va_start(ap, fmt);
	vsnprintf(head, sizeof head, fmt, ap);
	va_end(ap);
	open_entry = 1;
}

static void at_exit(void)
{
	if (getpid() != self)
		return;
	close_entry();
}

static void drain(int all);
static int strays(void);
static int strays_before;
static void finish(void)
{
	close_entry();
	drain(1);
	if (strays() > strays_before + 8)
		_exit(76);	/* it leaks descriptors */
	_exit(limited ? 81 : 77);
}

static void hang(void)
{
	close_entry();
	_exit(78);
}

/* ------------------------------------------------------------- the world */
static long long now;		/* us */
static long base = 1000000;	/* ms */
static uint64_t rng;
static int jmax;

static unsigned rnd(unsigned n)
{
	rng = rng * 6364136223846793005ULL + 1442695040888963407ULL;
	return (unsigned)(rng >> 33) % n;
}

static long ms(void)
{
	return now / 1000;
}

struct qev { struct input_event ev; struct qev *next; };
static struct dev {
	int defined, start, present, gone, grabbed, asked;
	int fd;
	unsigned vendor, product;
	uint8_t keys[KEY_MAX / 8 + 1];
	uint8_t rels, abss;
	int minx, maxx, miny, maxy;
	uint8_t held[KEY_MAX / 8 + 1];
	int nheld;
	char name[64];
	struct qev *q, *last;
} devs[MAXDEV];

static struct cli {
	int used, ours, theirs, stall, closed, eof;
	int accepted;
	char msg[sizeof(struct ipc_message)];
	size_t sz, sent;	/* bytes the client will send, bytes it has sent */
	int drip;		/* ms between portions, 0: all at once */
	int shut;		/* closes its sending side at the end */
	int gone;
	long long next;
	char desc[10240];
} clis[MAXCLI];
static int backlog[MAXCLI], nbacklog;
static int accept_fails;

enum { F_NONE, F_DEV, F_UI, F_MON, F_CLI };
static struct { int kind, idx; } fds[MAXFD];
static int monfd = -1;
static int monq[MAXDEV * 4], nmonq;

static struct ui { uint8_t ev[4], key[KEY_MAX / 8 + 1], rel[4], abs[16], led[4]; int created, ptr; } uis[4];
static int nuis;
static int started;

static void enq(struct dev *d, int type, int code, int value)
{
	struct qev *q = calloc(1, sizeof *q);
	q->ev.type = type;
	q->ev.code = code;
	q->ev.value = value;
	if (d->last)
		d->last->next = q;
	else
		d->q = q;
	d->last = q;
}

static int fresh(int kind, int idx)
{
	int fd = __real_open("/dev/null", O_RDWR | O_CLOEXEC);
	if (fd < 0 || fd >= MAXFD)
		abort();
	fds[fd].kind = kind;
	fds[fd].idx = idx;
	return fd;
}

/* Open descriptors which are neither devices nor connections in use */
static int strays(void)
{
	int fd, i, n = 0;
	for (fd = 3; fd < MAXFD; fd++) {
		if (fd == outfd || fcntl(fd, F_GETFD) < 0)
			continue;
		if (fds[fd].kind == F_DEV && devs[fds[fd].idx].fd == fd)
			continue;
		if (fds[fd].kind == F_UI || fds[fd].kind == F_MON || fds[fd].kind == F_CLI)
			continue;
		for (i = 0; i < MAXCLI; i++)
			if (clis[i].used && (clis[i].ours == fd || (clis[i].theirs == fd && !clis[i].accepted)))
				break;
		n += i == MAXCLI;
	}
	return n;
}

static int dev_by_path(const char *p)
{
	int i = -1;
	if (strncmp(p, "/dev/input/event", 16))
		return -1;
	i = atoi(p + 16);
	return i >= 0 && i < MAXDEV ? i : -1;
}

int __wrap_open(const char *path, int flags, ...)
{
	va_list ap;
	mode_t mode;
	int fd;
	va_start(ap, flags);
	mode = va_arg(ap, mode_t);
	va_end(ap);
	if (!strncmp(path, "/dev/input/", 11)) {
		int i = dev_by_path(path);
		pthread_mutex_lock(&lock);
		if (i < 0 || !devs[i].present) {
			pthread_mutex_unlock(&lock);
			errno = ENOENT;
			return -1;
		}
		if (started)
			entry("\"k\":\"a\",\"dev\":%d,\"t\":%ld", i, ms());
		fd = fresh(F_DEV, i);
		devs[i].fd = fd;
		pthread_mutex_unlock(&lock);
		return fd;
	}
	if (!strcmp(path, "/dev/uinput")) {
		if (nuis == 4)
			abort();
		return fresh(F_UI, nuis++);
	}
	return __real_open(path, flags, mode);
}
int __wrap_open64(const char *path, int flags, ...)
{
	va_list ap;
	mode_t mode;
	va_start(ap, flags);
	mode = va_arg(ap, mode_t);
	va_end(ap);
	return __wrap_open(path, flags, mode);
}

int __wrap_close(int fd)
{
	if (fd >= 0 && fd < MAXFD) {
		if (fds[fd].kind == F_DEV) {
			struct dev *d = &devs[fds[fd].idx];
			if (d->fd == fd) {
				d->fd = -1;
				d->grabbed = 0;
			}
		}
		fds[fd].kind = F_NONE;
	}
	return __real_close(fd);
}

static int bit(const uint8_t *m, int i)
{
	return m[i / 8] >> (i % 8) & 1;
}

int __wrap_ioctl(int fd, unsigned long req, ...)
{
	va_list ap;
	void *arg;
	unsigned nr = _IOC_NR(req), sz = _IOC_SIZE(req);
	int ret = 0;

	va_start(ap, req);
	arg = va_arg(ap, void *);
	va_end(ap);
	if (fd < 0 || fd >= MAXFD || fds[fd].kind == F_NONE) {
		errno = EBADF;
		return -1;
	}
	pthread_mutex_lock(&lock);
	if (fds[fd].kind == F_UI) {
		struct ui *u = &uis[fds[fd].idx];
		unsigned long v = (unsigned long)arg;
		switch (req) {
		case UI_SET_EVBIT: u->ev[v / 8] |= 1 << v % 8; if (v == EV_REL) u->ptr = 1; break;
		case UI_SET_KEYBIT: if (v <= KEY_MAX) u->key[v / 8] |= 1 << v % 8; break;
		case UI_SET_RELBIT: if (v < 32) u->rel[v / 8] |= 1 << v % 8; break;
		case UI_SET_ABSBIT: if (v < 128) u->abs[v / 8] |= 1 << v % 8; break;
		case UI_SET_LEDBIT: if (v < 32) u->led[v / 8] |= 1 << v % 8; break;
		case UI_DEV_CREATE: u->created = 1; break;
		}
	} else if (fds[fd].kind == F_DEV) {
		struct dev *d = &devs[fds[fd].idx];
		if (d->gone) {
			errno = ENODEV;
			ret = -1;
		} else if (nr == 0x20 + EV_KEY || nr == 0x20 + EV_REL || nr == 0x20 + EV_ABS) {
			uint8_t z[1] = { nr == 0x20 + EV_REL ? d->rels : d->abss };
			const uint8_t *src = nr == 0x20 + EV_KEY ? d->keys : z;
			size_t n = nr == 0x20 + EV_KEY ? sizeof d->keys : 1;
			memset(arg, 0, sz);
			memcpy(arg, src, n < sz ? n : sz);
			ret = n < sz ? n : sz;
		} else if (nr == _IOC_NR(EVIOCGNAME(0))) {
			snprintf(arg, sz, "%s", d->name);
		} else if (nr == _IOC_NR(EVIOCGID)) {
			struct input_id *id = arg;
			memset(id, 0, sizeof *id);
			id->vendor = d->vendor;
			id->product = d->product;
		} else if (nr == 0x40 + ABS_X || nr == 0x40 + ABS_Y) {
			struct input_absinfo *a = arg;
			memset(a, 0, sizeof *a);
			a->minimum = nr == 0x40 ? d->minx : d->miny;
			a->maximum = nr == 0x40 ? d->maxx : d->maxy;
		} else if (nr == _IOC_NR(EVIOCGKEY(0))) {
			memset(arg, 0, sz);
			memcpy(arg, d->held, sizeof d->held < sz ? sizeof d->held : sz);
			/* The user lets go of the keys after a while. */
			if (d->nheld && ++d->asked == 3) {
				int i;
				for (i = 0; i <= KEY_MAX; i++)
					if (bit(d->held, i))
						enq(d, EV_KEY, i, 0);
				memset(d->held, 0, sizeof d->held);
				d->nheld = 0;
			}
		} else if (nr == _IOC_NR(EVIOCGRAB)) {
			int on = arg != NULL;
			app(&grabs, &ngrabs, &capgrabs, "%s[%d,%d,%d]", ngrabs ? "," : "", (int)(d - devs), on, d->nheld);
			d->grabbed = on;
		}
	}
	pthread_mutex_unlock(&lock);
	return ret;
}

/* --------------------------------------------------- directories, inotify */
static char inputdir;
static int inputpos;
static struct dirent inputent;

DIR *__wrap_opendir(const char *p)
{
	if (!strncmp(p, "/dev/input", 10)) {
		inputpos = -2;
		return (DIR *)&inputdir;
	}
	return __real_opendir(p);
}

struct dirent *__wrap_readdir(DIR *d)
{
	if (d != (DIR *)&inputdir)
		return __real_readdir(d);
	memset(&inputent, 0, sizeof inputent);
	inputent.d_type = DT_CHR;
	if (inputpos == -2) {
		inputent.d_type = DT_DIR;
		strcpy(inputent.d_name, "eventual");
		inputpos++;
		return &inputent;
	}
	if (inputpos == -1) {
		strcpy(inputent.d_name, "mice");
		inputpos++;
		return &inputent;
	}
	while (inputpos < MAXDEV) {
		int i = inputpos++;
		if (devs[i].defined && devs[i].start) {
			sprintf(inputent.d_name, "event%d", i);
			return &inputent;
		}
	}
	return NULL;
}
struct dirent *__wrap_readdir64(DIR *d)
{
	return __wrap_readdir(d);
}

int __wrap_closedir(DIR *d)
{
	return d == (DIR *)&inputdir ? 0 : __real_closedir(d);
}

int __wrap_inotify_init1(int flags)
{
	(void)flags;
	return monfd = fresh(F_MON, 0);
}
int __wrap_inotify_init(void)
{
	return __wrap_inotify_init1(0);
}
int __wrap_inotify_add_watch(int fd, const char *p, uint32_t mask)
{
	(void)fd; (void)p; (void)mask;
	return 1;
}

/* -------------------------------------------------------- reads and writes */
static struct cli *cli_of(int fd)
{
	return fd >= 0 && fd < MAXFD && fds[fd].kind == F_CLI ? &clis[fds[fd].idx] : NULL;
}

/* What the client sends until the present moment */
static void cli_send(struct cli *c)
{
	while (c->sent < c->sz && now >= c->next) {
		size_t n = c->drip ? (c->sz + 3) / 4 : c->sz;
		if (n > c->sz - c->sent)
			n = c->sz - c->sent;
		if (send(c->ours, c->msg + c->sent, n, MSG_NOSIGNAL) < 0) {
			c->sent = c->sz;
			break;
		}
		c->sent += n;
		c->next += c->drip * 1000LL;
	}
	if (c->sent == c->sz && c->shut == 1) {
		shutdown(c->ours, SHUT_WR);
		c->shut = 2;
	}
	if (c->sent == c->sz && c->gone && !c->closed) {
		__real_close(c->ours);
		c->closed = 1;
	}
}

static int readable(int fd)
{
	struct pollfd p = { fd, POLLIN, 0 };
	return __real_poll(&p, 1, 0) > 0;
}

/* A blocking read of a client: time passes until there is something. */
static void await(int fd)
{
	struct cli *c = cli_of(fd);
	static int eofs;
	cli_send(c);
	while (!readable(fd)) {
		if (c->sent == c->sz)
			hang();
		now = c->next;
		cli_send(c);
	}
	if (c->shut == 2 || c->closed) {
		int n = 0;
		ioctl(fd, FIONREAD, &n);
		if (!n && ++eofs > 200)
			hang();
	}
}

ssize_t __wrap_recv(int fd, void *b, size_t n, int flags)
{
	if (cli_of(fd)) {
		cli_send(cli_of(fd));
		if (!(flags & MSG_DONTWAIT) && !(fcntl(fd, F_GETFL) & O_NONBLOCK))
			await(fd);
	}
	return __real_recv(fd, b, n, flags);
}

ssize_t __wrap_read(int fd, void *b, size_t n)
{
	if (fd >= 0 && fd < MAXFD) {
		if (fds[fd].kind == F_DEV) {
			struct dev *d = &devs[fds[fd].idx];
			struct qev *q = d->q;
			if (q) {
				d->q = q->next;
				if (!q->next)
					d->last = NULL;
				memcpy(b, &q->ev, sizeof q->ev);
				if (started && n >= sizeof q->ev)
					if (!ngrabs)	/* not while a device is being drained */
						entry("\"k\":\"d\",\"dev\":%d,\"ty\":%d,\"co\":%d,\"va\":%d,\"t\":%ld",
						      (int)(d - devs), q->ev.type, q->ev.code, q->ev.value, ms());
				free(q);
				return sizeof q->ev;
			}
			if (d->gone) {
				entry("\"k\":\"x\",\"dev\":%d,\"t\":%ld", (int)(d - devs), ms());
				errno = ENODEV;
				return -1;
			}
			errno = EAGAIN;
			return -1;
		}
		if (fds[fd].kind == F_MON) {
			size_t off = 0;
			if (!nmonq) {
				errno = EAGAIN;
				return -1;
			}
			while (nmonq && off + sizeof(struct inotify_event) + 16 <= n) {
				struct inotify_event *e = (struct inotify_event *)((char *)b + off);
				memset(e, 0, sizeof *e + 16);
				e->wd = 1;
				e->mask = IN_CREATE;
				e->len = 16;
				if (monq[0] < 0)
					strcpy(e->name, "js0");
				else
					sprintf(e->name, "event%d", monq[0]);
				off += sizeof *e + 16;
				memmove(monq, monq + 1, --nmonq * sizeof *monq);
			}
			return off;
		}
		if (fds[fd].kind == F_CLI && !(fcntl(fd, F_GETFL) & O_NONBLOCK))
			await(fd);
	}
	return __real_read(fd, b, n);
}

ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	if (fd >= 0 && fd < MAXFD && (fds[fd].kind == F_UI || fds[fd].kind == F_DEV)) {
		const struct input_event *e = b;
		int dst;
		size_t i;
		if (fds[fd].kind == F_UI) {
			struct ui *u = &uis[fds[fd].idx];
			if (!u->created)
				return n;	/* the description of the device */
			dst = u->ptr;
		} else {
			dst = 10 + fds[fd].idx;
			if (devs[fds[fd].idx].gone) {	/* in vain, which the daemon cannot know */
				for (i = 0; i < n / sizeof *e; i++)
					add_out(dst, e[i].type, e[i].code, e[i].value);
				errno = ENODEV;
				return -1;
			}
		}
		for (i = 0; i < n / sizeof *e; i++)
			add_out(dst, e[i].type, e[i].code, e[i].value);
		return n;
	}
	return __real_write(fd, b, n);
}

ssize_t __wrap_writev(int fd, const struct iovec { void *p; size_t n; } *v, int n)
{
	ssize_t t = 0;
	int i;
	for (i = 0; i < n; i++) {
		ssize_t r = __wrap_write(fd, v[i].p, v[i].n);
		if (r < 0)
			return t ? t : r;
		t += r;
	}
	return t;
}

/* ------------------------------------------------------------------- time */
int __wrap_clock_gettime(clockid_t id, struct timespec *ts)
{
	(void)id;
	ts->tv_sec = base / 1000 + now / 1000000;
	ts->tv_nsec = (base % 1000) * 1000000 + now % 1000000 * 1000;
	if (ts->tv_nsec >= 1000000000) {
		ts->tv_nsec -= 1000000000;
		ts->tv_sec++;
	}
	return 0;
}

static void pause_us(long us)
{
	if (us <= 0)
		return;
	now += us;
	add_out(99, 0, us, 0);
}
int __wrap_usleep(useconds_t us) { pause_us(us); return 0; }
unsigned __wrap_sleep(unsigned s) { pause_us(s * 1000000L); return 0; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *r) { (void)r; pause_us(t->tv_sec * 1000000 + t->tv_nsec / 1000); return 0; }
int __wrap_nice(int n) { (void)n; return 0; }
int __wrap_setgid(gid_t g) { (void)g; return 0; }
struct group *__wrap_getgrnam(const char *n) { (void)n; return NULL; }

/* --------------------------------------------------------------- commands */
static void log_command(const char *cmd)
{
	int fd = __real_open("cmdlog", O_WRONLY | O_CREAT | O_APPEND, 0600);
	if (__real_write(fd, cmd, strlen(cmd) + 1) < 0)
		abort();
	__real_close(fd);
}
static void log_argv(const char *path, char *const argv[])
{
	const char *last = path;
	for (; argv && *argv; argv++)
		last = *argv;
	log_command(last);
}
#define EXECL(name) \
int __wrap_##name(const char *path, const char *a0, ...) \
{ \
	va_list ap; \
	const char *a, *last = a0 ? a0 : path; \
	va_start(ap, a0); \
	while (a0 && (a = va_arg(ap, const char *))) \
		last = a; \
	log_command(last); \
	_exit(0); \
}
EXECL(execl)
EXECL(execle)
EXECL(execlp)
int __wrap_execv(const char *path, char *const argv[]) { log_argv(path, argv); _exit(0); }
int __wrap_execvp(const char *path, char *const argv[]) { log_argv(path, argv); _exit(0); }
int __wrap_execve(const char *path, char *const argv[], char *const envp[]) { (void)envp; log_argv(path, argv); _exit(0); }
int __wrap_system(const char *cmd) { log_command(cmd); return 0; }
int __wrap_posix_spawn(pid_t *pid, const char *path, const void *fa, const void *at, char *const argv[], char *const envp[])
{
	(void)fa; (void)at; (void)envp;
	log_argv(path, argv);
	*pid = fork();
	if (!*pid)
		_exit(0);
	return 0;
}
int __wrap_posix_spawnp(pid_t *pid, const char *path, const void *fa, const void *at, char *const argv[], char *const envp[])
{
	return __wrap_posix_spawn(pid, path, fa, at, argv, envp);
}

/* -------------------------------------------------------------- the script */
static char **script;
static int nscript, pos;

static void load_set(int k)
{
	char t[32];
	sprintf(t, "set%d", k);
	unlink("conf");
	if (symlink(t, "conf"))
		abort();
}

static void list(const char *s, uint8_t *m, int *count)
{
	char *copy = strdup(s), *p, *save;
	if (strcmp(s, "-"))
		for (p = strtok_r(copy, ",", &save); p; p = strtok_r(NULL, ",", &save)) {
			int a = atoi(p), b = strchr(p, ':') ? atoi(strchr(p, ':') + 1) : a;
			for (; a <= b; a++) {
				m[a / 8] |= 1 << a % 8;
				if (count)
					(*count)++;
			}
		}
	free(copy);
}

static long op_time(const char *l)
{
	return strchr("AXECRFKQ", l[0]) ? atol(l + 2) : -1;
}

static int hexval(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

static void apply(char *l)
{
	long t;
	int i, ty, co, va;
	switch (l[0]) {
	case 'L':
		load_set(atoi(l + 2));
		break;
	case 'A':
		sscanf(l, "A %ld %d", &t, &i);
		if (i < 0) {		/* something else in the directory */
			monq[nmonq++] = -1;
			break;
		}
		devs[i].present = 1;
		devs[i].gone = 0;
		devs[i].asked = 0;
		monq[nmonq++] = i;
		break;
	case 'X':
		sscanf(l, "X %ld %d", &t, &i);
		devs[i].present = 0;
		devs[i].gone = 1;
		break;
	case 'E':
		sscanf(l, "E %ld %d %d %d %d", &t, &i, &ty, &co, &va);
		if (devs[i].fd >= 0 && !devs[i].gone)
			enq(&devs[i], ty, co, va);
		if (ty == EV_KEY && va < 2 && bit(devs[i].held, co) != va) {
			devs[i].held[co / 8] ^= 1 << co % 8;
			devs[i].nheld += va ? 1 : -1;
			devs[i].asked = 0;
		}
		break;
	case 'C': {
		int n, type, arg = 0;
		unsigned timeout;
		unsigned long size;
		char hex[9000] = "", how[16] = "";
		struct ipc_message *m;
		struct cli *c;
		int k, sv[2];
		sscanf(l, "C %ld %d %d %u %lu %8999s %15s %d", &t, &n, &type, &timeout, &size, hex, how, &arg);
		c = &clis[n];
		memset(c, 0, sizeof *c);
		m = (struct ipc_message *)c->msg;
		m->type = type;
		m->timeout = timeout;
		m->sz = size;
		memset(m->data, 'x', sizeof m->data);
		if (hex[0] != '-')
			for (k = 0; hex[2 * k]; k++)
				m->data[k] = hexval(hex[2 * k]) << 4 | hexval(hex[2 * k + 1]);
		c->sz = sizeof *m;
		if (!strcmp(how, "eof")) {
			c->sz = arg;
			c->shut = 1;
		} else if (!strcmp(how, "silent"))
			c->sz = arg;
		else if (!strcmp(how, "drip"))
			c->drip = arg;
		else if (!strcmp(how, "gone"))
			c->gone = 1;
		else if (!strcmp(how, "stall"))
			c->stall = 1;
		if (c->sz > sizeof *m)
			c->sz = sizeof *m;
		if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv))
			abort();
		if (c->stall) {
			int small = 1;
			setsockopt(sv[1], SOL_SOCKET, SO_SNDBUF, &small, sizeof small);
		}
		c->used = 1;
		c->ours = sv[0];
		c->theirs = sv[1];
		c->next = now;
		cli_send(c);
		backlog[nbacklog++] = n;
		break;
	}
	case 'R':
		sscanf(l, "R %ld %d", &t, &i);
		if (clis[i].used && !clis[i].closed) {
			close_entry();
			put("%s{\"k\":\"R\",\"cl\":%d,\"t\":%ld}", first ? "" : ",", i, ms());
			first = 0;
			__real_close(clis[i].ours);
			clis[i].closed = 1;
		}
		break;
	case 'F':
		accept_fails++;
		break;
	case 'K':
		close_entry();
		entry("\"k\":\"term\",\"t\":%ld", ms());
		raise(SIGTERM);
		break;
	case 'Q':
		finish();
	}
}

static int serverfd = -1;
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l)
{
	struct cli *c;
	int n;
	(void)a; (void)l;
	serverfd = fd;
	if (accept_fails) {
		accept_fails--;
		errno = ECONNABORTED;
		return -1;
	}
	if (!nbacklog)
		hang();
	n = backlog[0];
	memmove(backlog, backlog + 1, --nbacklog * sizeof *backlog);
	c = &clis[n];
	c->accepted = 1;
	entry("\"k\":\"i\",\"cl\":%d,\"t\":%ld", n, ms());
	fds[c->theirs].kind = F_CLI;
	fds[c->theirs].idx = n;
	return c->theirs;
}
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int flags)
{
	(void)flags;
	return __wrap_accept(fd, a, l);
}

/* What the clients have received */
static void drain(int all)
{
	int i;
	for (i = 0; i < MAXCLI; i++) {
		struct cli *c = &clis[i];
		static char b[1 << 20];
		size_t n = 0;
		int eof = 0;
		if (!c->used || c->closed || c->eof || !c->accepted || (c->stall && !all))
			continue;
		while (1) {
			ssize_t r = __real_recv(c->ours, b + n, sizeof b - n, MSG_DONTWAIT);
			if (r > 0)
				n += r;
			else {
				eof = r == 0 || (errno != EAGAIN && errno != EWOULDBLOCK);
				break;
			}
		}
		if (n || eof) {
			struct ipc_message *m = (struct ipc_message *)b;
			c->eof = eof;
			close_entry();
			put("%s{\"k\":\"r\",\"cl\":%d,\"t\":%ld,\"eof\":%d", first ? "" : ",", i, ms(), eof);
			first = 0;
			if (n == sizeof *m)
				put(",\"ans\":%d,\"x\":\"\"}", m->type == IPC_SUCCESS ? 1 : m->type == IPC_FAIL ? 0 : 2);
			else {
				put(",\"ans\":9,\"x\":");
				put_bytes(b, n);
				put("}");
			}
			flush();
		}
	}
}

static int idle;

/* A device has been unplugged and the daemon has not noticed. */
static int going(void)
{
	int i;
	for (i = 0; i < MAXDEV; i++)
		if (devs[i].gone && devs[i].fd >= 0)
			return 1;
	return 0;
}

/* is a device to be unplugged which has something to say, or more than keys to say? */
static int talking(const char *l)
{
	long t;
	int i;
	return sscanf(l, "X %ld %d", &t, &i) == 2 && (devs[i].q || nmonq || nbacklog || accept_fails);
}

int __wrap_poll(struct pollfd *p, nfds_t n, int timeout)
{
	nfds_t i;
	int ready = 0, mon = 0;
	long before, asked;
	long long start;

	for (i = 0; i < n; i++)
		if (p[i].fd == monfd && monfd >= 0)
			mon = 1;
	if (!mon) {
		/* waiting for a client */
		struct cli *c = n == 1 ? cli_of(p[0].fd) : NULL;
		long long end = now + timeout * 1000LL;
		if (!c)
			return __real_poll(p, n, timeout);
		cli_send(c);
		while (!(ready = __real_poll(p, n, 0))) {
			if (c->sent < c->sz && (timeout < 0 || c->next <= end)) {
				if (c->next > now)
					now = c->next;
				cli_send(c);
				continue;
			}
			if (timeout < 0)
				hang();
			now = end;
			break;
		}
		return ready;
	}

	if (!started) {
		int k;
		started = 1;
		strays_before = strays();
		snprintf(head, sizeof head, "\"k\":\"s\"");
		open_entry = 1;
		close_entry();
		/* which codes the virtual devices can express */
		put(",{\"k\":\"ui\",\"n\":%d,\"ui\":[", nuis);
		for (k = 0; k < nuis; k++) {
			int j, f = 1;
			put("%s{\"ptr\":%d,\"created\":%d,\"key\":[", k ? "," : "", uis[k].ptr, uis[k].created);
			for (j = 0; j <= KEY_MAX; j++)
				if (bit(uis[k].key, j)) {
					put("%s%d", f ? "" : ",", j);
					f = 0;
				}
			put("],\"rel\":[");
			for (j = 0, f = 1; j < 32; j++)
				if (bit(uis[k].rel, j)) {
					put("%s%d", f ? "" : ",", j);
					f = 0;
				}
			put("],\"abs\":[");
			for (j = 0, f = 1; j < 128; j++)
				if (bit(uis[k].abs, j)) {
					put("%s%d", f ? "" : ",", j);
					f = 0;
				}
			put("],\"led\":[");
			for (j = 0, f = 1; j < 32; j++)
				if (bit(uis[k].led, j)) {
					put("%s%d", f ? "" : ",", j);
					f = 0;
				}
			put("],\"ev\":[");
			for (j = 0, f = 1; j < 32; j++)
				if (bit(uis[k].ev, j)) {
					put("%s%d", f ? "" : ",", j);
					f = 0;
				}
			put("]}");
		}
		put("]}");
		flush();
	}
	close_entry();
	drain(0);
	if (limited || ++idle > 20000)
		finish();
	before = ms();
	asked = timeout >= 0 ? before + timeout : -1;
	start = now;

	/* Is anything ready already? */
	while (1) {
		for (i = 0; i < n; i++) {
			int fd = p[i].fd;
			p[i].revents = 0;
			if (fd < 0)
				continue;
			if (fd == monfd)
				p[i].revents = nmonq ? POLLIN : 0;
			else if (fd < MAXFD && fds[fd].kind == F_DEV) {
				struct dev *d = &devs[fds[fd].idx];
				if (d->gone)
					p[i].revents = POLLIN | POLLERR | POLLHUP;
				else if (d->q)
					p[i].revents = POLLIN;
			} else if (fd < MAXFD && fds[fd].kind == F_NONE) {
				p[i].revents = nbacklog || accept_fails ? POLLIN : 0;
			}
			ready += p[i].revents != 0;
		}
		if (pos < nscript && (op_time(script[pos]) <= ms() || (ready && op_time(script[pos]) < 0))) {
			int conn = script[pos][0] == 'C';
			/* one client at a time, and a device is not unplugged before what
			 * it said was heard */
			if (ready && (strchr("QALRK", script[pos][0]) || (conn && nbacklog) || going() || talking(script[pos])))
				break;
			apply(script[pos++]);
			ready = 0;
			continue;
		}
		if (ready || pos >= nscript)
			break;
		/* Time passes until the next thing happens. */
		long t = op_time(script[pos]);
		if (timeout >= 0 && start + timeout * 1000LL < t * 1000LL) {
			long late = jmax ? rnd(jmax + 1) : 0;
			now += timeout * 1000LL;
			if (late && (now + late * 1000LL) < t * 1000LL)
				now += late * 1000LL;
			entry("\"k\":\"p\",\"t\":%ld,\"w\":%ld,\"n\":%ld", ms(), asked, before);
			return 0;
		}
		now = t * 1000LL;
	}
	if (!ready)
		finish();
	entry("\"k\":\"p\",\"t\":%ld,\"w\":%ld,\"n\":%ld", ms(), asked, before);
	return ready;
}
int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const void *m)
{
	(void)m;
	return __wrap_poll(p, n, ts ? ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000 : -1);
}

/* -------------------------------------------------------------------- main */
static void define(char *l)
{
	int i;
	unsigned v, pr;
	char *keys = malloc(9000), *rels = malloc(900), *abss = malloc(900), *held = malloc(900);
	char name[64] = "";
	int a, b, c, d;
	uint8_t m[KEY_MAX / 8 + 1];
	sscanf(l, "V %d %x %x %8999s %899s %899s %d %d %d %d %899s %63[^\n]", &i, &v, &pr, keys, rels, abss, &a, &b, &c, &d, held, name);
	devs[i].defined = 1;
	devs[i].fd = -1;
	devs[i].vendor = v;
	devs[i].product = pr;
	list(keys, devs[i].keys, NULL);
	memset(m, 0, sizeof m);
	list(rels, m, NULL);
	devs[i].rels = m[0];
	memset(m, 0, sizeof m);
	list(abss, m, NULL);
	devs[i].abss = m[0];
	devs[i].minx = a;
	devs[i].maxx = b;
	devs[i].miny = c;
	devs[i].maxy = d;
	list(held, devs[i].held, &devs[i].nheld);
	strcpy(devs[i].name, name);
	free(keys);
	free(rels);
	free(abss);
	free(held);
}

static void run(char **lines, int n)
{
	char dir[300];
	char *av[] = { "keyd", NULL };
	int i, loaded = 0;
	if (sscanf(lines[0], "S %299s", dir) != 1 || chdir(dir))
		_exit(79);
	self = getpid();
	nscript = 0;
	script = malloc(n * sizeof *script);
	for (i = 1; i < n; i++) {
		char *l = lines[i];
		unsigned long seed;
		if (l[0] == 'V')
			define(l);
		else if (l[0] == 'N') {
			devs[atoi(l + 2)].start = 1;
			devs[atoi(l + 2)].present = 1;
		} else if (l[0] == 'B')
			base = atol(l + 2);
		else if (sscanf(l, "J %lu %d", &seed, &jmax) == 2)
			rng = seed;
		else if (l[0] == 'L' && !loaded++)
			load_set(atoi(l + 2));
		else
			script[nscript++] = l;
	}
	atexit(at_exit);
	open_entry = 0;
	keyd_main(1, av);
	exit(80);
}

int main(int argc, char **argv)
{
	FILE *f = fopen(argv[1], "r");
	char **lines = NULL;
	size_t n = 0, capl = 0, sz = 0;
	char *line = NULL;
	ssize_t r;
	char *text = NULL;
	size_t cap_text = 0;
	ssize_t len_text;

	if (argc < 2 || !f)
		return 2;
	len_text = getdelim(&text, &cap_text, 0, f);
	fclose(f);
	if (len_text < 0)
		return 0;
	int hangs = 0;
	f = fmemopen(text, len_text, "r");
	while ((r = getline(&line, &sz, f)) > 0) {
		if (line[0] != '.') {
			if (n == capl)
				lines = realloc(lines, (capl = capl ? capl * 2 : 256) * sizeof *lines);
			lines[n++] = strdup(line);
			continue;
		}
		char id[256] = "?";
		sscanf(lines[0], "S %255s", id);
		printf("{\"id\":\"%s\",\"ev\":[", id);
		fflush(stdout);
		pid_t pid = fork();
		if (!pid) {
			struct rlimit rl = { 12, 14 };
			int fd = __real_open("/dev/null", O_WRONLY);
			outfd = 900;
			dup2(1, outfd);
			fcntl(outfd, F_SETFD, FD_CLOEXEC);
			dup2(getenv("DAEMON_STDERR") ? 2 : fd, 1);
			if (!getenv("DAEMON_STDERR"))
				dup2(fd, 2);
			__real_close(fd);
			setrlimit(RLIMIT_CPU, &rl);
			prctl(PR_SET_CHILD_SUBREAPER, 1);
			alarm(30);
			run(lines, n);
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
			;
		printf("],\"st\":%d}\n", WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st));
		fflush(stdout);
		/* When it hangs again and again the rest is left out. */
		if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL) && ++hangs == 3)
			break;
		while (n)
			free(lines[--n]);
	}
	return 0;
}

/*
 * Drives the remapping engine of keyd through scripted scenarios, the way the
 * daemon does, and records everything it emits.
 *
 * engine SCENARIOS  (one process per scenario; results as JSON lines on stdout)
 *
 *   S id config-path    start of a scenario
 *   J seed max          ticks come up to max ms late (default 0)
 *   B base              what the clock shows at time 0 (default 1000000)
 *   K code pressed t    key event at time t
 *   T t                 wake up at time t for no reason
 *   E expression        run time binding
 *   M kinds id          does the configuration match a device? (kinds: 2 mouse, 4 keyboard)
 *   Q t                 let time pass until t; marks a point at which nothing should be pending
 *   .                   end
 *
 * Result: {"id":..,"ok":0|1 (configuration accepted),"ev":[...]} with the events
 *   {"k":"k","c":code,"p":0|1,"t":time,"o":[..],"l":[..],"m":[..],"w":next wake up (0: never)}
 *   {"k":"e","x":expression,"ok":0|1,...}
 *   {"k":"m","x":id,"f":kinds,"r":0 no|1 by the wildcard|2 explicitly,...}
 *   {"k":"q",...}
 * or, if the process died, {"id":..,"crash":signal or exit status,"at":number of events done}.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdint.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include "keyd.h"

static char *buf;
static size_t len, cap;
static int *progress;

static void put(const char *fmt, ...)
{
	va_list ap;
	if (cap - len < 65536) {
		cap = cap ? cap * 2 : 1 << 18;
		buf = realloc(buf, cap);
	}
	va_start(ap, fmt);
	len += vsnprintf(buf + len, cap - len, fmt, ap);
	va_end(ap);
}

static void put_str(const char *s)
{
	put("\"");
	for (; *s; s++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\')
			put("\\%c", c);
		else if (c < 32 || c > 126)
			put("\\u%04x", c);
		else
			put("%c", c);
	}
	put("\"");
}

/* What was emitted since the last event */
static long *outs;
static size_t nouts, capouts;
static char (*lays)[80];
static size_t nlays, caplays;
static int limited;

static void add_out(long v)
{
	if (nouts > 200000) {
		limited = 1;
		return;
	}
	if (nouts == capouts)
		outs = realloc(outs, (capouts = capouts ? capouts * 2 : 1024) * sizeof *outs);
	outs[nouts++] = v;
}

static void send_key(uint8_t code, uint8_t pressed)
{
	add_out(pressed ? code : 1000 + code);
}

static void on_layer_change(const struct keyboard *kbd, const struct layer *layer, uint8_t active)
{
	(void)kbd;
	if (nlays == caplays)
		lays = realloc(lays, (caplays = caplays ? caplays * 2 : 1024) * sizeof *lays);
	snprintf(lays[nlays++], sizeof lays[0], "%c%s", active ? '+' : '-', layer->name);
}

int __wrap_usleep(useconds_t us)
{
	if (us)
		add_out(10000 + (long)us);
	return 0;
}

unsigned int __wrap_sleep(unsigned int s)
{
	add_out(10000 + (long)s * 1000000);
	return 0;
}

int __wrap_nanosleep(const struct timespec *ts, struct timespec *rem)
{
	(void)rem;
	add_out(10000 + (long)ts->tv_sec * 1000000 + ts->tv_nsec / 1000);
	return 0;
}

static struct keyboard *kbd;
static long wake;		/* absolute time of the next wake up, 0: none */
static long now;
static uint64_t rng;
static int jmax;
static int ncmd_off;

static unsigned rnd(unsigned n)
{
	rng = rng * 6364136223846793005ULL + 1442695040888963407ULL;
	return (unsigned)(rng >> 33) % n;
}

/* Commands are not run but recorded: each is appended to cmdlog. */
static void log_command(const char *cmd)
{
	int fd = open("cmdlog", O_WRONLY | O_CREAT | O_APPEND, 0600);
	if (write(fd, cmd, strlen(cmd) + 1) < 0)
		abort();
	close(fd);
}

static void log_args(const char *path, const char *a0, va_list ap)
{
	const char *a, *last = a0 ? a0 : path;
	while (a0 && (a = va_arg(ap, const char *)))
		last = a;
	log_command(last);
	_exit(0);
}

static void log_argv(const char *path, char *const argv[])
{
	const char *last = path;
	for (; argv && *argv; argv++)
		last = *argv;
	log_command(last);
}

#define EXECL(name) \
int __wrap_##name(const char *path, const char *a0, ...) \
{ \
	va_list ap; \
	va_start(ap, a0); \
	log_args(path, a0, ap); \
	return -1; \
}
EXECL(execl)
EXECL(execle)
EXECL(execlp)
int __wrap_execv(const char *path, char *const argv[]) { log_argv(path, argv); _exit(0); }
int __wrap_execvp(const char *path, char *const argv[]) { log_argv(path, argv); _exit(0); }
int __wrap_execve(const char *path, char *const argv[], char *const envp[]) { (void)envp; log_argv(path, argv); _exit(0); }
int __wrap_system(const char *cmd) { log_command(cmd); return 0; }
int __wrap_posix_spawn(pid_t *pid, const char *path, const void *fa, const void *at, char *const argv[], char *const envp[])
{
	(void)fa; (void)at; (void)envp;
	log_argv(path, argv);
	*pid = fork();
	if (!*pid)
		_exit(0);
	return 0;
}
int __wrap_posix_spawnp(pid_t *pid, const char *path, const void *fa, const void *at, char *const argv[], char *const envp[])
{
	return __wrap_posix_spawn(pid, path, fa, at, argv, envp);
}

static int first = 1;
static void emit(const char *head)
{
	size_t i;
	FILE *f;
	char *line = NULL;
	size_t sz = 0;

	while (waitpid(-1, NULL, 0) > 0 || errno == EINTR)
		;

	put("%s{%s,\"o\":[", first ? "" : ",", head);
	first = 0;
	for (i = 0; i < nouts; i++)
		put("%s%ld", i ? "," : "", outs[i]);
	put("],\"l\":[");
	for (i = 0; i < nlays; i++) {
		put(i ? "," : "");
		put_str(lays[i]);
	}
	put("],\"m\":[");
	if ((f = fopen("cmdlog", "r"))) {
		int n = 0;
		fseek(f, ncmd_off, SEEK_SET);
		while (getdelim(&line, &sz, 0, f) > 0) {
			put(n++ ? "," : "");
			put_str(line);
		}
		ncmd_off = ftell(f);
		free(line);
		fclose(f);
	}
	put("]");
	nouts = nlays = 0;
}

static long base = 1000000;	/* what the clock shows at time 0 */

static void deliver(int code, int pressed, long t)
{
	struct key_event ev = { .code = code, .pressed = pressed, .timestamp = t + base };
	char head[128];
	long r;

	now = t;
	r = kbd_process_events(kbd, &ev, 1);
	wake = r > 0 ? t + r : 0;
	snprintf(head, sizeof head, "\"k\":\"k\",\"c\":%d,\"p\":%d,\"t\":%ld", code, pressed, t);
	emit(head);
	put(",\"w\":%ld}", wake);
	(*progress)++;
}

/* Time passes until (and including) t. */
static void pass(long t)
{
	int n = 0;
	while (wake && wake <= t) {
		long at = wake + (jmax ? rnd(jmax + 1) : 0);
		if (at > t)
			at = t;
		deliver(0, 0, at);
		if (++n > 3000 || limited) {
			limited = 1;
			break;
		}
	}
	now = t;
}

static struct config config;

static void run(char **lines, int n)
{
	struct output o = { .send_key = send_key, .on_layer_change = on_layer_change };
	char *id = strtok(lines[0] + 2, " \n");
	char *path = strtok(NULL, "\n");
	int i;

	put("{\"id\":");
	put_str(id);
	if (config_parse(&config, path)) {
		put(",\"ok\":0,\"ev\":[]}\n");
		return;
	}
	put(",\"ok\":1,\"ev\":[");
	kbd = new_keyboard(&config, &o);
	for (i = 1; i < n && !limited; i++) {
		char *l = lines[i];
		int code, pressed;
		long t;
		unsigned long seed;

		if (sscanf(l, "K %d %d %ld", &code, &pressed, &t) == 3) {
			pass(t);
			deliver(code, pressed, t);
		} else if (sscanf(l, "T %ld", &t) == 1) {
			pass(t);
			deliver(0, 0, t);
		} else if (sscanf(l, "Q %ld", &t) == 1) {
			pass(t);
			emit("\"k\":\"q\"");
			put(",\"t\":%ld,\"w\":%ld}", t, wake);
		} else if (sscanf(l, "B %ld", &base) == 1) {
		} else if (sscanf(l, "J %lu %d", &seed, &jmax) == 2) {
			rng = seed;
		} else if (l[0] == 'M') {
			char *x = l + 4;
			x[strcspn(x, "\n")] = 0;
			int flags = l[2] - '0';
			int r = config_check_match(&config, x, flags);
			emit("\"k\":\"m\"");
			put(",\"f\":%d,\"r\":%d,\"x\":", flags, r);
			put_str(x);
			put("}");
		} else if (l[0] == 'E') {
			int r;
			char *x = l + 2;
			x[strcspn(x, "\n")] = 0;
			char *copy = strdup(x);
			r = kbd_eval(kbd, copy);
			emit("\"k\":\"e\"");
			put(",\"ok\":%d,\"x\":", r == 0);
			put_str(x);
			put("}");
			(*progress)++;
		}
	}
	put("]%s}\n", limited ? ",\"limited\":1" : "");
}

int main(int argc, char **argv)
{
	FILE *f = fopen(argv[1], "r");
	char **lines = NULL;
	size_t n = 0, capl = 0, sz = 0;
	char *line = NULL;
	ssize_t r;

	if (argc < 2 || !f)
		return 2;
	/* Read everything up front: a child which exits would move the file offset. */
	char *text = NULL;
	size_t cap_text = 0;
	ssize_t len_text = getdelim(&text, &cap_text, 0, f);
	fclose(f);
	if (len_text < 0)
		return 0;
	int hangs = 0;
	f = fmemopen(text, len_text, "r");
	progress = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	while ((r = getline(&line, &sz, f)) > 0) {
		if (line[0] != '.') {
			if (n == capl)
				lines = realloc(lines, (capl = capl ? capl * 2 : 256) * sizeof *lines);
			lines[n++] = strdup(line);
			continue;
		}
		fflush(stdout);
		*progress = 0;
		pid_t pid = fork();
		if (!pid) {
			struct rlimit rl = { 12, 14 };
			int fd = open("/dev/null", O_WRONLY);
			int res = dup(1);
			dup2(getenv("ENGINE_STDERR") ? 2 : fd, 1);
			if (!getenv("ENGINE_STDERR"))
				dup2(fd, 2);
			setrlimit(RLIMIT_CPU, &rl);
			prctl(PR_SET_CHILD_SUBREAPER, 1);
			unlink("cmdlog");
			alarm(60);
			run(lines, n);
			size_t off = 0;
			while (off < len) {
				ssize_t w = write(res, buf + off, len - off);
				if (w <= 0)
					break;
				off += w;
			}
			_exit(77);
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
			;
		if (!WIFEXITED(st) || WEXITSTATUS(st) != 77) {
			char id[256] = "?";
			sscanf(lines[0], "S %255s", id);
			printf("{\"id\":\"%s\",\"crash\":%d,\"at\":%d}\n", id,
			       WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st), *progress);
		}
		/* When it hangs again and again the rest is left out. */
		if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL) && ++hangs == 3)
			break;
		while (n)
			free(lines[--n]);
	}
	return 0;
}

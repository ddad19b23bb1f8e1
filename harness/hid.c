/*
 * Runs the USB gadget backend: reads lines "code state" (a line "S id" starts
 * a scenario, "." ends it) and records the reports written to the gadget.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <stdint.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/uio.h>
#include "vkbd.h"

#define GADGET 777
static char rec[8192];
static size_t n;
static int opened;

int __real_open(const char *, int, ...);
ssize_t __real_write(int, const void *, size_t);

int __wrap_open(const char *path, int flags, ...)
{
	va_list ap;
	va_start(ap, flags);
	int mode = va_arg(ap, int);
	va_end(ap);
	if (!strcmp(path, "/dev/hidg0")) {
		opened++;
		return GADGET;
	}
	return __real_open(path, flags, mode);
}
int __wrap_open64(const char *path, int flags, ...)
{
	return __wrap_open(path, flags, 0);
}
static void put(const uint8_t *b, size_t sz)
{
	size_t i;
	if (n > sizeof rec - 200)
		return;
	n += sprintf(rec + n, "%s[", n ? "," : "");
	for (i = 0; i < sz && i < 30; i++)
		n += sprintf(rec + n, "%s%d", i ? "," : "", b[i]);
	n += sprintf(rec + n, "]");
}
ssize_t __wrap_write(int fd, const void *b, size_t sz)
{
	if (fd != GADGET)
		return __real_write(fd, b, sz);
	put(b, sz);
	return sz;
}
ssize_t __wrap_writev(int fd, const struct iovec *v, int c)
{
	uint8_t b[256];
	size_t t = 0;
	int i;
	for (i = 0; i < c; i++) {
		memcpy(b + t, v[i].iov_base, v[i].iov_len);
		t += v[i].iov_len;
	}
	put(b, t);
	return t;
}
int __wrap_close(int fd) { return 0; }

int main(int argc, char **argv)
{
	char line[256], id[200];
	FILE *f = fopen(argv[1], "r");
	while (f && fgets(line, sizeof line, f)) {
		long pos;
		if (sscanf(line, "S %199s", id) != 1)
			continue;
		printf("{\"id\":\"%s\",\"ev\":[", id);
		fflush(stdout);
		pos = ftell(f);
		pid_t pid = fork();
		if (!pid) {
			int first = 1, c, s, junk = 1;
			f = fopen(argv[1], "r");
			fseek(f, pos, SEEK_SET);
			struct vkbd *v = vkbd_init("x");
			while (fgets(line, sizeof line, f) && line[0] != '.') {
				if (sscanf(line, "%d %d", &c, &s) != 2)
					continue;
				n = 0;
				rec[0] = 0;
				if (s < 2)
					vkbd_send_key(v, c, s);
				else if (s == 2)
					vkbd_mouse_move(v, c, 1);
				else if (s == 3)
					vkbd_mouse_scroll(v, c, 1);
				else
					vkbd_mouse_move_abs(v, c, 1);
				printf("%s{\"c\":%d,\"p\":%d,\"r\":[%s]}", first ? "" : ",", s < 2 ? c : 0, s, rec);
				first = 0;
			}
			free_vkbd(v);
			fflush(stdout);
			_exit(opened == 1 ? 0 : 3);
		}
		int st = 0;
		waitpid(pid, &st, 0);
		printf("],\"st\":%d}\n", st);
		while (fgets(line, sizeof line, f) && line[0] != '.')
			;
	}
	return 0;
}

/* Stands in for keyd(1): appends its arguments to $KV_LOG (one line per
 * command, the arguments in hex). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
int main(int argc, char **argv)
{
	static char b[1 << 16];
	size_t n = 0;
	int i;
	for (i = 1; i < argc; i++) {
		const unsigned char *s = (const unsigned char *)argv[i];
		if (i > 1)
			b[n++] = ' ';
		b[n++] = 'x';
		for (; *s && n < sizeof b - 10; s++)
			n += sprintf(b + n, "%02x", *s);
	}
	b[n++] = '\n';
	int fd = open(getenv("KV_LOG"), O_WRONLY | O_APPEND | O_CREAT, 0600);
	if (fd < 0 || write(fd, b, n) != (ssize_t)n)
		return 2;
	return getenv("KV_FAIL") ? 1 : 0;
}

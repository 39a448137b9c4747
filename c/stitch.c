/*
 * Feeds gzip members to gzip_stitch in given pieces.
 *
 * stdin: lines "n p1 p2 ...": a member of n bytes follows the line, and is
 * fed in pieces of p1, p2 ... bytes, the rest in one.
 * stdout: what comes out.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <zlib.h>

#include "vdef.h"
#include "miniobj.h"
#include "aardwarc.h"

static int
out(void *priv, const void *ptr, ssize_t len)
{
	(void)priv;
	if (len < 0)
		abort();
	fwrite(ptr, 1, len, stdout);
	return (0);
}

int
main(int argc, char **argv)
{
	static char line[1 << 20];
	struct gzip_stitch *gs;
	char *p, *buf;
	long n, l, o;

	gs = gzip_stitch_new(out, NULL);
	while (fgets(line, sizeof line, stdin) != NULL) {
		n = strtol(line, &p, 10);
		buf = malloc(n);
		if (fread(buf, 1, n, stdin) != (size_t)n)
			return (3);
		for (o = 0; o < n; o += l) {
			l = strtol(p, &p, 10);
			if (l <= 0 || l > n - o)
				l = n - o;
			/* An allocation of its own, for the sanitizers */
			char *q = malloc(l);
			memcpy(q, buf + o, l);
			if (gzip_stitch_feed(gs, q, l))
				return (4);
			free(q);
		}
		free(buf);
	}
	if (gzip_stitch_fini(gs))
		return (5);
	(void)argc; (void)argv;
	fflush(stdout);
	return (0);
}

/* Reads lines, prints what VNUM_2bytes() makes of each. */
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include "vdef.h"
#include "miniobj.h"
#include "aardwarc.h"

int
main(void)
{
	char buf[8192];
	const char *e;
	uintmax_t u;

	while (fgets(buf, sizeof buf, stdin) != NULL) {
		buf[strcspn(buf, "\n")] = '\0';
		u = 0;
		e = VNUM_2bytes(buf, &u, 0);
		if (e != NULL)
			printf("error\n");
		else
			printf("%ju\n", u);
	}
	return (0);
}

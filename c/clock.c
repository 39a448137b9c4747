/*
 * Linked into the program:  the time of day is VERIF_TIME, when that is set.
 * "T" stands still, "T+N" is N seconds later each time somebody looks.
 */
#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static int
verif_now(long long *t)
{
	static long long n;
	char *p;

	p = getenv("VERIF_TIME");
	if (p == NULL || *p == '\0')
		return (0);
	*t = strtoll(p, &p, 10);
	if (*p == '+')
		*t += strtoll(p + 1, NULL, 10) * n++;
	return (1);
}

int
clock_gettime(clockid_t c, struct timespec *ts)
{
	long long t;

	if ((c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) &&
	    verif_now(&t)) {
		ts->tv_sec = t;
		ts->tv_nsec = 999999999;
		return (0);
	}
	return (syscall(SYS_clock_gettime, c, ts));
}

int
gettimeofday(struct timeval *tv, void *tz)
{
	struct timespec ts;

	(void)tz;
	if (clock_gettime(CLOCK_REALTIME, &ts))
		return (-1);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return (0);
}

time_t
time(time_t *tp)
{
	struct timespec ts;

	(void)clock_gettime(CLOCK_REALTIME, &ts);
	if (tp != NULL)
		*tp = ts.tv_sec;
	return (ts.tv_sec);
}

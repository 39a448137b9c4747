/*
 * Runs a program and counts, fails, shortens, or stops it at, its file
 * operations.
 *
 *	ftrace [-r root]... [-s] [-l log] [-f spec]... [-x in,out] cmd arg...
 *
 * File operations are the system calls on files below one of the roots, and,
 * with -s, reads of stdin and writes to stdout.  They are numbered from one.
 *
 *	-f K:kill	kill it before operation K
 *	-f K:killafter	kill it after operation K
 *	-f K:err=E[:P]	operation K fails with errno E; with P all further
 *			operations of the same kind do as well.
 *	-f K:short=N	operation K (read/write) transfers no more than N bytes
 *	-f K:full=N	operation K (write) transfers no more than N bytes, and
 *			from then on there is no space (writes, new files,
 *			directories and links fail with ENOSPC)
 *	-x in,out	at each operation "S K name class target" is written to
 *			out, and a command is read from in:  g (go on), r (run
 *			on without stopping), k (kill), e E (fail), s N (short).
 *			D K ret is written when it is done, "X status" at the
 *			end.
 *
 * The log has a line "K name class ret target" for each operation.
 *
 * The exit status is that of the program, 128 + signal if it was killed,
 * or 250 if it could not be traced.
 */
#define _GNU_SOURCE
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

#define F_FD	1	/* arg 0 is a fd */
#define F_PATH	2	/* arg 0 is a path */
#define F_AT	4	/* args 0,1 are dirfd, path */
#define F_P2	8	/* the other path is arg 1 (F_PATH) or args 2,3 (F_AT) */
#define F_MMAP	16	/* arg 4 is a fd */

static const struct sc {
	long		nr;
	const char	*name;
	char		class;
	int		how;
} scs[] = {
	{ SYS_read, "read", 'R', F_FD },
	{ SYS_write, "write", 'M', F_FD },
	{ SYS_open, "open", 'N', F_PATH },
	{ SYS_close, "close", 'C', F_FD },
	{ SYS_stat, "stat", 'S', F_PATH },
	{ SYS_fstat, "fstat", 'S', F_FD },
	{ SYS_lstat, "lstat", 'S', F_PATH },
	{ SYS_lseek, "lseek", 'K', F_FD },
	{ SYS_mmap, "mmap", 'P', F_MMAP },
	{ SYS_pread64, "pread", 'R', F_FD },
	{ SYS_pwrite64, "pwrite", 'M', F_FD },
	{ SYS_readv, "readv", 'R', F_FD },
	{ SYS_writev, "writev", 'M', F_FD },
	{ SYS_access, "access", 'S', F_PATH },
	{ SYS_flock, "flock", 'L', F_FD },
	{ SYS_fcntl, "fcntl", 'L', F_FD },
	{ SYS_fsync, "fsync", 'Y', F_FD },
	{ SYS_fdatasync, "fdatasync", 'Y', F_FD },
	{ SYS_truncate, "truncate", 'M', F_PATH },
	{ SYS_ftruncate, "ftruncate", 'M', F_FD },
	{ SYS_getdents64, "getdents", 'R', F_FD },
	{ SYS_rename, "rename", 'M', F_PATH | F_P2 },
	{ SYS_mkdir, "mkdir", 'M', F_PATH },
	{ SYS_rmdir, "rmdir", 'M', F_PATH },
	{ SYS_creat, "creat", 'M', F_PATH },
	{ SYS_link, "link", 'M', F_PATH | F_P2 },
	{ SYS_unlink, "unlink", 'M', F_PATH },
	{ SYS_symlink, "symlink", 'M', F_PATH | F_P2 },
	{ SYS_chmod, "chmod", 'M', F_PATH },
	{ SYS_fchmod, "fchmod", 'M', F_FD },
	{ SYS_openat, "open", 'N', F_AT },
	{ SYS_openat2, "openat2", 'M', F_AT },
	{ SYS_mkdirat, "mkdir", 'M', F_AT },
	{ SYS_newfstatat, "stat", 'S', F_AT },
	{ SYS_statx, "stat", 'S', F_AT },
	{ SYS_unlinkat, "unlink", 'M', F_AT },
	{ SYS_renameat, "rename", 'M', F_AT | F_P2 },
	{ SYS_renameat2, "rename", 'M', F_AT | F_P2 },
	{ SYS_linkat, "link", 'M', F_AT | F_P2 },
	{ SYS_symlinkat, "symlink", 'M', F_AT },
	{ SYS_fchmodat, "chmod", 'M', F_AT },
	{ SYS_faccessat, "access", 'S', F_AT },
	{ SYS_faccessat2, "access", 'S', F_AT },
	{ SYS_preadv, "preadv", 'R', F_FD },
	{ SYS_pwritev, "pwritev", 'M', F_FD },
	{ SYS_preadv2, "preadv", 'R', F_FD },
	{ SYS_pwritev2, "pwritev", 'M', F_FD },
	{ SYS_fallocate, "fallocate", 'M', F_FD },
	{ SYS_copy_file_range, "copy_file_range", 'M', F_FD },
	{ SYS_sendfile, "sendfile", 'M', F_FD },
	{ 0, NULL, 0, 0 }
};

static const char *roots[16];
static int nroots, std;
static FILE *lg;
static int xin = -1, xout = -1;

static struct spec {
	long	k;
	char	what;		/* k, K, e, s, f */
	long	val;
	int	persist;
} specs[16];
static int nspecs;

static int
below(const char *p)
{
	int i;
	size_t l;

	for (i = 0; i < nroots; i++) {
		l = strlen(roots[i]);
		if (!strncmp(p, roots[i], l) &&
		    (p[l] == '/' || p[l] == '\0' || roots[i][l - 1] == '/'))
			return (1);
	}
	return (0);
}

static int
peek(pid_t pid, uintptr_t a, void *dst, size_t len)
{
	struct iovec l = { dst, len }, r = { (void *)a, len };

	return (process_vm_readv(pid, &l, 1, &r, 1, 0) == (ssize_t)len);
}

static int
poke(pid_t pid, uintptr_t a, const void *src, size_t len)
{
	struct iovec l = { (void *)(uintptr_t)src, len }, r = { (void *)a, len };

	return (process_vm_writev(pid, &l, 1, &r, 1, 0) == (ssize_t)len);
}

static void
getstr(pid_t pid, uintptr_t a, char *dst, size_t len)
{
	size_t n = 0;
	size_t c;

	*dst = '\0';
	if (a == 0)
		return;
	while (n < len - 1) {
		/* Not across a page, the next one may not exist */
		c = 4096 - ((a + n) & 4095);
		if (c > len - 1 - n)
			c = len - 1 - n;
		if (!peek(pid, a + n, dst + n, c))
			break;
		dst[n + c] = '\0';
		if (memchr(dst + n, '\0', c))
			return;
		n += c;
	}
	dst[n] = '\0';
}

static void
fdpath(pid_t pid, long fd, char *dst, size_t len)
{
	char b[64];
	ssize_t i;

	if (fd == AT_FDCWD)
		snprintf(b, sizeof b, "/proc/%d/cwd", (int)pid);
	else
		snprintf(b, sizeof b, "/proc/%d/fd/%ld", (int)pid, fd);
	i = readlink(b, dst, len - 1);
	if (i < 0)
		i = 0;
	dst[i] = '\0';
}

static void
atpath(pid_t pid, long dirfd, uintptr_t a, char *dst, size_t len)
{
	char b[PATH_MAX];
	size_t l;

	getstr(pid, a, b, sizeof b);
	if (b[0] == '/') {
		snprintf(dst, len, "%s", b);
		return;
	}
	fdpath(pid, dirfd, dst, len);
	if (b[0] == '\0')
		return;
	l = strlen(dst);
	snprintf(dst + l, len - l, "/%s", b);
}

static int
relevant(pid_t pid, const struct sc *sc, const struct user_regs_struct *rg,
    char *tgt, size_t len)
{
	char p2[PATH_MAX * 2];
	int fd;

	*tgt = '\0';
	if (sc->how & (F_FD | F_MMAP)) {
		fd = (int)(sc->how & F_FD ? rg->rdi : rg->r8);
		if (fd < 0)
			return (0);
		if (sc->nr == SYS_fcntl && (int)rg->rsi != F_SETLK &&
		    (int)rg->rsi != F_SETLKW && (int)rg->rsi != F_OFD_SETLK &&
		    (int)rg->rsi != F_OFD_SETLKW)
			return (0);
		if (std && fd == 0 && sc->class == 'R') {
			strcpy(tgt, "stdin");
			return (1);
		}
		if (std && fd == 1 && sc->class == 'M') {
			strcpy(tgt, "stdout");
			return (1);
		}
		fdpath(pid, fd, tgt, len);
		return (below(tgt));
	}
	if (sc->how & F_PATH)
		atpath(pid, AT_FDCWD, rg->rdi, tgt, len);
	else
		atpath(pid, (int)rg->rdi, rg->rsi, tgt, len);
	if (sc->how & F_P2) {
		if (sc->how & F_PATH)
			atpath(pid, AT_FDCWD, rg->rsi, p2, sizeof p2);
		else
			atpath(pid, (int)rg->rdx, rg->r10, p2, sizeof p2);
		if (below(p2) && !below(tgt)) {
			snprintf(tgt, len, "%s", p2);
			return (1);
		}
	}
	return (below(tgt));
}

/* Shorten the transfer to n bytes */

struct undo {
	int		what;
	uintptr_t	a;
	struct iovec	iov;
};

static void
shorten(pid_t pid, const struct sc *sc, struct user_regs_struct *rg, long n,
    struct undo *un)
{
	struct iovec iov;
	unsigned long i;

	un->what = 0;
	switch (sc->nr) {
	case SYS_read: case SYS_write: case SYS_pread64: case SYS_pwrite64:
		if ((long)rg->rdx > n)
			rg->rdx = n;
		break;
	case SYS_copy_file_range:
		if ((long)rg->r8 > n)
			rg->r8 = n;
		break;
	case SYS_sendfile:
		if ((long)rg->r10 > n)
			rg->r10 = n;
		break;
	case SYS_readv: case SYS_writev: case SYS_preadv: case SYS_pwritev:
	case SYS_preadv2: case SYS_pwritev2:
		for (i = 0; i < rg->rdx; i++) {
			if (!peek(pid, rg->rsi + i * sizeof iov, &iov,
			    sizeof iov))
				return;
			if ((long)iov.iov_len >= n) {
				un->what = 1;
				un->a = rg->rsi + i * sizeof iov;
				un->iov = iov;
				iov.iov_len = n;
				poke(pid, un->a, &iov, sizeof iov);
				rg->rdx = i + 1;
				return;
			}
			n -= iov.iov_len;
		}
		break;
	default:
		break;
	}
}

/* There may be no space for this one */

static int
needs_space(const struct sc *sc, char class, const char *tgt)
{
	if (class != 'M' || !strcmp(tgt, "stdout"))
		return (0);
	switch (sc->nr) {
	case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev:
	case SYS_pwritev2: case SYS_fallocate: case SYS_copy_file_range:
	case SYS_sendfile: case SYS_mkdir: case SYS_mkdirat: case SYS_link:
	case SYS_linkat: case SYS_symlink: case SYS_symlinkat:
		return (1);
	case SYS_open: case SYS_openat: case SYS_creat: case SYS_openat2:
		return (access(tgt, F_OK) != 0);
	default:
		return (0);
	}
}

static void
addspec(const char *s)
{
	struct spec *sp = &specs[nspecs];
	char *e;

	if (nspecs == 16)
		exit(250);
	sp->k = strtol(s, &e, 10);
	if (*e++ != ':')
		exit(250);
	if (!strcmp(e, "kill"))
		sp->what = 'k';
	else if (!strcmp(e, "killafter"))
		sp->what = 'K';
	else if (!strncmp(e, "err=", 4)) {
		sp->what = 'e';
		sp->val = strtol(e + 4, &e, 10);
		sp->persist = !strcmp(e, ":P");
	} else if (!strncmp(e, "short=", 6)) {
		sp->what = 's';
		sp->val = strtol(e + 6, NULL, 10);
	} else if (!strncmp(e, "full=", 5)) {
		sp->what = 'f';
		sp->val = strtol(e + 5, NULL, 10);
	} else
		exit(250);
	nspecs++;
}

static int
ask(char *cmd, size_t len)
{
	size_t n = 0;
	ssize_t i;

	while (n < len - 1) {
		i = read(xin, cmd + n, 1);
		if (i <= 0)
			return (0);
		if (cmd[n] == '\n')
			break;
		n++;
	}
	cmd[n] = '\0';
	return (1);
}

int
main(int argc, char **argv)
{
	pid_t pid, w;
	int st, ch, i, entry = 1, started = 0, free_run = 0;
	struct user_regs_struct rg, org;
	const struct sc *sc;
	const struct sc *cur = NULL;
	struct undo un;
	char tgt[PATH_MAX * 2], cmd[64], class;
	long k = 0, killafter = 0;
	int changed = 0, failed = 0, pers = 0, full = 0;
	const struct sc *psc = NULL;
	int perr = 0, e;
	unsigned long sig = 0;

	while ((ch = getopt(argc, argv, "+r:sl:f:x:")) != -1) {
		switch (ch) {
		case 'r': roots[nroots++] = optarg; break;
		case 's': std = 1; break;
		case 'l': lg = fopen(optarg, "w"); break;
		case 'f': addspec(optarg); break;
		case 'x': sscanf(optarg, "%d,%d", &xin, &xout); break;
		default: return (250);
		}
	}
	argv += optind;
	if (lg != NULL)
		fcntl(fileno(lg), F_SETFD, FD_CLOEXEC);
	if (xin >= 0) {
		fcntl(xin, F_SETFD, FD_CLOEXEC);
		fcntl(xout, F_SETFD, FD_CLOEXEC);
		signal(SIGPIPE, SIG_IGN);
	}
	pid = fork();
	if (pid < 0)
		return (250);
	if (pid == 0) {
		if (ptrace(PTRACE_TRACEME, 0, 0, 0))
			_exit(250);
		raise(SIGSTOP);
		execvp(argv[0], argv);
		_exit(250);
	}
	/* We do not hold the program's files open */
	close(0);
	close(1);
	w = waitpid(pid, &st, 0);
	if (w != pid || !WIFSTOPPED(st)) {
		if (lg != NULL)
			fprintf(lg, "cannot trace\n");
		return (250);
	}
	if (ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD |
	    PTRACE_O_EXITKILL | PTRACE_O_TRACEEXEC))
		return (250);
	while (1) {
		if (ptrace(PTRACE_SYSCALL, pid, 0, sig) && errno != ESRCH)
			return (250);
		sig = 0;
		w = waitpid(pid, &st, 0);
		if (w != pid)
			return (250);
		if (WIFEXITED(st) || WIFSIGNALED(st))
			break;
		if (st >> 8 == (SIGTRAP | (PTRACE_EVENT_EXEC << 8))) {
			started = 1;
			continue;
		}
		if (WSTOPSIG(st) != (SIGTRAP | 0x80)) {
			sig = WSTOPSIG(st);
			continue;
		}
		if (ptrace(PTRACE_GETREGS, pid, 0, &rg))
			return (250);
		if (entry) {
			entry = 0;
			cur = NULL;
			changed = failed = killafter = 0;
			un.what = 0;
			if (!started)
				continue;
			for (sc = scs; sc->name != NULL; sc++)
				if ((unsigned long)sc->nr == rg.orig_rax)
					break;
			if (sc->name == NULL)
				continue;
			if (!relevant(pid, sc, &rg, tgt, sizeof tgt))
				continue;
			cur = sc;
			k++;
			class = sc->class;
			if (class == 'N') {
				i = (int)(sc->how & F_AT ? rg.rdx : rg.rsi);
				if (i & (O_CREAT | O_TRUNC))
					class = 'M';
			}
			org = rg;
			e = 0;
			if (pers && sc == psc)
				e = perr;
			if (full && needs_space(sc, class, tgt))
				e = ENOSPC;
			for (i = 0; i < nspecs; i++) {
				if (specs[i].k != k)
					continue;
				switch (specs[i].what) {
				case 'k':
					if (lg != NULL)
						fprintf(lg, "%ld %s %c killed %s\n",
						    k, sc->name, class, tgt);
					kill(pid, SIGKILL);
					break;
				case 'K':
					killafter = 1;
					break;
				case 'e':
					e = (int)specs[i].val;
					if (specs[i].persist) {
						pers = 1;
						psc = sc;
						perr = e;
					}
					break;
				case 's':
					shorten(pid, sc, &rg, specs[i].val, &un);
					changed = 1;
					break;
				case 'f':
					full = 1;
					if (needs_space(sc, class, tgt)) {
						if (specs[i].val > 0 &&
						    (sc->how & F_FD)) {
							shorten(pid, sc, &rg,
							    specs[i].val, &un);
							changed = 1;
						} else
							e = ENOSPC;
					}
					break;
				}
			}
			if (xin >= 0 && !free_run) {
				dprintf(xout, "S %ld %s %c %s\n", k, sc->name,
				    class, tgt);
				if (!ask(cmd, sizeof cmd)) {
					kill(pid, SIGKILL);
				} else if (*cmd == 'r') {
					free_run = 1;
				} else if (*cmd == 'k') {
					kill(pid, SIGKILL);
				} else if (*cmd == 'e') {
					e = atoi(cmd + 1);
				} else if (*cmd == 's') {
					shorten(pid, sc, &rg, atol(cmd + 1),
					    &un);
					changed = 1;
				}
			}
			if (e) {
				failed = e;
				rg.orig_rax = -1;
				changed = 1;
			}
			if (changed)
				ptrace(PTRACE_SETREGS, pid, 0, &rg);
			continue;
		}
		entry = 1;
		if (cur == NULL)
			continue;
		if (changed) {
			if (failed)
				rg.rax = -(long)failed;
			rg.rdi = org.rdi;
			rg.rsi = org.rsi;
			rg.rdx = org.rdx;
			rg.r10 = org.r10;
			rg.r8 = org.r8;
			rg.r9 = org.r9;
			if (un.what)
				poke(pid, un.a, &un.iov, sizeof un.iov);
			ptrace(PTRACE_SETREGS, pid, 0, &rg);
		}
		if (lg != NULL)
			fprintf(lg, "%ld %s %c %ld %s\n", k, cur->name, class,
			    (long)rg.rax, tgt);
		if (xin >= 0 && !free_run)
			dprintf(xout, "D %ld %ld\n", k, (long)rg.rax);
		if (killafter)
			kill(pid, SIGKILL);
	}
	if (lg != NULL)
		fclose(lg);
	if (xout >= 0)
		dprintf(xout, "X %d\n", st);
	if (WIFSIGNALED(st))
		return (128 + WTERMSIG(st));
	return (WEXITSTATUS(st));
}

/* iotrace: run a command, and number the file system calls that its main process makes on paths below
 * one directory; optionally act on the N-th one.
 *
 *   iotrace LOG DIR [MODE N ARG]... -- COMMAND...
 *     MODE log         only record
 *          fail        call N returns error number ARG and is not executed
 *          kill        the process is killed right before call N
 *          killafter   the process is killed right after call N
 *          short       call N (a write) is cut to ARG bytes (ARG<0: to half)
 *          shortkill   like short, but the process is killed after it
 * LOG gets one line per call: INDEX SYSCALL FD-OR-MINUS-1 RESULT PATH.  iotrace exits like the command does
 * (128+signal if it was killed).  Calls are counted over all threads; other processes run free.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/reg.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

struct sc { long nr; const char *name; int fd1, path1, fd2, path2, count; };
/* argument positions (1-based; 0: none); dirfd precedes its path */
static const struct sc table[] = {
	{SYS_read, "read", 1, 0, 0, 0, 0}, {SYS_pread64, "pread64", 1, 0, 0, 0, 0}, {SYS_readv, "readv", 1, 0, 0, 0, 0},
	{SYS_write, "write", 1, 0, 0, 0, 3}, {SYS_pwrite64, "pwrite64", 1, 0, 0, 0, 3}, {SYS_writev, "writev", 1, 0, 0, 0, 0},
	{SYS_open, "open", 0, 1, 0, 0, 0}, {SYS_openat, "openat", 1, 2, 0, 0, 0}, {SYS_creat, "creat", 0, 1, 0, 0, 0},
	{SYS_openat2, "openat2", 1, 2, 0, 0, 0},
	{SYS_close, "close", 1, 0, 0, 0, 0}, {SYS_stat, "stat", 0, 1, 0, 0, 0}, {SYS_lstat, "lstat", 0, 1, 0, 0, 0},
	{SYS_fstat, "fstat", 1, 0, 0, 0, 0}, {SYS_newfstatat, "newfstatat", 1, 2, 0, 0, 0}, {SYS_statx, "statx", 1, 2, 0, 0, 0},
	{SYS_rename, "rename", 0, 1, 0, 2, 0}, {SYS_renameat, "renameat", 1, 2, 3, 4, 0}, {SYS_renameat2, "renameat2", 1, 2, 3, 4, 0},
	{SYS_unlink, "unlink", 0, 1, 0, 0, 0}, {SYS_unlinkat, "unlinkat", 1, 2, 0, 0, 0}, {SYS_rmdir, "rmdir", 0, 1, 0, 0, 0},
	{SYS_link, "link", 0, 1, 0, 2, 0}, {SYS_linkat, "linkat", 1, 2, 3, 4, 0}, {SYS_symlink, "symlink", 0, 2, 0, 0, 0},
	{SYS_symlinkat, "symlinkat", 2, 3, 0, 0, 0}, {SYS_mkdir, "mkdir", 0, 1, 0, 0, 0}, {SYS_mkdirat, "mkdirat", 1, 2, 0, 0, 0},
	{SYS_truncate, "truncate", 0, 1, 0, 0, 0}, {SYS_ftruncate, "ftruncate", 1, 0, 0, 0, 0}, {SYS_fallocate, "fallocate", 1, 0, 0, 0, 0},
	{SYS_fsync, "fsync", 1, 0, 0, 0, 0}, {SYS_fdatasync, "fdatasync", 1, 0, 0, 0, 0}, {SYS_chmod, "chmod", 0, 1, 0, 0, 0},
	{SYS_fchmod, "fchmod", 1, 0, 0, 0, 0}, {SYS_fchmodat, "fchmodat", 1, 2, 0, 0, 0}, {SYS_chown, "chown", 0, 1, 0, 0, 0},
	{SYS_lchown, "lchown", 0, 1, 0, 0, 0}, {SYS_fchown, "fchown", 1, 0, 0, 0, 0}, {SYS_fchownat, "fchownat", 1, 2, 0, 0, 0},
	{SYS_utimensat, "utimensat", 1, 2, 0, 0, 0}, {SYS_getdents64, "getdents64", 1, 0, 0, 0, 0}, {SYS_lseek, "lseek", 1, 0, 0, 0, 0},
	{SYS_readlink, "readlink", 0, 1, 0, 0, 0}, {SYS_readlinkat, "readlinkat", 1, 2, 0, 0, 0},
	{SYS_copy_file_range, "copy_file_range", 1, 0, 3, 0, 5}, {SYS_sendfile, "sendfile", 1, 0, 2, 0, 4}, {SYS_splice, "splice", 1, 0, 3, 0, 5},
	{SYS_access, "access", 0, 1, 0, 0, 0}, {SYS_faccessat, "faccessat", 1, 2, 0, 0, 0}, {SYS_faccessat2, "faccessat2", 1, 2, 0, 0, 0},
	{SYS_mmap, "mmap", 5, 0, 0, 0, 0}, {SYS_flock, "flock", 1, 0, 0, 0, 0},
};

static const char *dir;
static size_t dirlen;
static pid_t mainpid;

struct thread { pid_t tid; int in; int mine; int act; long err; long idx; const struct sc *sc; long fd; char path[PATH_MAX]; };
static struct thread threads[4096];
static int nthreads;

static int tgid_of(pid_t tid) {
	char p[64], line[256];
	int ret = -1;
	snprintf(p, sizeof p, "/proc/%d/status", tid);
	FILE *f = fopen(p, "r");
	if (!f) return -1;
	while (fgets(line, sizeof line, f))
		if (sscanf(line, "Tgid: %d", &ret) == 1) break;
	fclose(f);
	return ret;
}

static struct thread *find(pid_t tid) {
	for (int i = 0; i < nthreads; i++)
		if (threads[i].tid == tid) return &threads[i];
	for (int i = 0; i < nthreads; i++)
		if (threads[i].tid == 0) { threads[i] = (struct thread){.tid = tid, .mine = -1}; return &threads[i]; }
	if (nthreads == 4096) { fprintf(stderr, "iotrace: too many threads\n"); exit(125); }
	threads[nthreads] = (struct thread){.tid = tid, .mine = -1};
	return &threads[nthreads++];
}

static void str_at(pid_t tid, unsigned long addr, char *buf, size_t n) {
	size_t got = 0;
	buf[0] = 0;
	while (got + 1 < n) {
		size_t want = 256 - (addr + got) % 256;
		if (want > n - 1 - got) want = n - 1 - got;
		struct iovec l = {buf + got, want}, r = {(void *)(addr + got), want};
		ssize_t k = process_vm_readv(tid, &l, 1, &r, 1, 0);
		if (k <= 0) break;
		if (memchr(buf + got, 0, k)) return;
		got += k;
	}
	buf[got] = 0;
}

static int below(const char *p) { return strncmp(p, dir, dirlen) == 0 && (p[dirlen] == '/' || p[dirlen] == 0); }

static int fd_path(pid_t tid, long fd, char *buf) {
	char p[64];
	if ((int)fd == AT_FDCWD) snprintf(p, sizeof p, "/proc/%d/cwd", tid);
	else snprintf(p, sizeof p, "/proc/%d/fd/%d", tid, (int)fd);
	ssize_t n = readlink(p, buf, PATH_MAX - 1);
	if (n < 0) return 0;
	buf[n] = 0;
	return 1;
}

static unsigned long arg(struct user_regs_struct *r, int n) {
	switch (n) {
	case 1: return r->rdi;
	case 2: return r->rsi;
	case 3: return r->rdx;
	case 4: return r->r10;
	case 5: return r->r8;
	default: return r->r9;
	}
}

static int look(pid_t tid, struct user_regs_struct *r, int fdpos, int pathpos, long *fd, char *out) {
	char p[PATH_MAX], base[PATH_MAX];
	*fd = -1;
	if (pathpos) {
		str_at(tid, arg(r, pathpos), p, sizeof p);
		if (p[0] == '/') { strcpy(out, p); return below(out); }
		long d = fdpos ? (long)arg(r, fdpos) : AT_FDCWD;
		if (!fd_path(tid, d, base)) return 0;
		if (p[0]) snprintf(out, PATH_MAX, "%.2000s/%.2000s", base, p);
		else { strcpy(out, base); }
		return below(out);
	}
	if (!fdpos) return 0;
	*fd = (int)arg(r, fdpos);
	if (*fd < 0 || !fd_path(tid, *fd, out)) return 0;
	return below(out);
}

int main(int argc, char **argv) {
	struct { const char *mode; long n, a; } acts[16];
	int nacts = 0, ai = 3;
	for (; ai + 2 < argc && strcmp(argv[ai], "--") && nacts < 16; ai += 3, nacts++) {
		acts[nacts].mode = argv[ai];
		acts[nacts].n = atol(argv[ai + 1]);
		acts[nacts].a = atol(argv[ai + 2]);
	}
	if (ai + 1 >= argc || strcmp(argv[ai], "--")) { fprintf(stderr, "usage: iotrace LOG DIR [MODE N ARG]... -- COMMAND...\n"); return 125; }
	char **command = argv + ai + 1;
	FILE *log = fopen(argv[1], "we");
	if (!log) { perror(argv[1]); return 125; }
	dir = argv[2];
	dirlen = strlen(dir);
	mainpid = fork();
	if (mainpid == 0) {
		ptrace(PTRACE_TRACEME, 0, 0, 0);
		raise(SIGSTOP);
		execvp(command[0], command);
		perror(command[0]);
		_exit(127);
	}
	int status;
	waitpid(mainpid, &status, 0);
	if (ptrace(PTRACE_SETOPTIONS, mainpid, 0,
		PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_EXITKILL | PTRACE_O_TRACEEXEC)) {
		perror("iotrace: ptrace");
		return 125;
	}
	ptrace(PTRACE_SYSCALL, mainpid, 0, 0);
	long idx = 0;
	int rc = 125, started = 0;
	for (;;) {
		pid_t tid = waitpid(-1, &status, __WALL);
		if (tid < 0) break;
		struct thread *t = find(tid);
		if (WIFEXITED(status) || WIFSIGNALED(status)) {
			t->tid = 0;
			if (tid == mainpid) {
				rc = WIFEXITED(status) ? WEXITSTATUS(status) : 128 + WTERMSIG(status);
				break;
			}
			continue;
		}
		if (!WIFSTOPPED(status)) continue;
		int sig = WSTOPSIG(status);
		if (sig == (SIGTRAP | 0x80)) {
			if (t->mine < 0) t->mine = tgid_of(tid) == mainpid;
			if (!t->mine || !started) { ptrace(PTRACE_SYSCALL, tid, 0, 0); continue; }
			struct user_regs_struct r;
			if (ptrace(PTRACE_GETREGS, tid, 0, &r)) continue;
			if (!t->in) {
				t->in = 1;
				t->sc = 0;
				t->act = 0;
				for (size_t i = 0; i < sizeof table / sizeof table[0]; i++) {
					const struct sc *s = &table[i];
					if (s->nr != (long)r.orig_rax) continue;
					if (look(tid, &r, s->fd1, s->path1, &t->fd, t->path) ||
					    ((s->fd2 || s->path2) && look(tid, &r, s->fd2, s->path2, &t->fd, t->path))) {
						t->sc = s;
						t->idx = ++idx;
					}
					break;
				}
				for (int k = 0; t->sc && k < nacts; k++) {
					const char *mode = acts[k].mode;
					long a = acts[k].a;
					if (acts[k].n != t->idx) continue;
					if (!strcmp(mode, "kill")) {
						fprintf(log, "%ld %s %ld killed %s\n", t->idx, t->sc->name, t->fd, t->path);
						fflush(log);
						kill(mainpid, SIGKILL);
						break;
					}
					if (!strcmp(mode, "fail")) {
						t->act = 1;
						t->err = a;
						r.orig_rax = -1;
						ptrace(PTRACE_SETREGS, tid, 0, &r);
					} else if (!strcmp(mode, "killafter")) {
						t->act = 2;
					} else if (!strncmp(mode, "short", 5) && t->sc->count) {
						unsigned long *c = t->sc->count == 3 ? (unsigned long *)&r.rdx : t->sc->count == 4 ? (unsigned long *)&r.r10 : (unsigned long *)&r.r8;
						unsigned long lim = a < 0 ? *c / 2 : (unsigned long)a;
						if (lim == 0) lim = 1;
						if (*c > lim) *c = lim;
						ptrace(PTRACE_SETREGS, tid, 0, &r);
						t->act = strcmp(mode, "short") ? 2 : 0;
					}
				}
			} else {
				t->in = 0;
				if (t->sc) {
					if (t->act == 1) {
						r.rax = -t->err;
						ptrace(PTRACE_SETREGS, tid, 0, &r);
					}
					fprintf(log, "%ld %s %ld %lld %s\n", t->idx, t->sc->name, t->fd, (long long)r.rax, t->path);
					if (t->act == 2) {
						fflush(log);
						kill(mainpid, SIGKILL);
						continue;
					}
				}
			}
			ptrace(PTRACE_SYSCALL, tid, 0, 0);
			continue;
		}
		int event = status >> 16;
		if (event == PTRACE_EVENT_EXEC) {
			t->in = 1; /* the exit stop of execve comes next */
			t->sc = 0;
			if (tid == mainpid) { started = 1; t->mine = 1; }
			else if (tgid_of(tid) != mainpid) { ptrace(PTRACE_DETACH, tid, 0, 0); t->tid = 0; continue; }
			ptrace(PTRACE_SYSCALL, tid, 0, 0);
			continue;
		}
		if (event) { ptrace(PTRACE_SYSCALL, tid, 0, 0); continue; }
		if (sig == SIGSTOP && t->mine < 0 && tid != mainpid) { ptrace(PTRACE_SYSCALL, tid, 0, 0); continue; } /* new thread */
		if (sig == SIGTRAP) sig = 0;
		ptrace(PTRACE_SYSCALL, tid, 0, sig);
	}
	fclose(log);
	return rc;
}

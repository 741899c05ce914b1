// Simulated C library: everything the programs use that touches I/O, processes, memory,
// time, environment. Pure functions (string.h, ctype.h, qsort, strtol...) are the host's.
#include "sim.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/utsname.h>
#include <sys/times.h>
#include <sys/resource.h>

struct SFILE {
	u32 magic; int fd; bool rd, wr, append, eof, err, unbuf, linebuf, own_buf, pipeproc;
	char *buf; size_t cap, rpos, rend, wpos; int unget; SFILE *next; int pid;
};
static const u32 FMAGIC = 0xF11EF11E;
extern "C" { void *sim_stdin, *sim_stdout, *sim_stderr; char **sim_environ; }
void libc_swap_in(Proc &p) { if (p.plibc) { sim_stdin = p.plibc->in; sim_stdout = p.plibc->out; sim_stderr = p.plibc->err; sim_environ = p.plibc->environ_; } }

static long ret(long r) { if (r < 0) { errno = (int)-r; return -1; } return r; }
static SFILE *mkfile(int fd, bool rd, bool wr) {
	SFILE *f = (SFILE *)heap_alloc(sizeof(SFILE), true); if (!f) return nullptr;
	f->magic = FMAGIC; f->fd = fd; f->rd = rd; f->wr = wr; f->unget = -1; f->next = cur->plibc->files; cur->plibc->files = f; return f;
}
void libc_proc_start() {
	PLibc *l = cur->plibc; l->rand_state = 1;
	l->in = mkfile(0, true, false); l->out = mkfile(1, false, true); l->err = mkfile(2, false, true); l->err->unbuf = true;
	libc_swap_in(*cur);
}
static SFILE *chk(void *v) { SFILE *f = (SFILE *)v; if (!f || f->magic != FMAGIC) k_die(SIGSEGV, "stdio call on an invalid or closed FILE"); return f; }
static bool getbuf(SFILE *f) { if (!f->buf) { f->cap = 4096; if (f->unbuf) f->cap = 1; f->buf = (char *)heap_alloc(f->cap, false); f->own_buf = true; if (!f->buf) return false; } return true; }
// write all; on failure glibc discards the buffered data
static int wr_all(SFILE *f, const char *p, size_t n, size_t *done = nullptr) {
	size_t o = 0; while (o < n) { long r = k_write(f->fd, p + o, n - o); if (r < 0) { errno = (int)-r; f->err = true; if (done) *done = o; return -1; } if (r == 0) { f->err = true; errno = EIO; if (done) *done = o; return -1; } o += r; } if (done) *done = n; return 0;
}
static int flush(SFILE *f) { if (f->wr && f->wpos) { size_t n = f->wpos; f->wpos = 0; return wr_all(f, f->buf, n); } return 0; }
void libc_flush_all() { for (SFILE *f = cur->plibc->files; f; f = f->next) { if (f->magic != FMAGIC) break; flush(f); } }
void libc_exit(int code) {
	PLibc *l = cur->plibc; while (l->natexit > 0) { void (*fn)(void) = l->atexit_fn[--l->natexit]; fn(); }
	libc_flush_all(); k_exit(code);
}
static size_t put(SFILE *f, const char *p, size_t n) {
	if (!f->wr) { errno = EBADF; f->err = true; return 0; }
	if (n == 0) return 0;
	if (f->unbuf) { size_t d; wr_all(f, p, n, &d); return d; }
	if (!getbuf(f)) { f->err = true; return 0; }
	size_t done = 0;
	while (done < n) {
		if (f->wpos == 0 && n - done >= f->cap) { size_t blk = (n - done) / f->cap * f->cap, d; if (wr_all(f, p + done, blk, &d)) return done + d; done += blk; continue; }
		size_t k = f->cap - f->wpos; if (k > n - done) k = n - done; memcpy(f->buf + f->wpos, p + done, k); f->wpos += k; done += k;
		if (f->wpos == f->cap && done < n) { if (flush(f)) return done - k; }
	}
	if (f->linebuf && memchr(p, '\n', n)) if (flush(f)) return 0;
	return n;
}
static int fillbuf(SFILE *f) {
	if (!f->rd) { errno = EBADF; f->err = true; return -1; }
	if (f->eof) return -1;
	if (f->wr) flush(f);
	if (!getbuf(f)) { f->err = true; return -1; }
	long r = k_read(f->fd, f->buf, f->cap); f->rpos = 0; f->rend = 0;
	if (r < 0) { errno = (int)-r; f->err = true; return -1; }
	if (r == 0) { f->eof = true; return -1; }
	f->rend = r; return 0;
}
static int getch(SFILE *f) { if (f->unget >= 0) { int c = f->unget; f->unget = -1; return c; } if (f->rpos >= f->rend && fillbuf(f)) return EOF; return (unsigned char)f->buf[f->rpos++]; }
static int parse_mode(const char *m, bool &rd, bool &wr) {
	int fl; rd = wr = false; switch (*m) { case 'r': rd = true; fl = O_RDONLY; break; case 'w': wr = true; fl = O_WRONLY | O_CREAT | O_TRUNC; break; case 'a': wr = true; fl = O_WRONLY | O_CREAT | O_APPEND; break; default: errno = EINVAL; return -1; }
	for (m++; *m; m++) { if (*m == '+') { rd = wr = true; fl = (fl & ~O_ACCMODE) | O_RDWR; } if (*m == 'e') fl |= O_CLOEXEC; if (*m == 'x') fl |= O_EXCL; }
	return fl;
}
static int vprint(SFILE *f, const char *fmt, va_list l) {
	char st[512]; va_list c; va_copy(c, l); int n = vsnprintf(st, sizeof st, fmt, c); va_end(c);
	if (n < 0) return -1;
	if (n < (int)sizeof st) return put(f, st, n) == (size_t)n ? n : -1;
	char *b = (char *)heap_alloc(n + 1, false); if (!b) { f->err = true; errno = ENOMEM; return -1; }
	vsnprintf(b, n + 1, fmt, l); int r = put(f, b, n) == (size_t)n ? n : -1; int e = errno; heap_free(b); errno = e; return r;
}

extern "C" {
// ---- memory
void *sim_malloc(size_t n) { return k_alloc_ok() ? heap_alloc(n, false) : nullptr; }
void *sim_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return k_alloc_ok() ? heap_alloc(n, true) : nullptr; }
void *sim_realloc(void *p, size_t n) { return k_alloc_ok() ? heap_realloc(p, n) : nullptr; }
void *sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return sim_realloc(p, n); }
void sim_free(void *p) { heap_free(p); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)sim_malloc(n); if (r) memcpy(r, s, n); return r; }
char *sim_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *r = (char *)sim_malloc(n + 1); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
size_t sim_malloc_usable_size(void *p) { return p ? heap_size(p) : 0; }
int sim_vasprintf(char **o, const char *f, va_list l) { va_list c; va_copy(c, l); int n = vsnprintf(nullptr, 0, f, c); va_end(c); *o = (char *)sim_malloc(n + 1); if (!*o) return -1; return vsnprintf(*o, n + 1, f, l); }
int sim_asprintf(char **o, const char *f, ...) { va_list l; va_start(l, f); int r = sim_vasprintf(o, f, l); va_end(l); return r; }
// ---- process
void sim_exit(int c) { libc_exit(c); }
void sim__exit(int c) { k_exit(c); }
void sim__Exit(int c) { k_exit(c); }
int sim_atexit(void (*fn)(void)) { PLibc *l = cur->plibc; if (l->natexit >= 64) return -1; l->atexit_fn[l->natexit++] = fn; return 0; }
int sim___cxa_atexit(void (*fn)(void *), void *, void *) { return sim_atexit((void (*)(void))fn); }
void sim_abort(void) { k_die(SIGABRT, "abort()"); }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { char b[1024]; const char *s = strrchr(f, '/'); snprintf(b, sizeof b, "%s:%u: %s: Assertion `%s' failed.\n", s ? s + 1 : f, l, fn, e); k_write(2, b, strlen(b)); char w[160]; snprintf(w, sizeof w, "assert: %s", e); k_die(SIGABRT, w); }
void sim___stack_chk_fail(void) { cur->crashed = true; k_die(SIGABRT, "stack smashing detected"); }
int sim_fork(void) { return (int)ret(k_fork()); }
int sim_vfork(void) { return (int)ret(k_fork()); }
static int exec_common(const char *path, char *const *argv, char *const *envp) { int r; { vector<string> a, e; for (; *argv; argv++) a.push_back(*argv); for (; envp && *envp; envp++) e.push_back(*envp); r = k_exec(path, a, e); } errno = -r; return -1; }
int sim_execve(const char *p, char *const *a, char *const *e) { return exec_common(p, a, e); }
int sim_execv(const char *p, char *const *a) { return exec_common(p, a, sim_environ); }
char *sim_getenv(const char *n) { size_t k = strlen(n); for (char **e = sim_environ; e && *e; e++) if (!strncmp(*e, n, k) && (*e)[k] == '=') return *e + k + 1; return nullptr; }
char *sim_secure_getenv(const char *n) { return sim_getenv(n); }
int sim_execvpe(const char *p, char *const *a, char *const *e) {
	if (strchr(p, '/')) return exec_common(p, a, e);
	const char *path = sim_getenv("PATH"); if (!path) path = "/bin:/usr/bin"; int last = ENOENT;
	for (;;) { const char *c = strchrnul(path, ':'); char b[1200]; if (c == path) snprintf(b, sizeof b, "%s", p); else snprintf(b, sizeof b, "%.*s/%s", (int)(c - path), path, p); exec_common(b, a, e); if (errno == EACCES) last = EACCES; else if (errno != ENOENT && errno != ENOTDIR) return -1; if (!*c) break; path = c + 1; }
	errno = last; return -1;
}
int sim_execvp(const char *p, char *const *a) { return sim_execvpe(p, a, sim_environ); }
#define VARGS char *av[256]; int n = 0; va_list l; va_start(l, a0); av[n++] = (char *)a0; while (n < 255 && (av[n] = va_arg(l, char *))) n++; av[n] = nullptr; va_end(l);
int sim_execl(const char *p, const char *a0, ...) { VARGS return sim_execv(p, av); }
int sim_execlp(const char *p, const char *a0, ...) { VARGS return sim_execvp(p, av); }
int sim_waitpid(int pid, int *st, int o) { return (int)ret(k_wait(pid, st, o)); }
int sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
int sim_wait4(int pid, int *st, int o, void *ru) { if (ru) memset(ru, 0, sizeof(struct rusage)); return sim_waitpid(pid, st, o); }
int sim_wait3(int *st, int o, void *ru) { return sim_wait4(-1, st, o, ru); }
int sim_waitid(int idt, unsigned id, siginfo_t *si, int o) { int st; int r = (int)ret(k_wait(idt == P_PID ? (int)id : -1, &st, o & WNOHANG)); if (r < 0) return -1; if (si) { memset(si, 0, sizeof *si); si->si_pid = r; si->si_code = WIFEXITED(st) ? CLD_EXITED : CLD_KILLED; si->si_status = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st); } return 0; }
int sim_posix_spawn_common(int *pid, const char *path, char *const *argv, char *const *envp, bool p) { int r = sim_fork(); if (r < 0) return errno; if (r == 0) { if (p) sim_execvpe(path, argv, envp); else sim_execve(path, argv, envp); k_exit(127); } if (pid) *pid = r; return 0; }
int sim_posix_spawn(int *pid, const char *path, void *, void *, char *const *argv, char *const *envp) { return sim_posix_spawn_common(pid, path, argv, envp, false); }
int sim_posix_spawnp(int *pid, const char *path, void *, void *, char *const *argv, char *const *envp) { return sim_posix_spawn_common(pid, path, argv, envp, true); }
int sim_system(const char *c) { if (!c) return 1; int p = sim_fork(); if (p < 0) return -1; if (p == 0) { sim_execl("/bin/sh", "sh", "-c", c, (char *)nullptr); k_exit(127); } int st; if (sim_waitpid(p, &st, 0) < 0) return -1; return st; }
int sim_getpid(void) { return cur->pid; }
int sim_getppid(void) { return cur->ppid; }
unsigned sim_getuid(void) { return 1000; } unsigned sim_geteuid(void) { return 1000; } unsigned sim_getgid(void) { return 1000; } unsigned sim_getegid(void) { return 1000; }
int sim_kill(int p, int s) { return (int)ret(k_kill(p, s)); }
int sim_raise(int s) { return sim_kill(cur->pid, s); }
void (*sim_signal(int s, void (*h)(int)))(int) { (void)s; (void)h; return SIG_DFL; }
int sim_sigaction(int, const void *, void *o) { if (o) memset(o, 0, sizeof(struct sigaction)); return 0; }
int sim_sigprocmask(int, const void *, void *) { return 0; }
unsigned sim_alarm(unsigned) { return 0; }
// ---- environment
int sim_setenv(const char *n, const char *v, int ow) { if (sim_getenv(n) && !ow) return 0; char *e = (char *)sim_malloc(strlen(n) + strlen(v) + 2); if (!e) return -1; sprintf(e, "%s=%s", n, v); size_t k = strlen(n), i = 0; for (; sim_environ[i]; i++) if (!strncmp(sim_environ[i], n, k) && sim_environ[i][k] == '=') { sim_environ[i] = e; return 0; } char **ne = (char **)sim_malloc(8 * (i + 2)); if (!ne) return -1; memcpy(ne, sim_environ, 8 * i); ne[i] = e; ne[i + 1] = nullptr; sim_environ = cur->plibc->environ_ = ne; return 0; }
int sim_unsetenv(const char *n) { size_t k = strlen(n); char **o = sim_environ; for (char **e = sim_environ; *e; e++) if (!(!strncmp(*e, n, k) && (*e)[k] == '=')) *o++ = *e; *o = nullptr; return 0; }
int sim_putenv(char *s) { char *eq = strchr(s, '='); if (!eq) return sim_unsetenv(s); char n[256]; snprintf(n, sizeof n, "%.*s", (int)(eq - s), s); return sim_setenv(n, eq + 1, 1); }
// ---- files
static int oflags_need_mode(int f) { return f & (O_CREAT); }
int sim_open(const char *p, int fl, ...) { unsigned m = 0; if (oflags_need_mode(fl)) { va_list l; va_start(l, fl); m = va_arg(l, unsigned); va_end(l); } return (int)ret(k_open(p, fl, m)); }
int sim_open64(const char *p, int fl, ...) { unsigned m = 0; if (oflags_need_mode(fl)) { va_list l; va_start(l, fl); m = va_arg(l, unsigned); va_end(l); } return (int)ret(k_open(p, fl, m)); }
int sim_openat(int, const char *p, int fl, ...) { unsigned m = 0; if (oflags_need_mode(fl)) { va_list l; va_start(l, fl); m = va_arg(l, unsigned); va_end(l); } return (int)ret(k_open(p, fl, m)); }
int sim_creat(const char *p, unsigned m) { return (int)ret(k_open(p, O_WRONLY | O_CREAT | O_TRUNC, m)); }
int sim_close(int fd) { return (int)ret(k_close(fd)); }
long sim_read(int fd, void *b, size_t n) { return ret(k_read(fd, b, n)); }
long sim_write(int fd, const void *b, size_t n) { return ret(k_write(fd, b, n)); }
long sim_pread(int fd, void *b, size_t n, long o) { long s = k_lseek(fd, 0, SEEK_CUR); k_lseek(fd, o, SEEK_SET); long r = k_read(fd, b, n); k_lseek(fd, s, SEEK_SET); return ret(r); }
long sim_lseek(int fd, long o, int w) { return ret(k_lseek(fd, o, w)); }
int sim_dup(int fd) { return (int)ret(k_dup(fd, 0)); }
int sim_dup2(int a, int b) { return (int)ret(k_dup2(a, b)); }
int sim_fcntl(int fd, int c, ...) { va_list l; va_start(l, c); long a = va_arg(l, long); va_end(l); if (c == F_DUPFD || c == F_DUPFD_CLOEXEC) return (int)ret(k_dup(fd, (int)a)); return 0; }
int sim_pipe(int *) { errno = EMFILE; return -1; }
long sim_sendfile(int o, int i, long *, size_t n) { char b[4096]; long r = k_read(i, b, n < sizeof b ? n : sizeof b); if (r <= 0) return ret(r); long w = k_write(o, b, r); if (w < r && w >= 0) k_lseek(i, w - r, SEEK_CUR); return ret(w); }
long sim_copy_file_range(int, void *, int, void *, size_t, unsigned) { errno = ENOSYS; return -1; }
int sim_fsync(int fd) { KStat s; return (int)ret(k_fstat(fd, &s)); }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
int sim_unlink(const char *p) { return (int)ret(k_unlink(p, false)); }
int sim_unlinkat(int, const char *p, int) { return sim_unlink(p); }
int sim_rmdir(const char *p) { return (int)ret(k_rmdir(p)); }
int sim_remove(const char *p) { return (int)ret(k_unlink(p, true)); }
int sim_rename(const char *a, const char *b) { return (int)ret(k_rename(a, b)); }
int sim_renameat(int, const char *a, int, const char *b) { return sim_rename(a, b); }
int sim_link(const char *a, const char *b) { return (int)ret(k_link(a, b)); }
int sim_symlink(const char *a, const char *b) { return (int)ret(k_symlink(a, b)); }
static void cvt(const KStat &k, struct stat *s) { memset(s, 0, sizeof *s); s->st_ino = k.ino; s->st_size = (k.type == I_REG || k.type == I_SYMLINK) ? (long)k.size : 0; s->st_mode = k.mode | (k.type == I_DIR ? S_IFDIR : k.type == I_REG || k.type == I_PROG ? S_IFREG : k.type == I_SYMLINK ? S_IFLNK : k.type == I_CAP ? S_IFIFO : S_IFCHR); s->st_uid = s->st_gid = 1000; s->st_nlink = k.nlink; s->st_mtime = s->st_atime = s->st_ctime = k.mtime; s->st_blksize = 4096; s->st_dev = 8; }
int sim_stat(const char *p, struct stat *s) { KStat k; int r = k_stat(p, &k, true); if (r < 0) return (int)ret(r); cvt(k, s); return 0; }
int sim_lstat(const char *p, struct stat *s) { KStat k; int r = k_stat(p, &k, false); if (r < 0) return (int)ret(r); cvt(k, s); return 0; }
int sim_fstat(int fd, struct stat *s) { KStat k; int r = k_fstat(fd, &k); if (r < 0) return (int)ret(r); cvt(k, s); return 0; }
int sim_stat64(const char *p, struct stat *s) { return sim_stat(p, s); } int sim_lstat64(const char *p, struct stat *s) { return sim_lstat(p, s); } int sim_fstat64(int fd, struct stat *s) { return sim_fstat(fd, s); }
int sim_fstatat(int, const char *p, struct stat *s, int fl) { return fl & AT_SYMLINK_NOFOLLOW ? sim_lstat(p, s) : sim_stat(p, s); }
int sim_access(const char *p, int m) { return (int)ret(k_access(p, m)); }
int sim_faccessat(int, const char *p, int m, int) { return sim_access(p, m); }
int sim_euidaccess(const char *p, int m) { return sim_access(p, m); }
long sim_readlink(const char *p, char *b, size_t n) { return ret(k_readlink(p, b, n)); }
char *sim_realpath(const char *p, char *o) { KStat k; int r = k_stat(p, &k, true); if (r < 0) { errno = -r; return nullptr; } string n = path_norm(cur->cwd, p); if (!o) o = (char *)sim_malloc(4096); if (o) snprintf(o, 4096, "%s", n.c_str()); return o; }
int sim_mkdir(const char *p, unsigned m) { return (int)ret(k_mkdir(p, m)); }
int sim_chmod(const char *p, unsigned m) { return (int)ret(k_chmod(p, m)); }
int sim_fchmod(int fd, unsigned m) { return (int)ret(k_fchmod(fd, m)); }
int sim_chown(const char *, unsigned, unsigned) { return 0; } int sim_fchown(int, unsigned, unsigned) { return 0; }
int sim_utime(const char *, const void *) { return 0; } int sim_utimes(const char *, const void *) { return 0; } int sim_futimens(int, const void *) { return 0; } int sim_utimensat(int, const char *, const void *, int) { return 0; }
int sim_truncate(const char *p, long n) { return (int)ret(k_trunc(p, -1, n)); }
int sim_ftruncate(int fd, long n) { return (int)ret(k_trunc(nullptr, fd, n)); }
int sim_chdir(const char *p) { return (int)ret(k_chdir(p)); }
unsigned sim_umask(unsigned m) { return k_umask(m); }
char *sim_getcwd(char *b, size_t n) { k_misc("getcwd", nullptr); if (!b) { n = n ? n : 4096; b = (char *)sim_malloc(n); if (!b) return nullptr; } if (cur->cwd.size() + 1 > n) { errno = ERANGE; return nullptr; } strcpy(b, cur->cwd.c_str()); return b; }
int sim_isatty(int) { errno = ENOTTY; return 0; }
static int mkst(char *t, int suf, int fl) {
	size_t n = strlen(t); if (n < 6 + (size_t)suf || memcmp(t + n - 6 - suf, "XXXXXX", 6)) { errno = EINVAL; return -1; }
	static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
	for (int k = 0; k < 100; k++) { for (int i = 0; i < 6; i++) t[n - 6 - suf + i] = al[W->misc.below(62)]; int r = k_open(t, O_RDWR | O_CREAT | O_EXCL | fl, 0600, k == 0 ? OP_MKSTEMP : -1); if (r != -EEXIST) return (int)ret(r); }
	errno = EEXIST; return -1;
}
int sim_mkstemp(char *t) { return mkst(t, 0, 0); } int sim_mkstemp64(char *t) { return mkst(t, 0, 0); } int sim_mkostemp(char *t, int f) { return mkst(t, 0, f); } int sim_mkstemps(char *t, int s) { return mkst(t, s, 0); } int sim_mkostemps(char *t, int s, int f) { return mkst(t, s, f); }
char *sim_mktemp(char *t) { size_t n = strlen(t); static const char al[] = "abcdefghijklmnopqrstuvwxyz0123456789"; for (int i = 0; i < 6; i++) t[n - 6 + i] = al[W->misc.below(36)]; return t; }
char *sim_mkdtemp(char *t) { sim_mktemp(t); return sim_mkdir(t, 0700) < 0 ? nullptr : t; }
char *sim_tmpnam(char *b) { if (!b) b = cur->plibc->tmbuf; strcpy(b, "/tmp/fileXXXXXX"); sim_mktemp(b); return b; }
char *sim_tempnam(const char *d, const char *p) { char *b = (char *)sim_malloc(512); if (!b) return nullptr; snprintf(b, 512, "%s/%sXXXXXX", d ? d : "/tmp", p ? p : ""); sim_mktemp(b); return b; }
// ---- time
static void tick(const char *n) { k_misc(n, nullptr); W->clock_reads.push_back({cur->drv, cur->ex, W->now_us}); }
time_t sim_time(time_t *t) { tick("time"); time_t v = W->now_us / 1000000; if (t) *t = v; return v; }
int sim_gettimeofday(struct timeval *tv, void *) { tick("gettimeofday"); tv->tv_sec = W->now_us / 1000000; tv->tv_usec = W->now_us % 1000000; return 0; }
int sim_clock_gettime(int, struct timespec *ts) { tick("clock_gettime"); ts->tv_sec = W->now_us / 1000000; ts->tv_nsec = W->now_us % 1000000 * 1000; return 0; }
clock_t sim_clock(void) { return W->nops; }
struct tm *sim_gmtime_r(const time_t *t, struct tm *o) { return gmtime_r(t, o); }
static int tzoff() { const char *z = sim_getenv("TZ"); if (!z) return 0; int h = 0; const char *p = z; while (*p && *p != '+' && *p != '-' && !(*p >= '0' && *p <= '9')) p++; h = atoi(p); return -h * 3600; }
struct tm *sim_localtime_r(const time_t *t, struct tm *o) { time_t v = *t + tzoff(); return gmtime_r(&v, o); }
static_assert(sizeof(struct tm) <= 64, "tm");
struct tm *sim_gmtime(const time_t *t) { return gmtime_r(t, (struct tm *)cur->plibc->tmbuf); }
struct tm *sim_localtime(const time_t *t) { return sim_localtime_r(t, (struct tm *)cur->plibc->tmbuf); }
time_t sim_mktime(struct tm *t) { return timegm(t) - tzoff(); }
char *sim_asctime(const struct tm *t) { return asctime_r(t, cur->plibc->ctimebuf); }
char *sim_ctime(const time_t *t) { return sim_asctime(sim_localtime(t)); }
void sim_tzset(void) {}
unsigned sim_sleep(unsigned s) { W->now_us += s * 1000000l; k_misc("sleep", nullptr); return 0; }
int sim_usleep(unsigned s) { W->now_us += s; k_misc("usleep", nullptr); return 0; }
int sim_nanosleep(const struct timespec *a, struct timespec *) { W->now_us += a->tv_sec * 1000000l + a->tv_nsec / 1000; k_misc("nanosleep", nullptr); return 0; }
int sim_rand(void) { cur->plibc->rand_state = cur->plibc->rand_state * 1103515245u + 12345u; return (int)(cur->plibc->rand_state >> 1); }
void sim_srand(unsigned s) { cur->plibc->rand_state = s; } long sim_random(void) { return sim_rand(); } void sim_srandom(unsigned s) { sim_srand(s); }
long sim_getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((char *)b)[i] = (char)W->misc.next(); return (long)n; }
int sim_uname(struct utsname *u) { memset(u, 0, sizeof *u); strcpy(u->sysname, "Linux"); strcpy(u->nodename, "sim"); strcpy(u->release, "6.0"); strcpy(u->version, "#1"); strcpy(u->machine, "x86_64"); return 0; }
int sim_gethostname(char *b, size_t n) { snprintf(b, n, "sim"); return 0; }
void *sim_dlopen(const char *, int) { return nullptr; } void *sim_dlsym(void *, const char *) { return nullptr; } int sim_dlclose(void *) { return 0; } char *sim_dlerror(void) { return nullptr; }
char *sim_setlocale(int, const char *) { return (char *)"C"; }
int sim_getrusage(int, void *r) { memset(r, 0, sizeof(struct rusage)); return 0; }
int sim_getrlimit(int, struct rlimit *r) { r->rlim_cur = r->rlim_max = RLIM_INFINITY; return 0; } int sim_setrlimit(int, const void *) { return 0; }
// ---- stdio
static SFILE *fopen_flags(const char *p, int fl, bool rd, bool wr) { int fd = k_open(p, fl, 0666); if (fd < 0) { errno = -fd; return nullptr; } if (!k_alloc_ok()) { k_close(fd); errno = ENOMEM; return nullptr; } SFILE *f = mkfile(fd, rd, wr); f->append = fl & O_APPEND; return f; }
void *sim_fopen(const char *p, const char *m) { bool rd, wr; int fl = parse_mode(m, rd, wr); if (fl < 0) return nullptr; return fopen_flags(p, fl, rd, wr); }
void *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
void *sim_fdopen(int fd, const char *m) { bool rd, wr; if (parse_mode(m, rd, wr) < 0) return nullptr; if (!k_alloc_ok()) { errno = ENOMEM; return nullptr; } return mkfile(fd, rd, wr); }
void *sim_tmpfile(void) { char t[] = "/tmp/tmpfXXXXXX"; int fd = mkst(t, 0, 0); if (fd < 0) return nullptr; k_unlink(t, false); return mkfile(fd, true, true); }
static int close_it(SFILE *f) { int r = flush(f), e = errno; int c = k_close(f->fd); if (c < 0) { errno = -c; return -1; } if (r) { errno = e; return -1; } return 0; }
int sim_fclose(void *v) { SFILE *f = chk(v); int r = close_it(f), e = errno; SFILE **pp = &cur->plibc->files; while (*pp && *pp != f) pp = &(*pp)->next; if (*pp) *pp = f->next; f->magic = 0; if (f->own_buf && f->buf) heap_free(f->buf); if (f != cur->plibc->in && f != cur->plibc->out && f != cur->plibc->err) heap_free(f); errno = e; return r; }
void *sim_freopen(const char *p, const char *m, void *v) {
	SFILE *f = chk(v); bool rd, wr; int fl = parse_mode(m, rd, wr); if (fl < 0) return nullptr; flush(f); int old = f->fd;
	int fd = k_open(p, fl, 0666); if (fd < 0) { int e = -fd; k_close(old); f->fd = -1; errno = e; return nullptr; }
	k_dup2(fd, old); k_close(fd); f->fd = old;
	f->rd = rd; f->wr = wr; f->eof = f->err = false; f->rpos = f->rend = f->wpos = 0; f->unget = -1; return f;
}
int sim_fflush(void *v) { if (!v) { libc_flush_all(); return 0; } return flush(chk(v)); }
int sim_fflush_unlocked(void *v) { return sim_fflush(v); }
size_t sim_fwrite(const void *p, size_t a, size_t b, void *v) { SFILE *f = chk(v); size_t n = a * b; if (!n) return 0; size_t r = put(f, (const char *)p, n); return r == n ? b : r / a; }
size_t sim_fread(void *p, size_t a, size_t b, void *v) { SFILE *f = chk(v); size_t n = a * b, o = 0; char *q = (char *)p; if (!n) return 0; while (o < n) { if (f->unget < 0 && f->rpos < f->rend) { size_t k = f->rend - f->rpos; if (k > n - o) k = n - o; memcpy(q + o, f->buf + f->rpos, k); f->rpos += k; o += k; continue; } int c = getch(f); if (c == EOF) break; q[o++] = (char)c; } return o / a; }
size_t sim_fwrite_unlocked(const void *p, size_t a, size_t b, void *v) { return sim_fwrite(p, a, b, v); }
size_t sim_fread_unlocked(void *p, size_t a, size_t b, void *v) { return sim_fread(p, a, b, v); }
int sim_fputc(int c, void *v) { char ch = (char)c; return put(chk(v), &ch, 1) == 1 ? (unsigned char)c : EOF; }
int sim_putc(int c, void *v) { return sim_fputc(c, v); } int sim__IO_putc(int c, void *v) { return sim_fputc(c, v); } int sim_putc_unlocked(int c, void *v) { return sim_fputc(c, v); } int sim_fputc_unlocked(int c, void *v) { return sim_fputc(c, v); }
int sim_putchar(int c) { return sim_fputc(c, sim_stdout); } int sim_putchar_unlocked(int c) { return sim_putchar(c); }
int sim_fputs(const char *s, void *v) { size_t n = strlen(s); return put(chk(v), s, n) == n ? 1 : EOF; } int sim_fputs_unlocked(const char *s, void *v) { return sim_fputs(s, v); }
int sim_puts(const char *s) { if (sim_fputs(s, sim_stdout) < 0) return EOF; return sim_fputc('\n', sim_stdout) < 0 ? EOF : 1; }
int sim_fgetc(void *v) { return getch(chk(v)); }
int sim_getc(void *v) { return getch(chk(v)); } int sim__IO_getc(void *v) { return sim_fgetc(v); } int sim_getc_unlocked(void *v) { return sim_fgetc(v); } int sim_fgetc_unlocked(void *v) { return sim_fgetc(v); }
int sim_getchar(void) { return sim_fgetc(sim_stdin); } int sim_getchar_unlocked(void) { return sim_getchar(); }
int sim_ungetc(int c, void *v) { SFILE *f = chk(v); if (c == EOF) return EOF; f->unget = (unsigned char)c; f->eof = false; return c; }
char *sim_fgets(char *b, int n, void *v) { SFILE *f = chk(v); int i = 0; bool olderr = f->err; f->err = false; while (i < n - 1) { int c = getch(f); if (c == EOF) break; b[i++] = (char)c; if (c == '\n') break; } bool bad = f->err && errno != EAGAIN; f->err |= olderr; if (i == 0 || bad) return nullptr; b[i] = 0; return b; }
long sim_getdelim(char **lp, size_t *np, int d, void *v) { SFILE *f = chk(v); size_t i = 0; if (!*lp || !*np) { *np = 120; *lp = (char *)sim_realloc(*lp, 120); if (!*lp) return -1; } for (;;) { int c = getch(f); if (c == EOF) { if (i == 0 || f->err) return -1; break; } if (i + 2 > *np) { char *q = (char *)sim_realloc(*lp, *np * 2); if (!q) return -1; *lp = q; *np *= 2; } (*lp)[i++] = (char)c; if (c == d) break; } (*lp)[i] = 0; return (long)i; }
long sim_getline(char **lp, size_t *np, void *v) { return sim_getdelim(lp, np, '\n', v); }
int sim_feof(void *v) { return chk(v)->eof; } int sim_ferror(void *v) { return chk(v)->err; } void sim_clearerr(void *v) { SFILE *f = chk(v); f->eof = f->err = false; } int sim_fileno(void *v) { return chk(v)->fd; }
int sim_feof_unlocked(void *v) { return sim_feof(v); } int sim_ferror_unlocked(void *v) { return sim_ferror(v); } int sim_fileno_unlocked(void *v) { return sim_fileno(v); } void sim_clearerr_unlocked(void *v) { sim_clearerr(v); }
int sim_setvbuf(void *v, char *b, int m, size_t n) { SFILE *f = chk(v); f->unbuf = m == _IONBF; f->linebuf = m == _IOLBF; if (b && n) { f->buf = b; f->cap = n; f->own_buf = false; } return 0; }
void sim_setbuf(void *v, char *b) { sim_setvbuf(v, b, b ? _IOFBF : _IONBF, BUFSIZ); }
void sim_setlinebuf(void *v) { sim_setvbuf(v, nullptr, _IOLBF, 0); }
int sim_fseek(void *v, long o, int w) { SFILE *f = chk(v); if (flush(f)) return -1; if (w == SEEK_CUR) o -= (long)(f->rend - f->rpos); f->rpos = f->rend = 0; f->unget = -1; long r = k_lseek(f->fd, o, w); if (r < 0) { errno = (int)-r; return -1; } f->eof = false; return 0; }
int sim_fseeko(void *v, long o, int w) { return sim_fseek(v, o, w); }
long sim_ftell(void *v) { SFILE *f = chk(v); long r = k_lseek(f->fd, 0, SEEK_CUR); if (r < 0) { errno = (int)-r; return -1; } return r - (long)(f->rend - f->rpos) + (long)f->wpos - (f->unget >= 0); }
long sim_ftello(void *v) { return sim_ftell(v); }
void sim_rewind(void *v) { sim_fseek(v, 0, SEEK_SET); sim_clearerr(v); }
int sim_vfprintf(void *v, const char *f, va_list l) { return vprint(chk(v), f, l); }
int sim_fprintf(void *v, const char *f, ...) { va_list l; va_start(l, f); int r = vprint(chk(v), f, l); va_end(l); return r; }
int sim_printf(const char *f, ...) { va_list l; va_start(l, f); int r = vprint(chk(sim_stdout), f, l); va_end(l); return r; }
int sim_vprintf(const char *f, va_list l) { return vprint(chk(sim_stdout), f, l); }
int sim_dprintf(int fd, const char *f, ...) { char b[4096]; va_list l; va_start(l, f); int n = vsnprintf(b, sizeof b, f, l); va_end(l); long r = k_write(fd, b, n < 4095 ? n : 4095); return (int)ret(r); }
void sim_perror(const char *s) { int e = errno; SFILE *f = (SFILE *)sim_stderr; char b[600]; if (s && *s) snprintf(b, sizeof b, "%s: %s\n", s, strerror(e)); else snprintf(b, sizeof b, "%s\n", strerror(e)); put(f, b, strlen(b)); }
void *sim_popen(const char *, const char *) { errno = EMFILE; return nullptr; } int sim_pclose(void *) { return -1; }
void sim_flockfile(void *) {} void sim_funlockfile(void *) {}
void sim_sync(void) {}
char *sim_strtok(char *s, const char *d) { return strtok_r(s, d, &cur->plibc->strtok_save); }
long sim_sysconf(int n) { return n == _SC_PAGESIZE ? 4096 : n == _SC_OPEN_MAX ? 1024 : n == _SC_ARG_MAX ? 2097152 : -1; }
void *sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
}

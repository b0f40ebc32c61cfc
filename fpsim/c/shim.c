/* LD_PRELOAD shim: records the file-system operations under one directory and makes chosen ones fail.
 *
 * Operations on paths (or descriptors of files) below `root` are numbered from 0 after fs_begin().
 * Mutations are logged with their data, so that the state of the disk after any prefix of them can be
 * rebuilt.  An armed fault makes operation number k fail, be short or torn, or be followed by SIGINT.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_WRITE, OP_TRUNC, OP_RENAME, OP_UNLINK, OP_FSYNC, OP_CLOSE, OP_READ, OP_LINK, OP_MKDIR, OP_RMDIR,
       OP_GAP, OP_SYNCDIR, OP_LOCK };
enum { F_NONE = 0, F_ERR, F_SHORT, F_TORN, F_INT, F_FULL, F_CRASH };

static char root[PATH_MAX];
static size_t rootlen;
static int active;
static int arm_mode, arm_errno, arm_sticky, arm_filter, trace_reads;
static uint64_t arm_at;
/* the log lives in shared memory: a parent can read what a forked child did, even if that died */
struct shared { uint64_t nops, blen, fired, fired_op, fired_kind, seen; char buf[]; };
static struct shared *S;
#define SHARED_SIZE (1ULL << 28)
#define nops S->nops
#define buf S->buf
#define blen S->blen
#define fired S->fired
#define fired_op S->fired_op
#define fired_kind S->fired_kind

#define MAXFD 65536
static unsigned char tracked[MAXFD];   /* 1 read-only, 2 writable, 4 directory */

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__)
REAL(int, open, const char *, int, ...);
REAL(int, open64, const char *, int, ...);
REAL(int, openat, int, const char *, int, ...);
REAL(int, openat64, int, const char *, int, ...);
REAL(int, creat, const char *, mode_t);
REAL(FILE *, fopen, const char *, const char *);
REAL(FILE *, fopen64, const char *, const char *);
REAL(ssize_t, write, int, const void *, size_t);
REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
REAL(ssize_t, writev, int, const struct iovec *, int);
REAL(ssize_t, read, int, void *, size_t);
REAL(ssize_t, pread, int, void *, size_t, off_t);
REAL(ssize_t, pread64, int, void *, size_t, off64_t);
REAL(int, ftruncate, int, off_t);
REAL(int, ftruncate64, int, off64_t);
REAL(int, truncate, const char *, off_t);
REAL(int, rename, const char *, const char *);
REAL(int, renameat, int, const char *, int, const char *);
REAL(int, renameat2, int, const char *, int, const char *, unsigned);
REAL(int, link, const char *, const char *);
REAL(int, linkat, int, const char *, int, const char *, int);
REAL(int, symlink, const char *, const char *);
REAL(int, unlink, const char *);
REAL(int, unlinkat, int, const char *, int);
REAL(int, mkdir, const char *, mode_t);
REAL(int, rmdir, const char *);
REAL(int, fsync, int);
REAL(int, fdatasync, int);
REAL(int, close, int);
REAL(int, fclose, FILE *);
REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
REAL(int, flock, int, int);
REAL(int, dup, int);
REAL(int, dup2, int, int);
REAL(int, fcntl, int, int, ...);
REAL(int, fcntl64, int, int, ...);
REAL(void *, mmap, void *, size_t, int, int, int, off_t);
REAL(void *, mmap64, void *, size_t, int, int, int, off64_t);
REAL(ssize_t, sendfile, int, int, off_t *, size_t);
REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
REAL(int, fallocate, int, int, off_t, off_t);
REAL(int, posix_fallocate, int, off_t, off_t);

__attribute__((constructor)) static void init(void)
{
#define GET(name) real_##name = dlsym(RTLD_NEXT, #name)
    GET(open); GET(open64); GET(openat); GET(openat64); GET(creat); GET(fopen); GET(fopen64); GET(write); GET(pwrite);
    GET(pwrite64); GET(writev); GET(read); GET(pread); GET(pread64); GET(ftruncate); GET(ftruncate64); GET(truncate);
    GET(rename); GET(renameat); GET(renameat2); GET(link); GET(linkat); GET(symlink); GET(unlink); GET(unlinkat);
    GET(mkdir); GET(rmdir); GET(fsync); GET(fdatasync); GET(close); GET(fclose); GET(fwrite); GET(flock); GET(dup); GET(dup2); GET(fcntl); GET(fcntl64);
    GET(mmap); GET(mmap64); GET(sendfile); GET(sendfile64); GET(copy_file_range); GET(fallocate); GET(posix_fallocate);
}

/* ---- control, called from Python through ctypes ---- */
void fs_begin(const char *r)
{
    strncpy(root, r, sizeof root - 1);
    rootlen = strlen(root);
    if (!S) S = real_mmap(NULL, SHARED_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) abort();
    nops = 0; blen = 0; fired = 0; fired_kind = 0;
    memset(tracked, 0, sizeof tracked);
    active = 1;
}
void fs_end(void) { active = 0; arm_mode = 0; trace_reads = 0; }
/* filter: bit set of (1 << OP_*) that are eligible; the fault hits the at-th eligible operation */
void fs_arm(int mode, int err, uint64_t at, int sticky, int filter)
{
    arm_mode = mode; arm_errno = err; arm_at = at; arm_sticky = sticky; arm_filter = filter; fired = 0; fired_kind = 0; S->seen = 0;
}
void fs_disarm(void) { arm_mode = 0; }
/* log reads too (file only) */
void fs_trace(int y) { trace_reads = y; }
uint64_t fs_nops(void) { return nops; }
/* eligible operations met since fs_arm() */
uint64_t fs_seen(void) { return S->seen; }
uint64_t fs_fired(void) { return fired; }
uint64_t fs_fired_op(void) { return fired_op; }
int fs_fired_kind(void) { return fired_kind; }
const char *fs_log(void) { return buf; }
uint64_t fs_loglen(void) { return blen; }

static void put(const void *p, size_t n)
{
    if (sizeof *S + blen + n > SHARED_SIZE) abort();
    if (n) memcpy(buf + blen, p, n);
    blen += n;
}

static void record(uint32_t kind, uint64_t ino, uint64_t off, const char *path, const void *data, uint64_t n)
{
    uint64_t h[6] = { kind, ino, off, path ? strlen(path) : 0, n, nops };
    put(h, sizeof h);
    if (path) put(path, strlen(path));
    if (data) put(data, n);
}

/* canonical absolute path (purely textual: no symbolic links are expected below root) */
static int canon(int dirfd, const char *path, char *out)
{
    char tmp[PATH_MAX * 2];
    if (!active || !path) return 0;
    if (path[0] == '/') snprintf(tmp, sizeof tmp, "%s", path);
    else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
        else {
            char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t k = readlink(l, base, sizeof base - 1);
            if (k < 0) return 0;
            base[k] = 0;
        }
        snprintf(tmp, sizeof tmp, "%s/%s", base, path);
    }
    char *parts[256]; int n = 0; char *save, *t;
    for (t = strtok_r(tmp, "/", &save); t; t = strtok_r(NULL, "/", &save)) {
        if (!strcmp(t, ".")) continue;
        if (!strcmp(t, "..")) { if (n) n--; continue; }
        if (n < 256) parts[n++] = t;
    }
    out[0] = 0; size_t o = 0;
    for (int i = 0; i < n; i++) o += snprintf(out + o, PATH_MAX - o, "/%s", parts[i]);
    return !strncmp(out, root, rootlen) && (out[rootlen] == '/' || out[rootlen] == 0);
}

/* decide whether this operation is hit; kind is an OP_* */
static int hit(int kind)
{
    nops++;
    if (!arm_mode || !(arm_filter & (1 << kind))) return 0;
    S->seen++;
    if (fired && arm_sticky) { fired++; return arm_mode; }
    if (fired) return 0;
    if (arm_at-- != 0) return 0;
    fired = 1; fired_op = nops - 1; fired_kind = kind;
    if (arm_mode == F_INT) { raise(SIGINT); return 0; }
    if (arm_mode == F_CRASH) { raise(SIGKILL); }
    return arm_mode;
}

static int on(int fd) { return active && fd >= 0 && fd < MAXFD && tracked[fd]; }
static uint64_t ino_of(int fd) { struct stat st; return fstat(fd, &st) ? 0 : st.st_ino; }

static int after_open(int fd, const char *p, int flags, int existed)
{
    if (fd < 0 && trace_reads) record(OP_OPEN, 0, 8, p, NULL, 0);     /* (failed of itself) */
    if (fd >= 0 && fd < MAXFD) {
        struct stat st;
        fstat(fd, &st);
        tracked[fd] = S_ISDIR(st.st_mode) ? 4 : ((flags & O_ACCMODE) == O_RDONLY ? 1 : 2);
        if (!S_ISDIR(st.st_mode))
            record(OP_OPEN, st.st_ino, (existed ? 0 : 1) | ((flags & O_TRUNC) ? 2 : 0) | ((flags & O_ACCMODE) == O_RDONLY ? 0 : 4), p, NULL, 0);
    }
    return fd;
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode, int big)
{
    char p[PATH_MAX];
    if (!canon(dirfd, path, p)) {
        int fd = big ? real_openat64(dirfd, path, flags, mode) : real_openat(dirfd, path, flags, mode);
        if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
        return fd;
    }
    struct stat st;
    int existed = !stat(p, &st);
    if (existed && S_ISDIR(st.st_mode)) {
        int fd = real_openat64(dirfd, path, flags, mode);
        if (fd >= 0 && fd < MAXFD) tracked[fd] = 4;
        return fd;
    }
    int h = hit(OP_OPEN);
    if (h && (h != F_FULL || (!existed && (flags & O_CREAT)))) { errno = h == F_FULL ? ENOSPC : arm_errno; return -1; }
    int fd = big ? real_openat64(dirfd, path, flags, mode) : real_openat(dirfd, path, flags, mode);
    return after_open(fd, p, flags, existed);
}

#define MODE(flags) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, path, flags, mode, 0); }
int open64(const char *path, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, path, flags, mode, 1); }
int openat(int d, const char *path, int flags, ...) { MODE(flags) return do_open(d, path, flags, mode, 0); }
int openat64(int d, const char *path, int flags, ...) { MODE(flags) return do_open(d, path, flags, mode, 1); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode, 0); }

static FILE *do_fopen(const char *path, const char *m, int big)
{
    char p[PATH_MAX];
    if (!canon(AT_FDCWD, path, p)) return big ? real_fopen64(path, m) : real_fopen(path, m);
    int plus = strchr(m, '+') != NULL;
    int flags = m[0] == 'r' ? (plus ? O_RDWR : O_RDONLY)
              : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (m[0] == 'w' ? O_TRUNC : O_APPEND);
    int fd = do_open(AT_FDCWD, path, flags, 0666, 1);
    if (fd < 0) return NULL;
    FILE *f = fdopen(fd, m);
    if (f && flags != O_RDONLY) setvbuf(f, NULL, _IONBF, 0);
    return f;
}
FILE *fopen(const char *path, const char *m) { return do_fopen(path, m, 0); }
FILE *fopen64(const char *path, const char *m) { return do_fopen(path, m, 1); }

static ssize_t do_write(int fd, const void *b, size_t n, int64_t off, int at)
{
    int h = hit(OP_WRITE);
    uint64_t ino = ino_of(fd);
    if (h == F_ERR) { errno = arm_errno; return -1; }
    if (h == F_FULL) { errno = ENOSPC; return -1; }
    size_t m = n;
    if (h == F_SHORT || h == F_TORN) m = n > 1 ? n / 2 : n;
    if (!at) {
        off = lseek(fd, 0, SEEK_CUR);
        int fl = fcntl(fd, F_GETFL);
        if (fl >= 0 && (fl & O_APPEND)) off = lseek(fd, 0, SEEK_END);
    }
    ssize_t r = at ? real_pwrite64(fd, b, m, off) : real_write(fd, b, m);
    if (r > 0) record(OP_WRITE, ino, off, NULL, b, r);
    if (h == F_TORN) { errno = arm_errno; return -1; }
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return on(fd) ? do_write(fd, b, n, 0, 0) : real_write(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return on(fd) ? do_write(fd, b, n, o, 1) : real_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return on(fd) ? do_write(fd, b, n, o, 1) : real_pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (!on(fd)) return real_writev(fd, v, c);
    ssize_t tot = 0;
    for (int i = 0; i < c; i++) {
        ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
        if (r < 0) return tot ? tot : -1;
        tot += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return tot;
}

size_t fwrite(const void *b, size_t s, size_t c, FILE *f)
{
    int fd = fileno(f);
    if (!on(fd)) return real_fwrite(b, s, c, f);
    fflush(f);
    size_t want = s * c, done = 0;
    while (done < want) {
        ssize_t r = do_write(fd, (const char *)b + done, want - done, 0, 0);
        if (r <= 0) return s ? done / s : 0;
        done += r;
    }
    return c;
}

static int rhit(int fd, size_t *n)
{
    if (trace_reads) record(OP_READ, ino_of(fd), 0, NULL, NULL, 0);
    int h = hit(OP_READ);
    if (h == F_ERR) { errno = arm_errno; return 1; }
    if (h == F_SHORT && *n > 1) *n /= 2;
    return 0;
}
ssize_t read(int fd, void *b, size_t n) { if (on(fd) && rhit(fd, &n)) return -1; return real_read(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { if (on(fd) && rhit(fd, &n)) return -1; return real_pread(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { if (on(fd) && rhit(fd, &n)) return -1; return real_pread64(fd, b, n, o); }

static int do_trunc(int fd, int64_t n)
{
    int h = hit(OP_TRUNC);
    if (h == F_FULL) {
        struct stat st;
        if (!fstat(fd, &st) && n > st.st_size) { errno = ENOSPC; return -1; }
        h = 0;
    }
    if (h) { errno = arm_errno; return -1; }
    int r = real_ftruncate64(fd, n);
    if (!r) record(OP_TRUNC, ino_of(fd), n, NULL, NULL, 0);
    return r;
}
int ftruncate(int fd, off_t n) { return on(fd) ? do_trunc(fd, n) : real_ftruncate(fd, n); }
int ftruncate64(int fd, off64_t n) { return on(fd) ? do_trunc(fd, n) : real_ftruncate64(fd, n); }
int truncate(const char *path, off_t n)
{
    char p[PATH_MAX];
    if (!canon(AT_FDCWD, path, p)) return real_truncate(path, n);
    int fd = do_open(AT_FDCWD, path, O_WRONLY, 0, 1);
    if (fd < 0) return -1;
    int r = do_trunc(fd, n);
    tracked[fd] = 0;
    real_close(fd);
    return r;
}

static int do_rename(int da, const char *a, int db, const char *b, unsigned flags)
{
    char pa[PATH_MAX], pb[PATH_MAX];
    int ta = canon(da, a, pa), tb = canon(db, b, pb);
    if (!ta && !tb) return flags ? real_renameat2(da, a, db, b, flags) : real_renameat(da, a, db, b);
    int h = hit(OP_RENAME);
    if (h && h != F_FULL) { errno = arm_errno; return -1; }
    if (!ta || !tb || flags) record(OP_GAP, 0, 0, "rename across the boundary or with flags", NULL, 0);
    int r = flags ? real_renameat2(da, a, db, b, flags) : real_renameat(da, a, db, b);
    if (!r && ta && tb) {
        record(OP_RENAME, 0, 0, pa, pb, strlen(pb));
    }
    return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int x, const char *a, int y, const char *b) { return do_rename(x, a, y, b, 0); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { return do_rename(x, a, y, b, f); }

static int do_link(int da, const char *a, int db, const char *b, int f)
{
    char pa[PATH_MAX], pb[PATH_MAX];
    int ta = canon(da, a, pa), tb = canon(db, b, pb);
    if (!ta && !tb) return real_linkat(da, a, db, b, f);
    int h = hit(OP_LINK);
    if (h) { errno = h == F_FULL ? ENOSPC : arm_errno; return -1; }
    int r = real_linkat(da, a, db, b, f);
    if (!r) record(OP_LINK, 0, 0, pa, pb, strlen(pb));
    return r;
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int x, const char *a, int y, const char *b, int f) { return do_link(x, a, y, b, f); }
int symlink(const char *a, const char *b)
{
    char p[PATH_MAX];
    if (canon(AT_FDCWD, b, p)) { nops++; record(OP_GAP, 0, 0, "symlink", NULL, 0); }
    return real_symlink(a, b);
}

static int do_unlink(int d, const char *path, int flags)
{
    char p[PATH_MAX];
    if (!canon(d, path, p)) return real_unlinkat(d, path, flags);
    int h = hit((flags & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK);
    if (h && h != F_FULL) { errno = arm_errno; return -1; }
    int r = real_unlinkat(d, path, flags);
    if (!r) record((flags & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK, 0, 0, p, NULL, 0);
    return r;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }
int remove(const char *p)
{
    struct stat st;
    if (!lstat(p, &st) && S_ISDIR(st.st_mode)) return rmdir(p);
    return unlink(p);
}
int mkdir(const char *path, mode_t m)
{
    char p[PATH_MAX];
    if (!canon(AT_FDCWD, path, p)) return real_mkdir(path, m);
    struct stat st;
    if (stat(p, &st)) {
        int h = hit(OP_MKDIR);
        if (h) { errno = h == F_FULL ? ENOSPC : arm_errno; return -1; }
    }
    int r = real_mkdir(path, m);
    if (!r) record(OP_MKDIR, 0, 0, p, NULL, 0);
    return r;
}

static int do_sync(int fd, int data)
{
    if (tracked[fd] == 4) {
        if (hit(OP_FSYNC)) { errno = arm_errno ? arm_errno : EIO; return -1; }
        record(OP_SYNCDIR, 0, 0, NULL, NULL, 0);
        return 0;
    }
    int h = hit(OP_FSYNC);
    if (h) { errno = h == F_FULL ? ENOSPC : arm_errno; return -1; }
    record(OP_FSYNC, ino_of(fd), 0, NULL, NULL, 0);
    return 0;
}
int fsync(int fd) { return on(fd) ? do_sync(fd, 0) : real_fsync(fd); }
int fdatasync(int fd) { return on(fd) ? do_sync(fd, 1) : real_fdatasync(fd); }

int close(int fd)
{
    if (!on(fd)) { if (fd >= 0 && fd < MAXFD) tracked[fd] = 0; return real_close(fd); }
    int t = tracked[fd], h = t == 2 ? hit(OP_CLOSE) : 0;
    tracked[fd] = 0;
    int r = real_close(fd);
    if (h && h != F_FULL) { errno = arm_errno; return -1; }
    return r;
}
int fclose(FILE *f)
{
    int fd = fileno(f);
    int h = 0;
    if (on(fd)) { h = tracked[fd] == 2 ? hit(OP_CLOSE) : 0; tracked[fd] = 0; }
    int r = real_fclose(f);
    if (h && h != F_FULL) { errno = arm_errno; return EOF; }
    return r;
}
int dup(int fd)
{
    int r = real_dup(fd);
    if (r >= 0 && r < MAXFD) tracked[r] = on(fd) ? tracked[fd] : 0;
    return r;
}
int dup2(int fd, int to)
{
    int r = real_dup2(fd, to);
    if (r >= 0 && r < MAXFD) tracked[r] = on(fd) ? tracked[fd] : 0;
    return r;
}
static int do_fcntl(int fd, int cmd, void *arg)
{
    int r = real_fcntl(fd, cmd, arg);
    if (r >= 0 && r < MAXFD && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) tracked[r] = on(fd) ? tracked[fd] : 0;
    return r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
int flock(int fd, int op)
{
    if (on(fd)) {
        int h = hit(OP_LOCK);
        if (h && h != F_FULL) { errno = EWOULDBLOCK; return -1; }
    }
    return real_flock(fd, op);
}
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t o)
{
    if (fd >= 0 && on(fd) && (prot & PROT_WRITE) && (flags & MAP_SHARED)) { nops++; record(OP_GAP, 0, 0, "shared writable mmap", NULL, 0); }
    return real_mmap64(a, n, prot, flags, fd, o);
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t o) { return mmap64(a, n, prot, flags, fd, o); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) { if (on(o)) { errno = EINVAL; return -1; } return real_sendfile(o, i, off, n); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { if (on(o)) { errno = EINVAL; return -1; } return real_sendfile64(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f)
{ if (on(o)) { errno = EINVAL; return -1; } return real_copy_file_range(i, a, o, b, n, f); }
int fallocate(int fd, int m, off_t o, off_t n) { if (on(fd)) { errno = EOPNOTSUPP; return -1; } return real_fallocate(fd, m, o, n); }
int posix_fallocate(int fd, off_t o, off_t n) { if (on(fd)) return EOPNOTSUPP; return real_posix_fallocate(fd, o, n); }

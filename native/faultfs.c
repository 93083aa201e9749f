/* Interposed file-system mutations under one directory: count, log, crash or fail the k-th.
 *
 * mode 0  record only
 * mode 1  process dies at operation `target` (a write first stores cut/4 of its bytes)
 * mode 2  machine dies there: additionally, data never fsynced is lost (kept: nothing / half)
 * mode 3  operation `target` fails with `err`
 * mode 4  from operation `target` on, every write/open/mkdir/rename fails (a write first stores cut/4)
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXF 256
#define MAXL 4096
static char prefix[1024];
static int armed, mode, target, cut, err, keep, n;
static struct { char path[1024]; int used, dirty; off_t durable; } files[MAXF];
static int fdmap[4096];
static char logbuf[MAXL][200];

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static int under(const char *p)
{
    return armed && p && strncmp(p, prefix, strlen(prefix)) == 0;
}

static int under_at(int dirfd, const char *p, char *out)
{
    if (!armed || !p) return 0;
    if (p[0] == '/' || dirfd == AT_FDCWD) { snprintf(out, 1024, "%s", p); return under(p); }
    char link[64], base[700];
    snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
    ssize_t k = readlink(link, base, sizeof base - 1);
    if (k < 0) return 0;
    base[k] = 0;
    snprintf(out, 1024, "%s/%s", base, p);
    return under(out);
}

static int find(const char *p, int make)
{
    int free_ = -1;
    for (int i = 0; i < MAXF; i++) {
        if (files[i].used && strcmp(files[i].path, p) == 0) return i;
        if (!files[i].used && free_ < 0) free_ = i;
    }
    if (!make || free_ < 0) return -1;
    files[free_].used = 1; files[free_].dirty = 0; files[free_].durable = 0;
    snprintf(files[free_].path, sizeof files[free_].path, "%s", p);
    return free_;
}

static void die(void)
{
    armed = 0;
    if (mode == 2)
        for (int i = 0; i < MAXF; i++)
            if (files[i].used && files[i].dirty) {
                struct stat st;
                if (stat(files[i].path, &st)) continue;
                off_t want = files[i].durable;
                if (keep && st.st_size > want) want += (st.st_size - want) / 2;
                if (truncate(files[i].path, want)) {}
            }
    _exit(77);
}

/* returns 0: go on, -1: fail with errno set; never returns on a crash */
static int op(const char *what, const char *path, int writes)
{
    int i = n++;
    if (i < MAXL) snprintf(logbuf[i], sizeof logbuf[i], "%s %s", what, path + strlen(prefix));
    if (mode == 3 && i == target) { errno = err; return -1; }
    if (mode == 4 && i >= target && writes) { errno = err; return -1; }
    if ((mode == 1 || mode == 2) && i == target) die();
    return 0;
}

int shim_arm(const char *p, int m, int t, int c, int e, int k)
{
    memset(files, 0, sizeof files);
    memset(fdmap, 0, sizeof fdmap);
    snprintf(prefix, sizeof prefix, "%s", p);
    mode = m; target = t; cut = c; err = e; keep = k; n = 0; armed = 1;
    return 1;
}
void shim_die(void) { die(); }
int shim_disarm(void) { armed = 0; return n; }
const char *shim_log(int i) { return i < MAXL ? logbuf[i] : ""; }

static int tracked_open(const char *path, int flags, int fd)
{
    if (fd >= 0 && fd < 4096 && (flags & O_ACCMODE) != O_RDONLY) {
        int i = find(path, 1);
        if (i >= 0) {
            fdmap[fd] = i + 1;
            struct stat st;
            off_t size = fstat(fd, &st) ? 0 : st.st_size;
            if (flags & O_TRUNC) { files[i].dirty = 1; files[i].durable = 0; }
            else if (!files[i].dirty) files[i].durable = size;
        }
    }
    return fd;
}

#define OPENER(NAME)                                                                   \
    int NAME(const char *path, int flags, ...)                                         \
    {                                                                                  \
        REAL(NAME);                                                                    \
        va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap);          \
        if (!under(path) || (flags & O_ACCMODE) == O_RDONLY) return real(path, flags, m); \
        if (op((flags & O_TRUNC) ? "open-trunc" : "open", path, 1)) return -1;         \
        return tracked_open(path, flags, real(path, flags, m));                        \
    }
OPENER(open)
OPENER(open64)

#define OPENERAT(NAME)                                                                 \
    int NAME(int d, const char *p, int flags, ...)                                     \
    {                                                                                  \
        REAL(NAME);                                                                    \
        char path[1024];                                                               \
        va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap);          \
        if (!under_at(d, p, path) || (flags & O_ACCMODE) == O_RDONLY) return real(d, p, flags, m); \
        if (op((flags & O_TRUNC) ? "open-trunc" : "open", path, 1)) return -1;         \
        return tracked_open(path, flags, real(d, p, flags, m));                        \
    }
OPENERAT(openat)
OPENERAT(openat64)

static int entry(int fd) { return armed && fd >= 0 && fd < 4096 ? fdmap[fd] - 1 : -1; }

ssize_t write(int fd, const void *buf, size_t len)
{
    REAL(write);
    int e = entry(fd);
    if (e < 0) return real(fd, buf, len);
    files[e].dirty = 1;
    int i = n, hit = (mode == 1 || mode == 2 || mode == 4) && i == target && cut;
    if (hit) {
        size_t part = len * (size_t)cut / 4;
        ssize_t k = part ? real(fd, buf, part) : 0;
        if (mode != 4) die();
        n++;
        if (i < MAXL) snprintf(logbuf[i], sizeof logbuf[i], "write %s", files[e].path + strlen(prefix));
        if (k > 0) return k;         /* a short write; what follows fails */
        errno = err; return -1;
    }
    if (op("write", files[e].path, 1)) return -1;
    return real(fd, buf, len);
}
ssize_t pwrite64(int fd, const void *buf, size_t len, off64_t off)
{
    REAL(pwrite64);
    int e = entry(fd);
    if (e < 0) return real(fd, buf, len, off);
    files[e].dirty = 1;
    if (op("pwrite", files[e].path, 1)) return -1;
    return real(fd, buf, len, off);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t c)
{
    REAL(sendfile64);
    int e = entry(o);
    if (e < 0) return real(o, i, off, c);
    files[e].dirty = 1;
    if (op("sendfile", files[e].path, 1)) return -1;
    return real(o, i, off, c);
}
int ftruncate64(int fd, off64_t len)
{
    REAL(ftruncate64);
    int e = entry(fd);
    if (e < 0) return real(fd, len);
    if (op("ftruncate", files[e].path, 1)) return -1;
    files[e].dirty = 1;
    if (files[e].durable > len) files[e].durable = len;
    return real(fd, len);
}
static int synced(int fd, int r)
{
    int e = entry(fd);
    struct stat st;
    if (e >= 0 && r == 0 && !fstat(fd, &st)) { files[e].dirty = 0; files[e].durable = st.st_size; }
    return r;
}
int fsync(int fd)
{
    REAL(fsync);
    int e = entry(fd);
    if (e < 0) return real(fd);
    if (op("fsync", files[e].path, 0)) return -1;
    return synced(fd, real(fd));
}
int fdatasync(int fd)
{
    REAL(fdatasync);
    int e = entry(fd);
    if (e < 0) return real(fd);
    if (op("fdatasync", files[e].path, 0)) return -1;
    return synced(fd, real(fd));
}
int close(int fd)
{
    REAL(close);
    if (armed && fd >= 0 && fd < 4096) fdmap[fd] = 0;
    return real(fd);
}
static void moved(const char *a, const char *b)
{
    int j = find(b, 0);
    if (j >= 0) files[j].used = 0;
    int i = find(a, 0);
    if (i >= 0) snprintf(files[i].path, sizeof files[i].path, "%s", b);
}
int rename(const char *a, const char *b)
{
    REAL(rename);
    if (!under(a) && !under(b)) return real(a, b);
    if (op("rename", under(b) ? b : a, 1)) return -1;
    int r = real(a, b);
    if (!r) moved(a, b);
    return r;
}
int renameat(int da, const char *a, int db, const char *b)
{
    REAL(renameat);
    char pa[1024] = "", pb[1024] = "";
    int ua = under_at(da, a, pa), ub = under_at(db, b, pb);
    if (!ua && !ub) return real(da, a, db, b);
    if (op("rename", ub ? pb : pa, 1)) return -1;
    int r = real(da, a, db, b);
    if (!r) moved(pa, pb);
    return r;
}
int link(const char *a, const char *b)
{
    REAL(link);
    if (!under(b)) return real(a, b);
    if (op("link", b, 1)) return -1;
    return real(a, b);
}
int unlink(const char *p)
{
    REAL(unlink);
    if (!under(p)) return real(p);
    if (op("unlink", p, 0)) return -1;
    int r = real(p), i = find(p, 0);
    if (!r && i >= 0) files[i].used = 0;
    return r;
}
int unlinkat(int d, const char *q, int fl)
{
    REAL(unlinkat);
    char p[1024];
    if (!under_at(d, q, p)) return real(d, q, fl);
    if (op("unlink", p, 0)) return -1;
    int r = real(d, q, fl), i = find(p, 0);
    if (!r && i >= 0) files[i].used = 0;
    return r;
}
int rmdir(const char *p)
{
    REAL(rmdir);
    if (under(p) && op("rmdir", p, 0)) return -1;
    return real(p);
}
int mkdir(const char *p, mode_t m)
{
    REAL(mkdir);
    if (under(p) && op("mkdir", p, 1)) return -1;
    return real(p, m);
}
int mkdirat(int d, const char *q, mode_t m)
{
    REAL(mkdirat);
    char p[1024];
    if (under_at(d, q, p) && op("mkdir", p, 1)) return -1;
    return real(d, q, m);
}

// In-memory disk behind the file functions. Only paths below /simdisk/ are simulated; all other
// paths go to the real system (the library never sees any).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {

enum { NFILE = 16, NFD = 32, FD0 = 1000, MAXFILE = 8 << 20 };
struct File {
    bool used;
    bool readonly;
    char name[288];
    unsigned char *data;
    size_t size, cap;
    size_t synced;  // bytes safe on the medium
};
struct Fd {
    bool used;
    int file;
    int64_t pos;
    bool rd, wr, app;
    FILE *fp;
    int err;  // error reported at close
};
static File files[NFILE];
static Fd fds[NFD];
static DiskFault flt[32];
static int nflt;
static bool flt_done[32];
static uint64_t opn[F_NKINDS];
static uint64_t nread_, nwrite_, nopen_, nclose_, nseek_;
static uint64_t bytes_written;
static int maxrd, maxwr;
static double peintr;
static Rng drng(1);
static int64_t capacity = -1;
static bool any_fault;
static void (*crash_hook)();

static bool is_sim(const char *p) { return p && strncmp(p, "/simdisk/", 9) == 0; }
// What the library would create, change or remove elsewhere happens in a corner of the simulated disk.
static char routed[4][280];
static const char *route(const char *p, bool change) {
    if (!p || !*p || strncmp(p, "/simdisk", 8) == 0 || !strncmp(p, "/dev/", 5)) return p;
    if (!g.on) return p;
    static int k;
    char *r = routed[k++ & 3];
    snprintf(r, sizeof routed[0], "/simdisk/@elsewhere%s%s", *p == '/' ? "" : "/", p);
    if (change) return r;
    for (auto &f : files)
        if (f.used && !strcmp(f.name, r)) return r;
    return p;
}
static void hit(FaultKind k) {
    fired(k);
    any_fault = true;
}
static File *find(const char *p) {
    for (auto &f : files)
        if (f.used && !strcmp(f.name, p)) return &f;
    return nullptr;
}
static void grow(File *f, size_t n) {
    if (n <= f->cap) return;
    NoLib nl;
    size_t c = f->cap ? f->cap : 4096;
    while (c < n) c *= 2;
    unsigned char *d = (unsigned char *)__builtin_malloc(c);
    memset(d, 0, c);
    if (f->data) {
        memcpy(d, f->data, f->size);
        __builtin_free(f->data);
    }
    f->data = d;
    f->cap = c;
}
static File *create(const char *p) {
    for (auto &f : files)
        if (!f.used) {
            f = File();
            f.used = true;
            snprintf(f.name, sizeof f.name, "%s", p);
            return &f;
        }
    return nullptr;
}
void disk_reset() {
    for (auto &f : files)
        if (f.used) {
            NoLib nl;
            if (f.data) __builtin_free(f.data);
            f = File();
        }
    nflt = 0;
    memset(flt_done, 0, sizeof flt_done);
    nread_ = nwrite_ = nopen_ = nclose_ = nseek_ = bytes_written = 0;
    maxrd = maxwr = 0;
    peintr = 0;
    capacity = -1;
    any_fault = false;
}
void disk_put(const char *path, const void *data, size_t n) {
    File *f = find(path);
    if (!f) f = create(path);
    grow(f, n + 1);
    memcpy(f->data, data, n);
    f->size = n;
    f->synced = n;
}
bool disk_get(const char *path, const unsigned char **data, size_t *n) {
    File *f = find(path);
    if (!f) return false;
    *data = f->data;
    *n = f->size;
    return true;
}
int disk_count() {
    int n = 0;
    for (auto &f : files) n += f.used;
    return n;
}
const char *disk_name(int i) {
    for (auto &f : files)
        if (f.used && i-- == 0) return f.name;
    return nullptr;
}
void disk_faults(const DiskFault *f, int n) {
    nflt = n > 32 ? 32 : n;
    for (int i = 0; i < nflt; i++) flt[i] = f[i];
    memset(flt_done, 0, sizeof flt_done);
    nread_ = nwrite_ = nopen_ = nclose_ = nseek_ = bytes_written = 0;
    any_fault = false;
}
void disk_transfer_limits(int mr, int mw, double eintr, uint64_t seed) {
    maxrd = mr;
    maxwr = mw;
    peintr = eintr;
    drng = Rng(seed ^ 0xd15c);
}
void disk_capacity(int64_t b) { capacity = b; }
bool disk_fault_fired() { return any_fault; }
void disk_set_crash_hook(void (*cb)()) { crash_hook = cb; }
int disk_open_handles() {
    int n = 0;
    for (auto &f : fds) n += f.used;
    return n;
}
uint64_t disk_touched_hash_except(const char *path) {
    uint64_t h = 1;
    for (auto &f : files)
        if (f.used && (!path || strcmp(f.name, path))) {
            for (const char *c = f.name; *c; c++) h = mix64(h ^ (unsigned char)*c);
            for (size_t i = 0; i < f.size; i++) h = mix64(h ^ f.data[i]);
        }
    return h;
}

static DiskFault *match(int kind, uint64_t n) {
    for (int i = 0; i < nflt; i++)
        if (flt[i].kind == kind && (flt[i].at == n || (flt[i].arg == 1 && n > flt[i].at))) return &flt[i];
    return nullptr;
}
static void step() {
    if (g.res) g.res->ioops++;
    hash_in(0xd15c ^ (g.res ? g.res->ioops : 0));
    if (g.on) yield_point();
}
static void maybe_crash(uint64_t op) {
    DiskFault *f = match(F_CRASH, op);
    if (f && crash_hook) {
        hit(F_CRASH);
        g.on = 0;
        crash_hook();
    }
}
static uint64_t total_ops;

static int do_open(const char *path, bool rd, bool wr, bool trunc, bool creat, bool app, bool excl) {
    step();
    nopen_++;
    maybe_crash(++total_ops);
    if (DiskFault *f = match(F_OPEN_ERR, nopen_)) {
        hit(F_OPEN_ERR);
        errno = f->err;
        return -1;
    }
    File *f = find(path);
    if (!f) {
        if (!creat) {
            errno = ENOENT;
            return -1;
        }
        f = create(path);
        if (!f) {
            errno = ENOSPC;
            return -1;
        }
    } else if (creat && excl) {
        errno = EEXIST;
        return -1;
    }
    if (trunc && wr) {
        f->size = 0;
        f->synced = 0;
    }
    for (int i = 0; i < NFD; i++)
        if (!fds[i].used) {
            fds[i] = Fd();
            fds[i].used = true;
            fds[i].file = (int)(f - files);
            fds[i].rd = rd;
            fds[i].wr = wr;
            fds[i].app = app;
            return FD0 + i;
        }
    errno = EMFILE;
    return -1;
}
static Fd *fd_of(int fd) { return fd >= FD0 && fd < FD0 + NFD && fds[fd - FD0].used ? &fds[fd - FD0] : nullptr; }

static ssize_t do_read(Fd *d, void *buf, size_t n) {
    step();
    nread_++;
    maybe_crash(++total_ops);
    if (!d->rd) {
        errno = EBADF;
        return -1;
    }
    if (peintr > 0 && drng.chance(peintr)) {
        hit(F_EINTR);
        errno = EINTR;
        return -1;
    }
    if (DiskFault *f = match(F_READ_ERR, nread_)) {
        hit(F_READ_ERR);
        errno = f->err;
        return -1;
    }
    File *f = &files[d->file];
    size_t left = (size_t)d->pos < f->size ? f->size - (size_t)d->pos : 0;
    size_t m = n < left ? n : left;
    if (maxrd > 0 && m > 1) {
        size_t lim = 1 + drng.below((uint64_t)maxrd);
        if (m > lim) {
            m = lim;
            hit(F_SHORT_READ);
        }
    }
    memcpy(buf, f->data + d->pos, m);
    d->pos += (int64_t)m;
    return (ssize_t)m;
}
static ssize_t do_write(Fd *d, const struct iovec *iov, int cnt) {
    step();
    nwrite_++;
    maybe_crash(++total_ops);
    if (!d->wr) {
        errno = EBADF;
        return -1;
    }
    if (peintr > 0 && drng.chance(peintr)) {
        hit(F_EINTR);
        errno = EINTR;
        return -1;
    }
    if (DiskFault *f = match(F_WRITE_ERR, nwrite_)) {
        hit(F_WRITE_ERR);
        errno = f->err;
        return -1;
    }
    size_t n = 0;
    for (int i = 0; i < cnt; i++) n += iov[i].iov_len;
    size_t m = n;
    if (maxwr > 0 && m > 1) {
        size_t lim = 1 + drng.below((uint64_t)maxwr);
        if (m > lim) {
            m = lim;
            hit(F_SHORT_WRITE);
        }
    }
    File *f = &files[d->file];
    if (d->app) d->pos = (int64_t)f->size;
    if (capacity >= 0) {
        uint64_t used = 0;
        for (auto &x : files)
            if (x.used) used += x.size;
        uint64_t room = used < (uint64_t)capacity ? (uint64_t)capacity - used : 0;
        uint64_t over = (uint64_t)d->pos + m > f->size ? (uint64_t)d->pos + m - f->size : 0;
        if (over > room) {
            hit(F_DISK_FULL);
            uint64_t fit = m - (over - room);
            if (fit == 0) {
                errno = ENOSPC;
                return -1;
            }
            m = fit;
        }
    }
    if ((size_t)d->pos + m > MAXFILE) {
        errno = EFBIG;
        return -1;
    }
    grow(f, (size_t)d->pos + m + 1);
    size_t done = 0;
    for (int i = 0; i < cnt && done < m; i++) {
        size_t k = iov[i].iov_len < m - done ? iov[i].iov_len : m - done;
        memcpy(f->data + d->pos + done, iov[i].iov_base, k);
        done += k;
    }
    d->pos += (int64_t)m;
    if ((size_t)d->pos > f->size) f->size = (size_t)d->pos;
    bytes_written += m;
    return (ssize_t)m;
}
static int64_t do_seek(Fd *d, int64_t off, int whence) {
    step();
    nseek_++;
    if (DiskFault *f = match(F_SEEK_ERR, nseek_)) {
        hit(F_SEEK_ERR);
        errno = f->err;
        return -1;
    }
    int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? d->pos : (int64_t)files[d->file].size;
    if (base + off < 0) {
        errno = EINVAL;
        return -1;
    }
    return d->pos = base + off;
}
static int do_close(Fd *d) {
    step();
    nclose_++;
    maybe_crash(++total_ops);
    File *f = &files[d->file];
    bool wr = d->wr;
    d->used = false;
    if (wr) {
        if (DiskFault *x = match(F_LOST_DATA, nclose_)) {
            // delayed write-back failed: part of the data is gone, the error is reported here
            hit(F_LOST_DATA);
            if (x->at) f->size = f->size ? (size_t)((mix64(x->arg + 7) % (f->size + 1))) : 0;
            errno = x->err;
            return -1;
        }
        if (DiskFault *x = match(F_CLOSE_ERR, nclose_)) {
            hit(F_CLOSE_ERR);
            errno = x->err;
            return -1;
        }
        f->synced = f->size;
    }
    return 0;
}

// stdio streams over the simulated disk
static ssize_t ck_read(void *c, char *b, size_t n) {
    ssize_t r;
    do r = do_read((Fd *)c, b, n);
    while (r < 0 && errno == EINTR);
    return r;
}
// the C library goes on after a part, which streams of this kind do not
static ssize_t ck_write(void *c, const char *b, size_t n) {
    size_t done = 0;
    while (done < n) {
        struct iovec v = {(void *)(b + done), n - done};
        ssize_t r = do_write((Fd *)c, &v, 1);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) break;
        done += (size_t)r;
    }
    return (ssize_t)done;
}
static int ck_seek(void *c, off64_t *o, int w) {
    int64_t r = do_seek((Fd *)c, *o, w);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
static int ck_close(void *c) { return do_close((Fd *)c); }

static FILE *sim_fopen(const char *path, const char *mode) {
    bool rd = strchr(mode, 'r') || strchr(mode, '+');
    bool wr = strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+');
    bool app = strchr(mode, 'a');
    int fd = do_open(path, rd, wr, strchr(mode, 'w') != nullptr, strchr(mode, 'w') || app, app, strchr(mode, 'x') != nullptr);
    if (fd < 0) return nullptr;
    Fd *d = fd_of(fd);
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    char m[4] = {app ? 'a' : strchr(mode, 'w') ? 'w' : 'r', 0, 0, 0};
    if (rd && wr) m[1] = '+';
    FILE *fp = fopencookie(d, m, io);
    if (!fp) {
        int e = errno;
        d->used = false;
        errno = e;
        return nullptr;
    }
    d->fp = fp;
    return fp;
}
static Fd *fd_of_fp(FILE *fp) {
    for (auto &d : fds)
        if (d.used && d.fp == fp) return &d;
    return nullptr;
}
}  // namespace sim
using namespace sim;

extern "C" {
FILE *fopen(const char *path, const char *mode) {
    path = route(path, strpbrk(mode, "wa+") != nullptr);
    if (is_sim(path)) return sim_fopen(path, mode);
    static FILE *(*real)(const char *, const char *);
    if (!real) real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
    return real(path, mode);
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
int fileno(FILE *fp) {
    if (Fd *d = fd_of_fp(fp)) return FD0 + (int)(d - fds);
    static int (*real)(FILE *);
    if (!real) real = (int (*)(FILE *))dlsym(RTLD_NEXT, "fileno");
    return real(fp);
}
static int open_common(const char *path, int flags, int mode) {
    path = route(path, (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)));
    if (is_sim(path)) {
        int acc = flags & O_ACCMODE;
        return do_open(path, acc != O_WRONLY, acc != O_RDONLY, flags & O_TRUNC, flags & O_CREAT, flags & O_APPEND,
                       flags & O_EXCL);
    }
    return (int)syscall(SYS_open, path, flags, mode);
}
int open(const char *path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    return open_common(path, flags, mode);
}
int open64(const char *path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    return open_common(path, flags, mode);
}
int openat(int dir, const char *path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    path = route(path, (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)));
    if (is_sim(path)) return open_common(path, flags, mode);
    return (int)syscall(SYS_openat, dir, path, flags, mode);
}
ssize_t read(int fd, void *b, size_t n) {
    if (Fd *d = fd_of(fd)) return do_read(d, b, n);
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    if (Fd *d = fd_of(fd)) {
        struct iovec v = {(void *)b, n};
        return do_write(d, &v, 1);
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (Fd *d = fd_of(fd)) return do_write(d, v, n);
    return syscall(SYS_writev, fd, v, n);
}
off_t lseek(int fd, off_t o, int w) {
    if (Fd *d = fd_of(fd)) return do_seek(d, o, w);
    return syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int close(int fd) {
    if (Fd *d = fd_of(fd)) return do_close(d);
    return (int)syscall(SYS_close, fd);
}
int fsync(int fd) {
    if (Fd *d = fd_of(fd)) {
        step();
        files[d->file].synced = files[d->file].size;
        return 0;
    }
    return (int)syscall(SYS_fsync, fd);
}
int fdatasync(int fd) { return fsync(fd); }
int ioctl(int fd, unsigned long req, ...) {
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    if (Fd *d = fd_of(fd)) {
        if (req == FIONREAD) {
            int64_t left = (int64_t)files[d->file].size - d->pos;
            *(int *)arg = left > 0 ? (int)left : 0;
            return 0;
        }
        errno = ENOTTY;
        return -1;
    }
    return (int)syscall(SYS_ioctl, fd, req, arg);
}
int poll(struct pollfd *p, nfds_t n, int t) {
    if (n == 1 && fd_of(p->fd)) {
        p->revents = p->events & (POLLIN | POLLOUT);
        return p->revents != 0;
    }
    return (int)syscall(SYS_poll, p, n, t);
}
static void fill_stat(struct stat *st, File *f) {
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644;
    st->st_nlink = 1;
    st->st_ino = (ino_t)(f - files) + 1;
    st->st_size = (off_t)f->size;
}
int fstat(int fd, struct stat *st) {
    if (Fd *d = fd_of(fd)) {
        fill_stat(st, &files[d->file]);
        return 0;
    }
    return (int)syscall(SYS_fstat, fd, st);
}
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
static bool is_dir(const char *p) { return !strcmp(p, "/simdisk") || !strcmp(p, "/simdisk/"); }
int stat(const char *p, struct stat *st) {
    p = route(p, false);
    if (is_dir(p)) {
        memset(st, 0, sizeof *st);
        st->st_mode = S_IFDIR | 0755;
        return 0;
    }
    if (is_sim(p)) {
        File *f = find(p);
        if (!f) {
            errno = ENOENT;
            return -1;
        }
        fill_stat(st, f);
        return 0;
    }
    return (int)syscall(SYS_stat, p, st);
}
int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
int lstat(const char *p, struct stat *st) {
    p = route(p, false);
    if (is_dir(p) || is_sim(p)) return stat(p, st);
    return (int)syscall(SYS_lstat, p, st);
}
int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
int access(const char *p, int m) {
    p = route(p, false);
    if (is_dir(p)) return 0;
    if (is_sim(p)) {
        if (find(p)) return 0;
        errno = ENOENT;
        return -1;
    }
    return (int)syscall(SYS_access, p, m);
}
static int sim_unlink(const char *p) {
    step();
    File *f = find(p);
    if (!f) {
        errno = ENOENT;
        return -1;
    }
    f->name[0] = 0;
    bool open = false;
    for (auto &d : fds) open |= d.used && d.file == (int)(f - files);
    if (!open) f->used = false;
    return 0;
}
int unlink(const char *p) {
    p = route(p, true);
    if (is_sim(p)) return sim_unlink(p);
    return (int)syscall(SYS_unlink, p);
}
int unlinkat(int d, const char *p, int fl) {
    p = route(p, true);
    if (is_sim(p)) return sim_unlink(p);
    return (int)syscall(SYS_unlinkat, d, p, fl);
}
int remove(const char *p) {
    p = route(p, true);
    if (is_sim(p)) return sim_unlink(p);
    return (int)syscall(SYS_unlink, p);
}
int rename(const char *a, const char *b) {
    a = route(a, true);
    b = route(b, true);
    if (is_sim(a) && is_sim(b)) {
        step();
        nopen_++;
        if (DiskFault *f = match(F_OPEN_ERR, nopen_)) {
            hit(F_OPEN_ERR);
            errno = f->err;
            return -1;
        }
        File *f = find(a);
        if (!f) {
            errno = ENOENT;
            return -1;
        }
        if (find(b)) sim_unlink(b);
        snprintf(f->name, sizeof f->name, "%s", b);
        return 0;
    }
    return (int)syscall(SYS_rename, a, b);
}
int rmdir(const char *p) {
    p = route(p, true);
    if (is_sim(p)) {
        errno = ENOENT;
        return -1;
    }
    return (int)syscall(SYS_rmdir, p);
}
int renameat(int, const char *a, int, const char *b) { return rename(a, b); }
int creat(const char *p, mode_t m) { return open_common(p, O_CREAT | O_WRONLY | O_TRUNC, (int)m); }
int link(const char *a, const char *b) {
    b = route(b, true);
    if (is_sim(a) || is_sim(b)) {
        errno = EPERM;
        return -1;
    }
    return (int)syscall(SYS_link, a, b);
}
int symlink(const char *a, const char *b) {
    b = route(b, true);
    if (is_sim(b)) {
        errno = EPERM;
        return -1;
    }
    return (int)syscall(SYS_symlink, a, b);
}
int chmod(const char *p, mode_t m) {
    p = route(p, true);
    if (is_sim(p)) return 0;
    return (int)syscall(SYS_chmod, p, m);
}
int truncate(const char *p, off_t n) {
    p = route(p, true);
    if (is_sim(p)) {
        File *f = find(p);
        if (!f) {
            errno = ENOENT;
            return -1;
        }
        grow(f, (size_t)n + 1);
        f->size = (size_t)n;
        return 0;
    }
    return (int)syscall(SYS_truncate, p, n);
}
int mkdir(const char *p, mode_t m) {
    p = route(p, true);
    if (is_sim(p) || is_dir(p)) {
        errno = EEXIST;
        return -1;
    }
    return (int)syscall(SYS_mkdir, p, m);
}
}

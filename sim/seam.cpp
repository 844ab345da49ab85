// The libc surface gaia is linked against: every xxx here replaces xxx in gaia's objects (objcopy --redefine-syms).
#include "kernel.h"
#include "kernel_int.h"

#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <err.h>
#include <error.h>
#include <semaphore.h>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/times.h>
#include <fcntl.h>
#include <poll.h>
#include <pwd.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <utime.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/sysinfo.h>
#include <sys/utsname.h>
#include <csignal>
#include <ctime>
#include <getopt.h>
#include <unistd.h>

using namespace sim;

static int mode_flags(const char *m) {
    int fl;
    bool plus = strchr(m, '+') != nullptr;
    switch (m[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: return -1;
    }
    if (strchr(m, 'x')) fl |= O_EXCL;
    return fl;
}
// directory entry operations: one event each
static int meta(const char *name, const std::string &arg, const std::function<int()> &doit) {
    Dec d = event(OP_META, name, arg);
    int err = d.err;
    if (err) hard_fault(OP_META, F_META);
    else err = doit();
    done(d, OP_META, name, arg, err ? -1 : 0, err, 0);
    if (err) {
        errno = err;
        return -1;
    }
    return 0;
}
static void fill_stat(const Inode &n, int ino, struct stat *st) {
    memset(st, 0, sizeof *st);
    st->st_ino = ino + 100;
    st->st_dev = 7;
    st->st_nlink = 1;
    st->st_blksize = 4096;
    st->st_mtim.tv_sec = st->st_ctim.tv_sec = n.mtime_us / 1000000;
    st->st_mtim.tv_nsec = st->st_ctim.tv_nsec = n.mtime_us % 1000000 * 1000;
    st->st_size = n.kind == K_REG ? (off_t)n.data.size() : 0;
    mode_t perm = n.perm;
    st->st_uid = st->st_gid = user_id;
    int names = 0;
    for (auto &e : dirmap) names += e.second == ino;
    st->st_nlink = names || n.kind == K_REG ? names : 1;
    if (n.kind == K_LINK) st->st_size = (off_t)n.data.size();
    switch (n.kind) {
    case K_LINK: st->st_mode = S_IFLNK | 0777; break;
    case K_DIR: st->st_mode = S_IFDIR | perm; break;
    case K_NULL: case K_FULL: case K_SINK: st->st_mode = S_IFCHR | 0666; break;
    case K_PIPE_IN: case K_PIPE_OUT: st->st_mode = S_IFIFO | perm; break;
    default: st->st_mode = S_IFREG | perm;
    }
    if (n.kind == K_SINK && cur->k.stdoutmode != 1) st->st_mode = S_IFIFO | 0600;
}

struct Sem { long value; std::string name; };
static std::map<std::string, std::shared_ptr<Sem>> sems;
static std::set<std::shared_ptr<Sem>> semkeep;
namespace sim { void reset_sems() { sems.clear(); semkeep.clear(); } }

extern "C" {
int sim_unlink(const char *);
void *sim_realloc(void *, size_t);
void sim_exit(int);

// ---- streams
FILE *sim_fopen(const char *path, const char *mode) {
    int fl = mode_flags(mode);
    if (fl < 0) { errno = EINVAL; return nullptr; }
    int fd = sys_open(path, fl);
    if (fd < 0) return nullptr;
    SimFile *f = make_file(fd, mode, false);
    return f->f;
}
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
FILE *sim_fdopen(int fd, const char *mode) {
    if (fd < 0 || fd >= (int)cur->fds.size() || !cur->fds[fd].open) { errno = EBADF; return nullptr; }
    return make_file(fd, mode, false)->f;
}
int sim_fclose(FILE *f) {
    if (!f) raise(SIGSEGV);
    return file_close(f);
}
FILE *sim_freopen(const char *path, const char *mode, FILE *fp) {
    SimFile *f = find_file(fp);
    if (!f) { errno = EBADF; return nullptr; }
    if (f->wr) fflush(fp);
    sys_close(f->fd);
    int fd = sys_open(path, mode_flags(mode));
    if (fd < 0) { f->closed = true; return nullptr; }
    f->fd = fd;
    f->std = false;
    f->closed = false;
    clearerr(fp);
    return fp;
}
FILE *sim_freopen64(const char *p, const char *m, FILE *f) { return sim_freopen(p, m, f); }
int sim_fileno(FILE *fp) {
    SimFile *f = find_file(fp);
    if (!f || f->closed) { errno = EBADF; return -1; }
    return f->fd;
}
int sim_fileno_unlocked(FILE *fp) { return sim_fileno(fp); }
int sim_fflush(FILE *fp) {
    if (fp) return fflush(fp);
    int rc = 0;
    for (auto &f : cur->files)
        if (!f->closed && f->wr && fflush(f->f)) rc = EOF;
    return rc;
}
FILE *sim_tmpfile(void) {
    int ino = new_inode(K_REG);
    if (meta("tmpfile", "", [] { return 0; })) return nullptr;
    int fd = alloc_fd();
    if (fd < 0) { errno = EMFILE; return nullptr; }
    Fd &o = cur->fds[fd];
    o = Fd();
    o.open = true;
    o.inode = ino;
    o.flags = O_RDWR;
    return make_file(fd, "w+", false)->f;
}
FILE *sim_tmpfile64(void) { return sim_tmpfile(); }
// streams in memory
struct MemStream { char **p; size_t *n; size_t at; SimFile *f; };
static ssize_t ms_write(void *c, const char *b, size_t n) {
    MemStream *m = (MemStream *)c;
    if (m->f->dead || m->f->closed) return (ssize_t)n;
    char *q = (char *)sim_realloc(*m->p, m->at + n + 1);
    if (!q) return 0;
    memcpy(q + m->at, b, n);
    m->at += n;
    q[m->at] = 0;
    *m->p = q;
    *m->n = m->at;
    return (ssize_t)n;
}
FILE *sim_open_memstream(char **p, size_t *n) {
    *p = (char *)mem_alloc(1, true, "open_memstream");
    if (!*p) return nullptr;
    *n = 0;
    std::unique_ptr<SimFile> f(new SimFile());
    MemStream *m = new MemStream{p, n, 0, f.get()};
    f->mem = true;
    f->wr = true;
    f->f = fopencookie(m, "w", {nullptr, ms_write, nullptr, nullptr});
    FILE *r = f->f;
    cur->files.push_back(std::move(f));
    return r;
}
FILE *sim_fmemopen(void *b, size_t n, const char *mode) {
    void *own = nullptr;
    if (!b && !(own = mem_alloc(n, true, "fmemopen"))) return nullptr;
    std::unique_ptr<SimFile> f(new SimFile());
    f->mem = true;
    f->own = own;
    f->wr = strpbrk(mode, "wa+") != nullptr;
    f->f = fmemopen(b ? b : own, n, mode);
    if (!f->f) return nullptr;
    FILE *r = f->f;
    cur->files.push_back(std::move(f));
    return r;
}
FILE *sim_popen(const char *, const char *) { errno = ENOSYS; return nullptr; }
int sim_pclose(FILE *) { errno = ECHILD; return -1; }

// ---- descriptors
static int open_mode(const char *path, int fl, va_list ap) {
    mode_t m = fl & O_CREAT ? (mode_t)va_arg(ap, int) : 0666;
    return sys_open(path, fl, (int)m);
}
#define VA_OPEN                                     \
    va_list ap;                                     \
    va_start(ap, fl);                               \
    int fd = open_mode(path, fl, ap);               \
    va_end(ap);                                     \
    return fd;
int sim_open(const char *path, int fl, ...) { VA_OPEN }
int sim_open64(const char *path, int fl, ...) { VA_OPEN }
int sim_openat(int, const char *path, int fl, ...) { VA_OPEN }
int sim_openat64(int, const char *path, int fl, ...) { VA_OPEN }
int sim_creat(const char *path, mode_t m) { return sim_open(path, O_WRONLY | O_CREAT | O_TRUNC, m); }
int sim_creat64(const char *path, mode_t m) { return sim_open(path, O_WRONLY | O_CREAT | O_TRUNC, m); }
ssize_t sim_read(int fd, void *b, size_t n) { return sys_read(fd, b, n, -1); }
ssize_t sim_write(int fd, const void *b, size_t n) { return sys_write(fd, b, n, -1); }
ssize_t sim_pread(int fd, void *b, size_t n, off_t o) { return sys_read(fd, b, n, o); }
ssize_t sim_pread64(int fd, void *b, size_t n, off_t o) { return sys_read(fd, b, n, o); }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) { return sys_write(fd, b, n, o); }
ssize_t sim_pwrite64(int fd, const void *b, size_t n, off_t o) { return sys_write(fd, b, n, o); }
ssize_t sim_writev(int fd, const struct iovec *v, int c) {
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        ssize_t r = sys_write(fd, v[i].iov_base, v[i].iov_len, -1);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
off_t sim_lseek(int fd, off_t o, int w) { return sys_lseek(fd, o, w); }
off_t sim_lseek64(int fd, off_t o, int w) { return sys_lseek(fd, o, w); }
int sim_close(int fd) { return sys_close(fd); }
int sim_ftruncate(int fd, off_t n) {
    if (fd < 0 || fd >= (int)cur->fds.size() || !cur->fds[fd].open) { errno = EBADF; return -1; }
    int ino = cur->fds[fd].inode;
    return meta("ftruncate", cur->fds[fd].path, [=] {
        if (inodes[ino].kind != K_REG) return EINVAL;
        disk_resize(ino, n, true);
        return 0;
    });
}
int sim_ftruncate64(int fd, off_t n) { return sim_ftruncate(fd, n); }
int sim_truncate(const char *p, off_t n) {
    std::string q = norm(p);
    return meta("truncate", q, [=] {
        int i = lookup(q);
        if (i < 0) return ENOENT;
        if (inodes[i].kind != K_REG) return EINVAL;
        if (!inodes[i].w) return EACCES;
        disk_resize(i, n, true);
        return 0;
    });
}
int sim_truncate64(const char *p, off_t n) { return sim_truncate(p, n); }
int sim_fsync(int fd) { return meta("fsync", "fd" + std::to_string(fd), [] { return 0; }); }
int sim_fdatasync(int fd) { return meta("fdatasync", "fd" + std::to_string(fd), [] { return 0; }); }
void sim_sync(void) {}
int sim_isatty(int fd) {
    if ((fd == 1 || fd == 2) && cur->k.stdoutmode == 1) return 1;
    if (fd == 0 && cur->fds[0].open && cur->fds[0].path == "<stdin>" && cur->k.seed / 8 % 4 == 3) return 1;
    errno = ENOTTY;
    return 0;
}
int sim_dup(int fd) {
    if (fd < 0 || fd >= (int)cur->fds.size() || !cur->fds[fd].open) { errno = EBADF; return -1; }
    int n = alloc_fd();
    if (n < 0) { errno = EMFILE; return -1; }
    cur->fds[n] = cur->fds[fd];
    return n;
}
int sim_dup2(int fd, int to) {
    if (fd < 0 || fd >= (int)cur->fds.size() || !cur->fds[fd].open || to < 0 || to > 1000) { errno = EBADF; return -1; }
    while ((int)cur->fds.size() <= to) cur->fds.emplace_back();
    cur->fds[to] = cur->fds[fd];
    return to;
}
int sim_fcntl(int fd, int cmd, ...) {
    if (fd < 0 || fd >= (int)cur->fds.size() || !cur->fds[fd].open) { errno = EBADF; return -1; }
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    switch (cmd) {
    case F_GETFL: return cur->fds[fd].flags;
    case F_SETFL: {
        int keep = O_APPEND | O_NONBLOCK;
        cur->fds[fd].flags = (cur->fds[fd].flags & ~keep) | ((int)arg & keep);
        return 0;
    }
    case F_DUPFD: {
        int n = alloc_fd();
        if (n < 0) { errno = EMFILE; return -1; }
        cur->fds[n] = cur->fds[fd];
        return n;
    }
    case F_SETLK: case F_SETLKW: case F_OFD_SETLK: case F_OFD_SETLKW: {
        struct flock *l = (struct flock *)arg;
        return lock_inode(fd, l->l_type == F_UNLCK ? 0 : l->l_type == F_RDLCK ? 1 : 2, cmd == F_SETLKW || cmd == F_OFD_SETLKW);
    }
    case F_GETLK: ((struct flock *)arg)->l_type = F_UNLCK; return 0;
    default: return 0;
    }
}
int sim_fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return sim_fcntl(fd, cmd, arg);
}
int sim_flock(int fd, int op) { return lock_inode(fd, op & LOCK_UN ? 0 : op & LOCK_SH ? 1 : 2, !(op & LOCK_NB)); }
int sim_lockf(int fd, int cmd, off_t) {
    if (cmd == F_TEST) return 0;
    int r = lock_inode(fd, cmd == F_ULOCK ? 0 : 2, cmd == F_LOCK);
    if (r && errno == EWOULDBLOCK) errno = EAGAIN;
    return r;
}
// ---- waiting for input
static int poll_us(struct pollfd *p, nfds_t n, uint64_t us, bool forever) {
    int ready = 0;
    if (meta("poll", "", [] { return 0; })) return -1;
    for (int pass = 0; pass < 2 && !ready; pass++)
        for (nfds_t i = 0; i < n; i++) {
            p[i].revents = 0;
            if (p[i].fd < 0) continue;
            if (p[i].fd >= (int)cur->fds.size() || !cur->fds[p[i].fd].open) {
                p[i].revents = POLLNVAL;
                ready++;
                continue;
            }
            Inode &in = inodes[cur->fds[p[i].fd].inode];
            int pr = in.kind == K_PIPE_IN && in.rpos >= in.avail && pass ? pipe_ready(in, us, forever, true) : 0;
            if (pr < 0) {
                errno = EINTR;
                return -1;
            }
            bool rd = in.kind != K_PIPE_IN || in.rpos < in.avail || pr;
            if ((p[i].events & POLLIN) && rd) p[i].revents |= POLLIN;
            if ((p[i].events & POLLOUT)) p[i].revents |= POLLOUT;
            if (p[i].revents) ready++;
        }
    return ready;
}
int sim_poll(struct pollfd *p, nfds_t n, int ms) { return poll_us(p, n, ms < 0 ? 0 : ms * 1000ull, ms < 0); }
static uint64_t bits(const sigset_t *s) {
    uint64_t m = 0;
    for (int n = 1; n < 65; n++)
        if (sigismember(s, n) == 1) m |= 1ull << (n - 1);
    return m;
}
// the mask holds while the call lasts
static int with_mask(const sigset_t *s, const std::function<int()> &f) {
    if (!s) return f();
    uint64_t was = cur->sigmask;
    uint32_t before = cur->rec->signals;
    sim::set_sigmask(bits(s));
    int r = -1;
    if (cur->rec->signals != before) errno = EINTR;
    else r = f();
    int e = errno;
    sim::set_sigmask(was);
    errno = e;
    return r;
}
int sim_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *s) {
    return with_mask(s, [&] { return poll_us(p, n, t ? t->tv_sec * 1000000ull + t->tv_nsec / 1000 : 0, !t); });
}
int sim_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t) {
    std::vector<struct pollfd> v;
    for (int i = 0; i < n; i++) {
        short e = (short)((r && FD_ISSET(i, r) ? POLLIN : 0) | (w && FD_ISSET(i, w) ? POLLOUT : 0));
        if (e) v.push_back({i, e, 0});
    }
    int k = poll_us(v.data(), v.size(), t ? t->tv_sec * 1000000ull + t->tv_usec : 0, !t);
    if (k < 0) return k;
    if (r) FD_ZERO(r);
    if (w) FD_ZERO(w);
    if (x) FD_ZERO(x);
    int c = 0;
    for (auto &p : v) {
        if (p.revents & POLLIN) FD_SET(p.fd, r), c++;
        if (p.revents & POLLOUT) FD_SET(p.fd, w), c++;
    }
    return c;
}
int sim_pselect(int n, fd_set *r, fd_set *w, fd_set *x, const struct timespec *t, const sigset_t *s) {
    struct timeval tv = {t ? t->tv_sec : 0, t ? t->tv_nsec / 1000 : 0};
    return with_mask(s, [&] { return sim_select(n, r, w, x, t ? &tv : nullptr); });
}
int sim_ioctl(int fd, unsigned long req, ...) {
    if (fd < 0 || fd >= (int)cur->fds.size() || !cur->fds[fd].open) { errno = EBADF; return -1; }
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    Inode &in = inodes[cur->fds[fd].inode];
    if (req == FIONREAD) {
        if (in.kind == K_PIPE_IN) *(int *)arg = (int)(in.avail - in.rpos);
        else if (in.kind == K_REG) *(int *)arg = (int)((long)in.data.size() - cur->fds[fd].off);
        else { errno = ENOTTY; return -1; }
        return 0;
    }
    if (req == TIOCGWINSZ && sim_isatty(fd)) {
        struct winsize *w = (struct winsize *)arg;
        memset(w, 0, sizeof *w);
        static const unsigned short wide[] = {80, 132, 0, 20, 1000};   // 0: nobody told the terminal
        w->ws_row = cur->k.seed / 5 % 3 ? 24 : 0;
        w->ws_col = wide[cur->k.seed % 5];
        return 0;
    }
    errno = ENOTTY;
    return -1;
}
int sim_posix_fadvise(int, off_t, off_t, int) { return 0; }
int sim_posix_fallocate(int fd, off_t off, off_t len) {
    if (fd < 0 || fd >= (int)cur->fds.size() || !cur->fds[fd].open) return EBADF;
    int ino = cur->fds[fd].inode;
    int e = errno;
    int r = meta("fallocate", cur->fds[fd].path, [=] {
        if (inodes[ino].kind != K_REG) return ENODEV;
        if ((long)inodes[ino].data.size() < off + len && !disk_resize(ino, off + len, false)) return ENOSPC;
        return 0;
    });
    if (r) r = errno;
    errno = e;   // the error is the result
    return r;
}
int sim_fallocate(int fd, int, off_t off, off_t len) {
    int r = sim_posix_fallocate(fd, off, len);
    if (r) errno = r;
    return r ? -1 : 0;
}
// mappings are copies; shared writable ones reach the file when they are synchronised, removed, or the process ends
void *sim_mmap(void *, size_t n, int prot, int flags, int fd, off_t off) {
    if (flags & MAP_ANONYMOUS) {
        void *q = mem_alloc(n, true, "mmap");
        return q ? q : MAP_FAILED;
    }
    if (fd < 0 || fd >= (int)cur->fds.size() || !cur->fds[fd].open) { errno = EBADF; return MAP_FAILED; }
    int ino = cur->fds[fd].inode;
    if (meta("mmap", cur->fds[fd].path, [=] { return inodes[ino].kind == K_REG ? n ? 0 : EINVAL : ENODEV; })) return MAP_FAILED;
    char *q = (char *)calloc(1, (n + 4095) / 4096 * 4096);
    std::string &d = inodes[ino].data;
    for (size_t i = 0; i < n && off + i < d.size(); i++) q[i] = d[off + i];
    cur->maps.push_back({q, n, (long)off, ino, (flags & MAP_SHARED) && (prot & PROT_WRITE)});
    return q;
}
int sim_munmap(void *p, size_t) {
    sync_maps(cur);
    for (size_t i = 0; i < cur->maps.size(); i++)
        if (cur->maps[i].p == p) {
            free(p);
            cur->maps.erase(cur->maps.begin() + i);
            return 0;
        }
    mem_free(p);
    return 0;
}
int sim_msync(void *, size_t, int) {
    return meta("msync", "", [] { sync_maps(cur); return 0; });
}
ssize_t sim_sendfile(int, int, off_t *, size_t) { errno = EINVAL; return -1; }
ssize_t sim_copy_file_range(int, off_t *, int, off_t *, size_t, unsigned) { errno = EINVAL; return -1; }
ssize_t sim_splice(int, off_t *, int, off_t *, size_t, unsigned) { errno = EINVAL; return -1; }
ssize_t sim_preadv(int fd, const struct iovec *v, int c, off_t at) {
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        ssize_t r = sys_read(fd, v[i].iov_base, v[i].iov_len, at + t);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
ssize_t sim_pwritev(int fd, const struct iovec *v, int c, off_t at) {
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        ssize_t r = sys_write(fd, v[i].iov_base, v[i].iov_len, at + t);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
ssize_t sim_readv(int fd, const struct iovec *v, int c) {
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        ssize_t r = sys_read(fd, v[i].iov_base, v[i].iov_len, -1);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
int sim_dup3(int a, int b, int) { return sim_dup2(a, b); }
int sim_pipe(int *) { errno = EMFILE; return -1; }
int sim_socket(int, int, int) { errno = EACCES; return -1; }
int sim_pthread_create(void *, const void *, void *(*)(void *), void *) { return EAGAIN; }
int sim_statfs(const char *p, struct statfs *s) {
    memset(s, 0, sizeof *s);
    s->f_blocks = 1000000;
    s->f_type = 0xEF53;
    s->f_bsize = 4096;
    s->f_bfree = s->f_bavail = sim_disk_free() < 0 ? 1000000 : ((unsigned long)sim_disk_free() + 4095) / 4096;
    std::string q = norm(p);
    return meta("statfs", q, [=] { return 0; });
}
int sim_statvfs(const char *p, struct statvfs *s) {
    memset(s, 0, sizeof *s);
    s->f_blocks = 1000000;
    s->f_bsize = s->f_frsize = 4096;
    s->f_bfree = s->f_bavail = sim_disk_free() < 0 ? 1000000 : ((unsigned long)sim_disk_free() + 4095) / 4096;
    std::string q = norm(p);
    return meta("statvfs", q, [=] { return 0; });
}
int sim_fstatfs(int fd, struct statfs *s) {
    if (fd < 0 || fd >= (int)cur->fds.size() || !cur->fds[fd].open) { errno = EBADF; return -1; }
    return sim_statfs(cur->fds[fd].path.c_str(), s);
}
int sim_fstatvfs(int fd, struct statvfs *s) {
    if (fd < 0 || fd >= (int)cur->fds.size() || !cur->fds[fd].open) { errno = EBADF; return -1; }
    return sim_statvfs(cur->fds[fd].path.c_str(), s);
}

// ---- names
int sim_unlink(const char *p) {
    std::string q = norm(p);
    return meta("unlink", q, [=] {
        int i = lookup_name(q);
        if (i < 0) return ENOENT;
        if (inodes[i].kind == K_DIR) return EISDIR;
        std::string c = canon(q, false);
        if (int e = parent_err(c)) return e;
        dirmap.erase(c);
        disk_give(i);
        return 0;
    });
}
int sim_rmdir(const char *p) {
    std::string q = norm(p);
    return meta("rmdir", q, [=] {
        int i = lookup_name(q);
        if (i < 0) return ENOENT;
        if (inodes[i].kind != K_DIR) return ENOTDIR;
        std::string c = canon(q, false);
        for (auto &e : dirmap)
            if (e.first.compare(0, c.size() + 1, c + "/") == 0) return ENOTEMPTY;
        if (int e = parent_err(c)) return e;
        dirmap.erase(c);
        return 0;
    });
}
int sim_remove(const char *p) {
    int i = lookup_name(norm(p));
    if (i >= 0 && inodes[i].kind == K_DIR) return sim_rmdir(p);
    return sim_unlink(p);
}
int sim_rename(const char *a, const char *b) {
    std::string x = norm(a), y = norm(b);
    return meta("rename", x + " " + y, [=] {
        int i = lookup_name(x), j = lookup_name(y);
        if (i < 0) return ENOENT;
        std::string from = canon(x, false), to = canon(y, false);
        if (!parent_ok(to)) return ENOENT;
        if (j >= 0 && inodes[j].kind == K_DIR && inodes[i].kind != K_DIR) return EISDIR;
        if (int e = parent_err(from)) return e;
        if (int e = parent_err(to)) return e;
        if (i == j) return 0;
        dirmap.erase(from);
        dirmap[to] = i;
        if (j >= 0 && j != i) disk_give(j);
        return 0;
    });
}
int sim_link(const char *a, const char *b) {
    std::string x = norm(a), y = norm(b);
    return meta("link", x + " " + y, [=] {
        int i = lookup_name(x);
        if (i < 0) return ENOENT;
        if (lookup_name(y) >= 0) return EEXIST;
        std::string c = canon(y, false);
        if (int e = parent_err(c)) return e;
        dirmap[c] = i;
        return 0;
    });
}
int sim_symlink(const char *, const char *) { errno = EPERM; return -1; }
int sim_symlinkat(const char *, int, const char *) { errno = EPERM; return -1; }
int sim_renameat(int, const char *a, int, const char *b) { return sim_rename(a, b); }
int sim_linkat(int, const char *a, int, const char *b, int) { return sim_link(a, b); }
int sim_unlinkat(int, const char *a, int fl) { return fl & AT_REMOVEDIR ? sim_rmdir(a) : sim_unlink(a); }
ssize_t sim_readlink(const char *p, char *b, size_t n) {
    std::string q = norm(p);
    int i = lookup_name(q);
    if (meta("readlink", q, [=] { return i < 0 ? ENOENT : inodes[i].kind != K_LINK ? EINVAL : 0; })) return -1;
    if (n > inodes[i].data.size()) n = inodes[i].data.size();
    memcpy(b, inodes[i].data.data(), n);
    return (ssize_t)n;
}
ssize_t sim_readlinkat(int, const char *p, char *b, size_t n) { return sim_readlink(p, b, n); }
char *sim_realpath(const char *p, char *b) {
    std::string q = norm(p);
    bool wd = q == ".";
    if (!wd && lookup(q) < 0) { errno = ENOENT; return nullptr; }
    std::string s = canon(q, true);
    if (s[0] != '/') s = wd ? "/sim" : "/sim/" + s;
    if (!b) b = (char *)mem_alloc(s.size() + 1, false, "realpath");
    if (b) strcpy(b, s.c_str());
    return b;
}
static int set_mtime(const std::string &q, uint64_t us) {
    return meta("utime", q, [=] {
        int i = lookup(q);
        if (i < 0) return ENOENT;
        inodes[i].mtime_us = us;
        return 0;
    });
}
int sim_utime(const char *p, const struct utimbuf *t) { return set_mtime(norm(p), t ? t->modtime * 1000000ull : now_us()); }
int sim_utimes(const char *p, const struct timeval *t) { return set_mtime(norm(p), t ? t[1].tv_sec * 1000000ull + t[1].tv_usec : now_us()); }
int sim_utimensat(int, const char *p, const struct timespec *t, int) {
    return set_mtime(norm(p), t && t[1].tv_nsec != UTIME_NOW ? t[1].tv_sec * 1000000ull + t[1].tv_nsec / 1000 : now_us());
}
int sim_futimens(int fd, const struct timespec *t) {
    if (fd < 0 || fd >= (int)cur->fds.size() || !cur->fds[fd].open) { errno = EBADF; return -1; }
    return set_mtime(cur->fds[fd].path, t && t[1].tv_nsec != UTIME_NOW ? t[1].tv_sec * 1000000ull + t[1].tv_nsec / 1000 : now_us());
}
// directories
struct SimDir { std::vector<std::string> names; size_t at; struct dirent e; };
DIR *sim_opendir(const char *p) {
    std::string q = canon(norm(p), true);
    bool top = q == "." || q.empty();
    if (meta("opendir", q, [=] { return top ? 0 : lookup(q) < 0 ? ENOENT : inodes[lookup(q)].kind == K_DIR ? 0 : ENOTDIR; })) return nullptr;
    SimDir *d = new SimDir();
    d->at = 0;
    for (auto &e : dirmap) {
        std::string n = e.first;
        if (n == ".") continue;
        if (!top) {
            if (n.compare(0, q.size() + 1, q + "/") != 0) continue;
            n = n.substr(q.size() + 1);
        }
        if (n.find('/') == std::string::npos) d->names.push_back(n);
    }
    return (DIR *)d;
}
struct dirent *sim_readdir(DIR *p) {
    SimDir *d = (SimDir *)p;
    if (d->at >= d->names.size()) return nullptr;
    memset(&d->e, 0, sizeof d->e);
    snprintf(d->e.d_name, sizeof d->e.d_name, "%s", d->names[d->at++].c_str());
    return &d->e;
}
struct dirent64 *sim_readdir64(DIR *p) { return (struct dirent64 *)sim_readdir(p); }
int sim_closedir(DIR *p) { delete (SimDir *)p; return 0; }
int sim_mkdir(const char *p, mode_t m) {
    std::string q = norm(p);
    return meta("mkdir", q, [=] {
        if (lookup_name(q) >= 0) return EEXIST;
        std::string c = canon(q, false);
        if (int e = parent_err(c)) return e;
        dirmap[c] = new_inode(K_DIR);
        set_perm(inodes[dirmap[c]], m & ~cur->mask);
        return 0;
    });
}
static int set_mode(int i, mode_t m) {
    set_perm(inodes[i], (int)m);
    return 0;
}
int sim_chmod(const char *p, mode_t m) {
    std::string q = norm(p);
    return meta("chmod", q, [=] { return lookup(q) < 0 ? ENOENT : set_mode(lookup(q), m); });
}
int sim_fchmod(int fd, mode_t m) {
    if (fd < 0 || fd >= (int)cur->fds.size() || !cur->fds[fd].open) { errno = EBADF; return -1; }
    int i = cur->fds[fd].inode;
    return meta("fchmod", cur->fds[fd].path, [=] { return set_mode(i, m); });
}
mode_t sim_umask(mode_t m) {
    mode_t old = cur->mask;
    cur->mask = m & 0777;
    return old;
}
int sim_fchmodat(int, const char *p, mode_t m, int) { return sim_chmod(p, m); }
static int own_only(uid_t u, gid_t g) { return (u == (uid_t)-1 || u == user_id) && (g == (gid_t)-1 || g == user_id) ? 0 : EPERM; }
int sim_chown(const char *p, uid_t u, gid_t g) {
    std::string q = norm(p);
    return meta("chown", q, [=] { return lookup(q) < 0 ? ENOENT : own_only(u, g); });
}
int sim_lchown(const char *p, uid_t u, gid_t g) { return sim_chown(p, u, g); }
int sim_fchown(int fd, uid_t u, gid_t g) {
    if (fd < 0 || fd >= (int)cur->fds.size() || !cur->fds[fd].open) { errno = EBADF; return -1; }
    return meta("fchown", cur->fds[fd].path, [=] { return own_only(u, g); });
}
int sim_stat(const char *p, struct stat *st) {
    std::string q = norm(p);
    return meta("stat", q, [=] {
        int i = lookup(q);
        if (i < 0) return ENOENT;
        fill_stat(inodes[i], i, st);
        return 0;
    });
}
int sim_lstat(const char *, struct stat *);
int sim_fstatat(int, const char *p, struct stat *st, int fl) { return fl & AT_SYMLINK_NOFOLLOW ? sim_lstat(p, st) : sim_stat(p, st); }
int sim_fstatat64(int, const char *p, struct stat64 *st, int fl) { return sim_fstatat(0, p, (struct stat *)st, fl); }
int sim_statx(int, const char *, int, unsigned, void *) { errno = ENOSYS; return -1; }
int sim_stat64(const char *p, struct stat64 *st) { return sim_stat(p, (struct stat *)st); }
int sim_lstat(const char *p, struct stat *st) {
    std::string q = norm(p);
    return meta("lstat", q, [=] {
        int i = lookup_name(q);
        if (i < 0) return ENOENT;
        fill_stat(inodes[i], i, st);
        return 0;
    });
}
int sim_lstat64(const char *p, struct stat64 *st) { return sim_lstat(p, (struct stat *)st); }
int sim_fstat(int fd, struct stat *st) {
    if (fd < 0 || fd >= (int)cur->fds.size() || !cur->fds[fd].open) { errno = EBADF; return -1; }
    int i = cur->fds[fd].inode;
    return meta("fstat", cur->fds[fd].path, [=] {
        fill_stat(inodes[i], i, st);
        return 0;
    });
}
int sim_fstat64(int fd, struct stat64 *st) { return sim_fstat(fd, (struct stat *)st); }
int sim_access(const char *p, int m) {
    std::string q = norm(p);
    return meta("access", q, [=] {
        int i = lookup(q);
        if (i < 0) return ENOENT;
        if ((m & R_OK) && !inodes[i].r) return EACCES;
        if ((m & W_OK) && !inodes[i].w) return EACCES;
        return 0;
    });
}
int sim_faccessat(int, const char *p, int m, int) { return sim_access(p, m); }
int sim_euidaccess(const char *p, int m) { return sim_access(p, m); }
int sim_eaccess(const char *p, int m) { return sim_access(p, m); }
int sim_mkstemp(char *t) {
    size_t n = strlen(t);
    if (n < 6) { errno = EINVAL; return -1; }
    static const char cs[] = "abcdefghijklmnopqrstuvwxyz0123456789";
    for (int tries = 0; tries < 100; tries++) {
        for (int i = 0; i < 6; i++) t[n - 6 + i] = cs[cur->iorng.below(36)];
        if (lookup_name(norm(t)) < 0) return sys_open(t, O_RDWR | O_CREAT | O_EXCL, 0600);
    }
    errno = EEXIST;
    return -1;
}
int sim_mkstemp64(char *t) { return sim_mkstemp(t); }
int sim_mkostemp(char *t, int) { return sim_mkstemp(t); }
char *sim_mktemp(char *t) {
    size_t n = strlen(t);
    for (int i = 0; i < 6 && n >= 6; i++) t[n - 6 + i] = (char)('a' + cur->iorng.below(26));
    return t;
}
char *sim_mkdtemp(char *t) {
    sim_mktemp(t);
    return sim_mkdir(t, 0700) ? nullptr : t;
}
char *sim_tmpnam(char *b) {
    static char s[32];
    if (!b) b = s;
    strcpy(b, "tmp_XXXXXX");
    return sim_mktemp(b);
}
char *sim_tempnam(const char *, const char *) {
    char *b = (char *)mem_alloc(32, false, "tempnam");
    return b ? sim_tmpnam(b) : b;
}
char *sim_getcwd(char *b, size_t n) { if (b && n > 5) { strcpy(b, "/sim"); return b; } errno = ERANGE; return nullptr; }
int sim_chdir(const char *) { errno = EACCES; return -1; }

// ---- memory
void *sim_malloc(size_t n) { return mem_alloc(n, false, "malloc"); }
void *sim_calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    return mem_alloc(n, true, "calloc");
}
void sim_free(void *p) {
    int e = errno;
    mem_free(p);
    errno = e;
}
void *sim_realloc(void *p, size_t n) {
    if (!p) return mem_alloc(n, false, "realloc");
    if (n == 0) { mem_free(p); return nullptr; }
    size_t old = mem_size(p);
    if (old == (size_t)-1) {
        if (cur->rec->misuse.empty()) cur->rec->misuse = "realloc of a pointer that is no live block";
        errno = ENOMEM;
        return nullptr;
    }
    if (mem_grows(p, n)) return mem_alloc(n, false, "realloc", p);
    void *q = mem_alloc(n, false, "realloc");   // moves otherwise
    if (!q) return nullptr;
    memcpy(q, p, old < n ? old : n);
    mem_free(p);
    return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    return sim_realloc(p, n);
}
int sim_posix_memalign(void **p, size_t, size_t n) {
    int e = errno;
    void *q = mem_alloc(n, false, "posix_memalign");
    errno = e;
    if (!q) return ENOMEM;
    *p = q;
    return 0;
}
void *sim_memalign(size_t, size_t n) { return mem_alloc(n, false, "memalign"); }
void *sim_valloc(size_t n) { return mem_alloc(n, false, "valloc"); }
size_t sim_malloc_usable_size(void *p) { return p ? mem_size(p) : 0; }
void *sim_aligned_alloc(size_t, size_t n) { return mem_alloc(n, false, "aligned_alloc"); }
char *sim_strdup(const char *s) {
    size_t n = strlen(s) + 1;
    char *q = (char *)mem_alloc(n, false, "strdup");
    return q ? (char *)memcpy(q, s, n) : nullptr;
}
char *sim___strdup(const char *s) { return sim_strdup(s); }
char *sim_strndup(const char *s, size_t m) {
    size_t n = strnlen(s, m);
    char *q = (char *)mem_alloc(n + 1, false, "strndup");
    if (!q) return nullptr;
    memcpy(q, s, n);
    q[n] = 0;
    return q;
}
char *sim___strndup(const char *s, size_t m) { return sim_strndup(s, m); }
int sim_vasprintf(char **out, const char *fmt, va_list ap) {
    va_list ap2;
    va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap2);
    va_end(ap2);
    *out = n < 0 ? nullptr : (char *)mem_alloc(n + 1, false, "asprintf");
    if (!*out) return -1;
    return vsnprintf(*out, n + 1, fmt, ap);
}
int sim_asprintf(char **out, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int r = sim_vasprintf(out, fmt, ap);
    va_end(ap);
    return r;
}
// as glibc: a line cut short by an error is returned, the next call reports the error
ssize_t sim_getdelim(char **lp, size_t *np, int delim, FILE *f) {
    if (!lp || !np) { errno = EINVAL; return -1; }
    if (!*lp || !*np) {
        *np = 120;
        char *q = (char *)sim_realloc(*lp, *np);
        if (!q) { *np = 0; return -1; }
        *lp = q;
    }
    size_t len = 0;
    while (true) {
        int c = getc(f);
        if (c == EOF) {
            if (!len) return -1;
            break;
        }
        if (len + 2 > *np) {
            char *q = (char *)sim_realloc(*lp, *np * 2);
            if (!q) return -1;
            *lp = q;
            *np *= 2;
        }
        (*lp)[len++] = (char)c;
        if (c == delim) break;
    }
    (*lp)[len] = 0;
    return (ssize_t)len;
}
ssize_t sim___getdelim(char **lp, size_t *np, int d, FILE *f) { return sim_getdelim(lp, np, d, f); }
ssize_t sim_getline(char **lp, size_t *np, FILE *f) { return sim_getdelim(lp, np, '\n', f); }

// ---- messages
int sim_vdprintf(int fd, const char *fmt, va_list ap) {
    char *s = nullptr;
    int n = vasprintf(&s, fmt, ap);
    if (n < 0) return -1;
    std::string t(s, n);
    free(s);
    size_t at = 0;
    while (at < t.size()) {
        ssize_t r = sys_write(fd, t.data() + at, t.size() - at, -1);
        if (r < 0) return -1;
        at += r;
    }
    return n;
}
int sim_dprintf(int fd, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int r = sim_vdprintf(fd, fmt, ap);
    va_end(ap);
    return r;
}
static void say(int e, bool colon, const char *fmt, va_list ap) {
    fputs("gaia: ", cur->err);
    if (fmt) vfprintf(cur->err, fmt, ap);
    if (e) fprintf(cur->err, "%s%s", fmt && colon ? ": " : "", strerror(e));
    fputc('\n', cur->err);
}
void sim_perror(const char *s) {
    int e = errno;
    if (s && *s) fprintf(cur->err, "%s: %s\n", s, strerror(e));
    else fprintf(cur->err, "%s\n", strerror(e));
}
#define SAY(e) { int er = (e); va_list ap; va_start(ap, fmt); say(er, true, fmt, ap); va_end(ap); }
void sim_vwarn(const char *fmt, va_list ap) { say(errno, true, fmt, ap); }
void sim_vwarnx(const char *fmt, va_list ap) { say(0, true, fmt, ap); }
void sim_verr(int st, const char *fmt, va_list ap) { say(errno, true, fmt, ap); sim_exit(st); }
void sim_verrx(int st, const char *fmt, va_list ap) { say(0, true, fmt, ap); sim_exit(st); }
void sim_warn(const char *fmt, ...) { SAY(errno) }
void sim_warnx(const char *fmt, ...) { SAY(0) }
void sim_err(int st, const char *fmt, ...) { SAY(errno) sim_exit(st); }
void sim_errx(int st, const char *fmt, ...) { SAY(0) sim_exit(st); }
void sim_error(int st, int e, const char *fmt, ...) {
    fflush(cur->out);
    SAY(e)
    if (st) sim_exit(st);
}

char *sim_strtok(char *s, const char *d) { return strtok_r(s, d, &cur->strtok_save); }

// ---- process
void sim_exit(int s) { finish_process(s, true); }
void sim__exit(int s) {
    for (auto &f : cur->files) f->dead = true;
    finish_process(s, true);
}
void sim__Exit(int s) { sim__exit(s); }
void sim_quick_exit(int s) { sim__exit(s); }
void sim_abort(void) { raise(SIGABRT); sim__exit(134); }
int sim_atexit(void (*f)(void)) { cur->atexits.push_back(f); return 0; }
int sim_on_exit(void (*)(int, void *), void *) { return 0; }
pid_t sim_getpid(void) { return cur->pid; }
pid_t sim_getppid(void) { return cur->k.seed % 3 ? (pid_t)(2 + cur->k.seed / 3 % 30000) : 1; }
// user 0 is one without its privileges over files, as in a container
uid_t sim_getuid(void) { return user_id; }
uid_t sim_geteuid(void) { return user_id; }
pid_t sim_fork(void) { errno = ENOSYS; return -1; }
pid_t sim_vfork(void) { errno = ENOSYS; return -1; }
int sim_system(const char *) { errno = ENOSYS; return -1; }
int sim_execv(const char *, char *const *) { errno = ENOENT; return -1; }
int sim_execvp(const char *, char *const *) { errno = ENOENT; return -1; }
typedef void (*sigh)(int);
sigh sim_signal(int n, sigh h) {
    if (n < 1 || n > 64 || n == SIGKILL || n == SIGSTOP) { errno = EINVAL; return SIG_ERR; }
    sigh o = cur->handlers[n];
    cur->handlers[n] = h;
    cur->restart[n] = true;
    cur->once[n] = false;
    return o;
}
sigh sim___sysv_signal(int n, sigh h) {
    sigh o = sim_signal(n, h);
    if (o == SIG_ERR) return o;
    cur->restart[n] = false;
    cur->once[n] = true;
    return o;
}
sigh sim_sysv_signal(int n, sigh h) { return sim___sysv_signal(n, h); }
sigh sim_bsd_signal(int n, sigh h) { return sim_signal(n, h); }
sigh sim_sigset(int n, sigh h) { return sim_signal(n, h); }
int sim_sigaction(int n, const struct sigaction *a, struct sigaction *old) {
    if (n < 1 || n > 64) { errno = EINVAL; return -1; }
    if (old) {
        memset(old, 0, sizeof *old);
        old->sa_handler = cur->handlers[n];
        old->sa_flags = (cur->restart[n] ? SA_RESTART : 0) | (cur->once[n] ? SA_RESETHAND : 0);
    }
    if (a) {
        cur->handlers[n] = a->sa_handler;   // sa_sigaction is the same member; no handler here looks at more than the number
        cur->restart[n] = a->sa_flags & SA_RESTART;
        cur->once[n] = a->sa_flags & SA_RESETHAND;
    }
    return 0;
}
int sim_sigprocmask(int how, const sigset_t *s, sigset_t *old) {
    uint64_t was = cur->sigmask;
    if (old) {
        sigemptyset(old);
        for (int n = 1; n < 65; n++)
            if (was >> (n - 1) & 1) sigaddset(old, n);
    }
    if (!s) return 0;
    uint64_t m = bits(s);
    set_sigmask(how == SIG_BLOCK ? was | m : how == SIG_UNBLOCK ? was & ~m : m);
    return 0;
}
int sim_pthread_sigmask(int how, const sigset_t *s, sigset_t *old) { return sim_sigprocmask(how, s, old); }
int sim_sigpending(sigset_t *s) {
    sigemptyset(s);
    for (int n = 1; n < 65; n++)
        if (cur->sigpend >> (n - 1) & 1) sigaddset(s, n);
    return 0;
}
int sim_siginterrupt(int n, int flag) {
    if (n < 1 || n > 64) { errno = EINVAL; return -1; }
    cur->restart[n] = !flag;
    return 0;
}
int sim_sighold(int n) { if (n > 0 && n < 65) set_sigmask(cur->sigmask | 1ull << (n - 1)); return 0; }
int sim_sigrelse(int n) { if (n > 0 && n < 65) set_sigmask(cur->sigmask & ~(1ull << (n - 1))); return 0; }
int sim_sigignore(int n) { sim_signal(n, SIG_IGN); return 0; }
unsigned sim_alarm(unsigned s) {
    uint64_t now = sim::rec().simtime_us;
    unsigned left = cur->alarm_us > now ? (unsigned)((cur->alarm_us - now + 999999) / 1000000) : 0;
    cur->alarm_us = s ? now + s * 1000000ull : 0;
    return left;
}
int sim_setitimer(int which, const struct itimerval *t, struct itimerval *old) {
    if (old) memset(old, 0, sizeof *old);
    uint64_t us = t->it_value.tv_sec * 1000000ull + t->it_value.tv_usec;
    if (which == ITIMER_REAL) cur->alarm_us = us ? sim::rec().simtime_us + us : 0;
    return 0;
}
int sim_pause(void) {
    meta("pause", "", [] { return 0; });
    uint32_t before = cur->rec->signals;
    sim::signal_while_waiting(true);
    if (cur->rec->signals == before && cur->alarm_us) {
        if (sim::rec().simtime_us < cur->alarm_us) sim::rec().simtime_us = cur->alarm_us;
        cur->alarm_us = 0;
        deliver(14, true);
    }
    if (cur->rec->signals == before) die(S_BLOCKED);
    errno = EINTR;
    return -1;
}
int sim_sigsuspend(const sigset_t *s) { return with_mask(s, [] { return sim_pause(); }); }
int sim_sched_yield(void) { return meta("yield", "", [] { return 0; }); }
int sim_setrlimit(int, const void *) { return 0; }
int sim_raise(int n) {
    if (!cur->in_handler && n > 0 && n < 65 && !cur->handlers[n]) {   // the program's own doing
        cur->rec->signo = n;
        die(n == cur->rec->asked ? S_KILLED : S_SIGNALLED);   // passing on what it was asked
    }
    deliver(n);
    return 0;
}
int sim_kill(pid_t p, int n) {
    if (p == cur->pid) return sim_raise(n);
    errno = EPERM;
    return -1;
}
char *sim_setlocale(int, const char *) { return (char *)"C"; }
char *sim_getenv(const char *n) {
    auto own = cur->env.find(n);
    if (own != cur->env.end()) return own->second.first ? (char *)own->second.second.c_str() : nullptr;
    if (!strcmp(n, "HOME")) return (char *)"/sim";
    if (!strcmp(n, "TMPDIR") && cur->k.seed % 3 == 1) return (char *)"/tmp";
    if (!strcmp(n, "LANG") || !strcmp(n, "LC_ALL")) return cur->k.seed % 2 ? (char *)"C" : (char *)"tr_TR.UTF-8";
    if (!strcmp(n, "TERM")) return cur->k.stdoutmode == 1 ? (char *)"xterm" : nullptr;
    // any other variable is set to something in some runs
    uint64_t h = cur->k.seed * 2654435761u;
    for (const char *p = n; *p; p++) h = (h ^ (unsigned char)*p) * 0x100000001b3ull;
    static const char *const v[] = {"", "1", "0", "30", "2000", "yes"};
    h = (h ^ h >> 29) * 0x9e3779b97f4a7c15ull >> 32;
    return h % 100 < 50 ? nullptr : (char *)v[h / 100 % 6];
}
char *sim_secure_getenv(const char *n) { return sim_getenv(n); }

// ---- shared between processes
int sim_shm_open(const char *p, int fl, mode_t) { return sys_open(("/dev/shm/" + std::string(p + (*p == '/'))).c_str(), fl); }
int sim_shm_unlink(const char *p) { return sim_unlink(("/dev/shm/" + std::string(p + (*p == '/'))).c_str()); }
sem_t *sim_sem_open(const char *p, int fl, ...) {
    va_list ap;
    va_start(ap, fl);
    unsigned v = 0;
    if (fl & O_CREAT) {
        va_arg(ap, unsigned);
        v = va_arg(ap, unsigned);
    }
    va_end(ap);
    std::string q = p;
    Sem *s = nullptr;
    if (meta("sem_open", q, [&] {
            auto it = sems.find(q);
            if (it != sems.end() && (fl & O_EXCL)) return EEXIST;
            if (it == sems.end()) {
                if (!(fl & O_CREAT)) return ENOENT;
                it = sems.emplace(q, std::make_shared<Sem>(Sem{(long)v, q})).first;
            }
            s = it->second.get();
            semkeep.insert(it->second);
            return 0;
        })) return SEM_FAILED;
    return (sem_t *)s;
}
static int semwait(sem_t *h, uint64_t us, bool forever) {
    Sem *s = (Sem *)h;
    for (;;) {
        int r = meta("sem_wait", s->name, [&] { return s->value > 0 ? (s->value--, 0) : EAGAIN; });
        if (!r || errno != EAGAIN) return r;
        if (forever) continue;
        if (us < 1000) return -1;
        us -= 1000;
        sim::rec().simtime_us += 1000;
    }
}
int sim_sem_wait(sem_t *h) { return semwait(h, 0, true); }
int sim_sem_trywait(sem_t *h) { return semwait(h, 0, false); }
int sim_sem_timedwait(sem_t *h, const struct timespec *t) {
    uint64_t end = t->tv_sec * 1000000ull + t->tv_nsec / 1000, now = now_us();
    int r = semwait(h, end > now ? end - now : 0, false);
    if (r && errno == EAGAIN) errno = ETIMEDOUT;
    return r;
}
int sim_sem_post(sem_t *h) {
    Sem *s = (Sem *)h;
    return meta("sem_post", s->name, [&] { s->value++; return 0; });
}
int sim_sem_getvalue(sem_t *h, int *v) { *v = (int)((Sem *)h)->value; return 0; }
int sim_sem_close(sem_t *) { return 0; }
int sim_sem_unlink(const char *p) {
    std::string q = p;
    return meta("sem_unlink", q, [&] { return sems.erase(q) ? 0 : ENOENT; });
}
int sim_shmget(key_t, size_t, int) { errno = ENOSYS; return -1; }
int sim_semget(key_t, int, int) { errno = ENOSYS; return -1; }
int sim_msgget(key_t, int) { errno = ENOSYS; return -1; }
int sim_mq_open(const char *, int, ...) { errno = ENOSYS; return -1; }
int sim_posix_spawn(pid_t *, const char *, const void *, const void *, char *const *, char *const *) { return ENOSYS; }
int sim_posix_spawnp(pid_t *, const char *, const void *, const void *, char *const *, char *const *) { return ENOSYS; }
long sim_syscall(long, ...) { errno = ENOSYS; return -1; }
int sim_prctl(int, ...) { return 0; }
int sim_getrusage(int, struct rusage *u) { memset(u, 0, sizeof *u); return 0; }
clock_t sim_times(struct tms *t) { memset(t, 0, sizeof *t); return (clock_t)(sim::rec().simtime_us / 10000); }
int sim_getrlimit(int what, struct rlimit *l) {
    // nothing here is less than any run needs
    uint64_t s = cur->k.seed >> 5;
    rlim_t v = RLIM_INFINITY;
    switch (what) {
    case RLIMIT_NOFILE: v = cur->k.maxfd > 0 ? cur->k.maxfd : s % 3 ? 1024 : 1 << 20; break;
    case RLIMIT_STACK: v = s % 3 == 1 ? 256 << 10 : s % 3 ? 8 << 20 : RLIM_INFINITY; break;
    case RLIMIT_FSIZE: v = s % 5 == 1 ? 1 << 20 : RLIM_INFINITY; break;
    case RLIMIT_AS: case RLIMIT_DATA: v = cur->k.memlimit > 0 ? cur->k.memlimit + (8 << 20) : s % 7 == 1 ? 64 << 20 : RLIM_INFINITY; break;
    case RLIMIT_CPU: v = s % 11 == 1 ? 60 : RLIM_INFINITY; break;
    case RLIMIT_CORE: v = s % 2 ? 0 : RLIM_INFINITY; break;
    case RLIMIT_NPROC: v = s % 2 ? 1 : 4096; break;
    }
    l->rlim_cur = l->rlim_max = v;
    return 0;
}

// ---- time and randomness
time_t sim_time(time_t *t) {
    time_t v = (time_t)(now_us(true) / 1000000);
    if (t) *t = v;
    return v;
}
clock_t sim_clock(void) { return (clock_t)sim::rec().simtime_us; }
int sim_gettimeofday(struct timeval *tv, void *) {
    uint64_t u = now_us(true);
    tv->tv_sec = u / 1000000;
    tv->tv_usec = u % 1000000;
    return 0;
}
int sim_clock_gettime(clockid_t id, struct timespec *ts) {
    uint64_t u = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? now_us(true) : 5000000000ull + sim::rec().simtime_us;
    ts->tv_sec = u / 1000000;
    ts->tv_nsec = (u % 1000000) * 1000;
    return 0;
}
unsigned sim_sleep(unsigned s) { sim::rec().simtime_us += s * 1000000ull; meta("sleep", "", [] { return 0; }); return 0; }
int sim_usleep(useconds_t u) { sim::rec().simtime_us += u; meta("usleep", "", [] { return 0; }); return 0; }
int sim_nanosleep(const struct timespec *t, struct timespec *) {
    sim::rec().simtime_us += t->tv_sec * 1000000ull + t->tv_nsec / 1000;
    meta("nanosleep", "", [] { return 0; });
    return 0;
}
// glibc's scan position is its own; a process begins with a new one
static void begin_getopt() {
    if (!cur->getopt.begun && optind == 1) optind = 0;
    cur->getopt.begun = true;
}
int sim_getopt(int c, char *const *v, const char *o) { begin_getopt(); return getopt(c, v, o); }
int sim___posix_getopt(int c, char *const *v, const char *o) { begin_getopt(); return getopt(c, v, ("+" + std::string(o)).c_str()); }
int sim_getopt_long(int c, char *const *v, const char *o, const struct option *l, int *i) { begin_getopt(); return getopt_long(c, v, o, l, i); }
int sim_getopt_long_only(int c, char *const *v, const char *o, const struct option *l, int *i) { begin_getopt(); return getopt_long_only(c, v, o, l, i); }
int sim_rand(void) { return (int)(sim::splitmix(cur->rnd) >> 33); }
void sim_srand(unsigned s) { cur->rnd = s; }
long sim_random(void) { return (long)(sim::splitmix(cur->rnd) >> 33); }
void sim_srandom(unsigned s) { cur->rnd = s; }
static uint64_t next48() { return cur->rnd48 = (cur->rnd48 * 0x5deece66dull + 11) & 0xffffffffffffull; }
void sim_srand48(long s) { cur->rnd48 = ((uint64_t)(uint32_t)s << 16) + 0x330e; }
double sim_drand48(void) { return (double)next48() / 281474976710656.0; }
long sim_lrand48(void) { return (long)(next48() >> 17); }
long sim_mrand48(void) { return (long)(int32_t)(next48() >> 16); }
ssize_t sim_getrandom(void *b, size_t n, unsigned) {
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)(cur->iorng.next() >> 20);
    return (ssize_t)n;
}
}  // extern "C"

// ---- less usual ways to the same things
extern "C" {
int sim_getentropy(void *b, size_t n) { sim_getrandom(b, n, 0); return 0; }
void sim_arc4random_buf(void *b, size_t n) { sim_getrandom(b, n, 0); }
uint32_t sim_arc4random(void) {
    uint32_t v;
    sim_getrandom(&v, sizeof v, 0);
    return v;
}
uint32_t sim_arc4random_uniform(uint32_t n) { return n ? sim_arc4random() % n : 0; }
gid_t sim_getgid(void) { return user_id; }
gid_t sim_getegid(void) { return user_id; }
pid_t sim_gettid(void) { return sim_getpid(); }
pid_t sim_getpgrp(void) { return sim_getpid(); }
pid_t sim_getpgid(pid_t) { return sim_getpid(); }
pid_t sim_getsid(pid_t) { return 1; }
pid_t sim_setsid(void) { return sim_getpid(); }
int sim_renameat2(int, const char *a, int, const char *b, unsigned fl) {
    if (fl & 2) { errno = EINVAL; return -1; }   // RENAME_EXCHANGE
    if (fl & 1 && lookup_name(norm(b)) >= 0) { errno = EEXIST; return -1; }
    return sim_rename(a, b);
}
int sim_mkfifo(const char *, mode_t) { errno = EPERM; return -1; }
int sim_mkfifoat(int, const char *, mode_t) { errno = EPERM; return -1; }
int sim_mknod(const char *, mode_t, dev_t) { errno = EPERM; return -1; }
int sim_memfd_create(const char *, unsigned) { errno = ENOSYS; return -1; }
int sim_pipe2(int *, int) { errno = EMFILE; return -1; }
int sim_epoll_create1(int) { errno = ENOSYS; return -1; }
int sim_inotify_init1(int) { errno = ENOSYS; return -1; }
int sim_timerfd_create(int, int) { errno = ENOSYS; return -1; }
int sim_eventfd(unsigned, int) { errno = ENOSYS; return -1; }
int sim_signalfd(int, const sigset_t *, int) { errno = ENOSYS; return -1; }
int sim_timer_create(clockid_t, struct sigevent *, timer_t *) { errno = EAGAIN; return -1; }
int sim_syncfs(int fd) { return sim_fsync(fd); }
int sim_sync_file_range(int fd, off_t, off_t, unsigned) { return sim_fsync(fd); }
int sim_madvise(void *, size_t, int) { return 0; }
int sim_posix_madvise(void *, size_t, int) { return 0; }
int sim_mlock(const void *, size_t) { errno = EPERM; return -1; }
int sim_mlockall(int) { errno = EPERM; return -1; }
int sim_munlockall(void) { return 0; }
void *sim_mremap(void *, size_t, size_t, int, ...) { errno = ENOMEM; return MAP_FAILED; }
int sim_futimes(int fd, const struct timeval *t) {
    if (!t) return sim_futimens(fd, nullptr);
    struct timespec s[2] = {{t[0].tv_sec, t[0].tv_usec * 1000}, {t[1].tv_sec, t[1].tv_usec * 1000}};
    return sim_futimens(fd, s);
}
int sim_clock_nanosleep(clockid_t, int abs, const struct timespec *t, struct timespec *r) {
    if (abs) return 0;
    return sim_nanosleep(t, r) ? errno : 0;
}
int sim_gethostname(char *b, size_t n) {
    snprintf(b, n, "host%llu", (unsigned long long)(cur->k.seed % 10));
    return 0;
}
int sim_uname(struct utsname *u) {
    memset(u, 0, sizeof *u);
    strcpy(u->sysname, "Linux");
    strcpy(u->release, "6.0.0");
    strcpy(u->machine, "x86_64");
    return sim_gethostname(u->nodename, sizeof u->nodename);
}
static const int cpus[] = {1, 1, 2, 4, 8, 64};
int sim_get_nprocs(void) { return cpus[cur->k.seed / 7 % 6]; }
int sim_get_nprocs_conf(void) { return sim_get_nprocs(); }
int sim_getpagesize(void) { return cur->k.seed / 11 % 4 ? 4096 : 65536; }
int sim_getdtablesize(void) { return cur->k.maxfd > 0 ? cur->k.maxfd : 1024; }
long sim_sysconf(int what) {
    switch (what) {
    case _SC_NPROCESSORS_ONLN: case _SC_NPROCESSORS_CONF: return sim_get_nprocs();
    case _SC_PAGESIZE: return sim_getpagesize();
    case _SC_OPEN_MAX: return sim_getdtablesize();
    case _SC_PHYS_PAGES: return (1l << 30) / sim_getpagesize();
    case _SC_AVPHYS_PAGES: return (long)(cur->iorng.next() >> 36) / sim_getpagesize();
    case _SC_CLK_TCK: return 100;
    case _SC_LINE_MAX: return 2048;
    case _SC_IOV_MAX: return 1024;
    case _SC_ARG_MAX: return cur->k.seed / 13 % 2 ? 131072 : 2097152;
    default: errno = EINVAL; return -1;
    }
}
long sim_gethostid(void) { return (long)(cur->k.seed * 2654435761u % 0x7fffffff); }
int sim_getpriority(int, id_t) { return cur->k.seed / 17 % 3 ? 0 : 19; }
int sim_setpriority(int, id_t, int) { return 0; }
int sim_nice(int n) { return n; }
int sim_sched_getcpu(void) { return (int)(cur->iorng.next() % sim_get_nprocs()); }
// a user that the system may have no name for
char *sim_getlogin(void) { if (cur->k.seed / 19 % 2) { errno = ENXIO; return nullptr; } return (char *)"user"; }
int sim_getlogin_r(char *b, size_t n) { if (!sim_getlogin()) return ENXIO; return snprintf(b, n, "user") < (int)n ? 0 : ERANGE; }
struct passwd *sim_getpwuid(uid_t u) {
    static struct passwd p;
    if (u != user_id || cur->k.seed / 23 % 2) return nullptr;
    p.pw_name = (char *)"user";
    p.pw_passwd = (char *)"x";
    p.pw_gecos = (char *)"";
    p.pw_shell = (char *)"/bin/sh";
    p.pw_dir = (char *)"/sim";
    p.pw_uid = p.pw_gid = user_id;
    return &p;
}
long sim_pathconf(const char *, int what) { return what == _PC_NAME_MAX ? 255 : what == _PC_PATH_MAX ? 4096 : what == _PC_LINK_MAX ? 127 : what == _PC_PIPE_BUF ? 4096 : -1; }
long sim_fpathconf(int, int what) { return sim_pathconf("", what); }
int sim_setxattr(const char *, const char *, const void *, size_t, int) { errno = ENOTSUP; return -1; }
int sim_fsetxattr(int, const char *, const void *, size_t, int) { errno = ENOTSUP; return -1; }
ssize_t sim_getxattr(const char *, const char *, void *, size_t) { errno = ENOTSUP; return -1; }
ssize_t sim_fgetxattr(int, const char *, void *, size_t) { errno = ENOTSUP; return -1; }
void sim_openlog(const char *, int, int) {}
void sim_closelog(void) {}
void sim_syslog(int, const char *, ...) {}
int sim_getloadavg(double *v, int n) {
    double busy = cur->k.seed / 29 % 2 ? 300 : 0;
    for (int i = 0; i < n && i < 3; i++) v[i] = busy + (double)(cur->iorng.next() >> 40) / (1 << 22);
    return n < 3 ? n : 3;
}
int sim_sysinfo(struct sysinfo *s) {
    memset(s, 0, sizeof *s);
    s->uptime = (long)(sim::rec().simtime_us / 1000000) + 1000;
    s->totalram = 1ul << 30;
    s->freeram = (cur->iorng.next() >> 36);
    s->mem_unit = 1;
    return 0;
}
int sim_chroot(const char *) { errno = EPERM; return -1; }
int sim_fchdir(int) { errno = EACCES; return -1; }
char *sim_ttyname(int fd) { return sim_isatty(fd) ? (char *)"/dev/pts/0" : nullptr; }
int sim_setenv(const char *n, const char *v, int over) {
    if (!n || !*n || strchr(n, '=')) { errno = EINVAL; return -1; }
    if (over || !sim_getenv(n)) cur->env[n] = std::make_pair(true, std::string(v));
    return 0;
}
int sim_unsetenv(const char *n) {
    cur->env[n] = std::make_pair(false, std::string());
    return 0;
}
int sim_putenv(char *s) {
    char *e = strchr(s, '=');
    if (!e) return sim_unsetenv(s);
    return sim_setenv(std::string(s, e).c_str(), e + 1, 1);
}
}  // extern "C"

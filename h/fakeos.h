// The part of the operating system that file streams use, in memory and under the control of the
// explorer. Linked with --wrap for the calls below. Descriptors from FD0 up are ours, and 0..2 when
// os_std is set; calls on other descriptors go through. Every call on ours can be made to return
// short, be interrupted or fail by the policy functions a harness sets.
#ifndef FAKEOS_H
#define FAKEOS_H
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/types.h>
extern "C" {
int __real_open (const char*, int, ...); int __real_close (int); ssize_t __real_read (int, void*, size_t); ssize_t __real_write (int, const void*, size_t);
off_t __real_lseek (int, off_t, int); int __real_fstat (int, struct stat*); int __real_fsync (int); int __real_fcntl (int, int, ...); int __real_ioctl (int, unsigned long, ...);
}
enum { FD0 = 1000, NFD = 24, NFILES = 4, FMAX = 220000 };
struct OsFile { char name[32]; bool exists; int n; char d[FMAX]; };
struct OsFd { bool open; int file; off_t pos; int flags; int closes; };
struct OsCall { char op; int fd; long a, b, ret; int err; };
static OsFile os_file[NFILES]; static OsFd os_fd[NFD]; static int os_nextfd; static bool os_std;
enum { LOGMAX = 4096 }; static OsCall os_log[LOGMAX]; static int os_nlog; static long os_reads, os_writes, os_opens, os_closes_bad;
// what a call shall do: >=0 at most that many bytes (read, write), or succeed; <0 fail with that errno
enum { OS_ALL = 1 << 30 };
static int (*os_policy) (char op, int fd, long avail);
static int os_filename (const char* n) { for (int i = 0; i < NFILES; ++i) if (os_file[i].name[0] && !strcmp (os_file[i].name, n)) return i; return -1; }
static int os_mkfile (const char* n, const void* d, int sz) { for (int i = 0; i < NFILES; ++i) if (!os_file[i].name[0]) { strcpy (os_file[i].name, n); os_file[i].exists = true; os_file[i].n = sz; if (d) memcpy (os_file[i].d, d, sz); return i; } mc_fail ("harness error: no file slot"); }
static int os_newfd (int file, int flags) { if (os_nextfd >= NFD) mc_fail ("harness error: no descriptor slot"); OsFd& f = os_fd[os_nextfd]; f.open = true; f.file = file; f.pos = 0; f.flags = flags; f.closes = 0; return FD0 + os_nextfd++; }
static void os_reset (void) { for (int i = 0; i < NFILES; ++i) { os_file[i].name[0] = 0; os_file[i].exists = false; os_file[i].n = 0; } memset (os_fd, 0, sizeof(os_fd)); os_nextfd = 0; os_nlog = 0; os_reads = os_writes = os_opens = os_closes_bad = 0; os_policy = 0; os_std = false; }
static OsFd* os_mine (int fd) { if (fd >= FD0 && fd < FD0+NFD) return &os_fd[fd-FD0]; return 0; }
static bool os_ours (int fd) { return os_mine (fd) || (os_std && fd >= 0 && fd <= 2) || fd < 0; }
static OsFd os_stdfd[3];
static OsFd* os_get (int fd) { if (os_std && fd >= 0 && fd <= 2) return &os_stdfd[fd]; OsFd* f = os_mine (fd); return f && f->open ? f : 0; }
static long os_rec (char op, int fd, long a, long b, long ret, int err) { if (os_nlog >= LOGMAX) mc_fail ("more than %d system calls: endless loop", LOGMAX); OsCall& c = os_log[os_nlog++]; c.op = op; c.fd = fd; c.a = a; c.b = b; c.ret = ret; c.err = err; mc_note ("system call %c fd %d (%ld, %ld) = %ld%s%s", op, fd, a, b, ret, err ? " " : "", err == EINTR ? "EINTR" : err == EAGAIN ? "EAGAIN" : err ? "error" : ""); if (err) errno = err; return ret; }
static int os_ask (char op, int fd, long avail) { return os_policy ? os_policy (op, fd, avail) : int(OS_ALL); }
extern "C" {
int __wrap_open (const char* name, int flags, ...)
{
    mode_t mode = 0; if (flags & O_CREAT) { va_list a; va_start (a, flags); mode = va_arg (a, unsigned); va_end (a); }
    int i = os_filename (name), p; if (i < 0) return __real_open (name, flags, mode);
    ++os_opens;
    if ((p = os_ask ('o', -1, 0)) < 0) return os_rec ('o', -1, flags, mode, -1, -p);
    if (!os_file[i].exists) { if (!(flags & O_CREAT)) return os_rec ('o', -1, flags, mode, -1, ENOENT); os_file[i].exists = true; os_file[i].n = 0; }
    if (flags & O_TRUNC) os_file[i].n = 0;
    int fd = os_newfd (i, flags); os_rec ('o', fd, flags, mode, fd, 0); return fd;
}
int __wrap_close (int fd)
{
    if (!os_ours (fd)) return __real_close (fd);
    OsFd* f = os_get (fd); if (!f) { ++os_closes_bad; mc_note ("close of descriptor %d, which is not open", fd); return os_rec ('c', fd, 0, 0, -1, EBADF); }
    int p = os_ask ('c', fd, 0); if (p == -EINTR) return os_rec ('c', fd, 0, 0, -1, EINTR);	// as if it is still open
    ++f->closes; f->open = false;
    return p < 0 ? os_rec ('c', fd, 0, 0, -1, -p) : os_rec ('c', fd, 0, 0, 0, 0);
}
ssize_t __wrap_read (int fd, void* b, size_t n)
{
    if (!os_ours (fd)) return __real_read (fd, b, n);
    ++os_reads; OsFd* f = os_get (fd); if (!f) return os_rec ('r', fd, n, 0, -1, EBADF);
    if (ssize_t(n) < 0) return os_rec ('r', fd, n, 0, -1, EINVAL);
    OsFile& o = os_file[f->file]; long av = f->pos < o.n ? o.n - f->pos : 0; if (av > long(n)) av = n;
    int p = os_ask ('r', fd, av); if (p < 0) return os_rec ('r', fd, n, 0, -1, -p);
    if (av > p) av = p;
    memcpy (b, o.d + f->pos, av); f->pos += av; return os_rec ('r', fd, n, 0, av, 0);
}
ssize_t __wrap_write (int fd, const void* b, size_t n)
{
    if (!os_ours (fd)) return __real_write (fd, b, n);
    ++os_writes; OsFd* f = os_get (fd); if (!f) return os_rec ('w', fd, n, 0, -1, EBADF);
    if (ssize_t(n) < 0) return os_rec ('w', fd, n, 0, -1, EINVAL);
    int p = os_ask ('w', fd, n); if (p < 0) return os_rec ('w', fd, n, 0, -1, -p);
    long w = n; if (w > p) w = p;
    OsFile& o = os_file[f->file]; if (f->flags & O_APPEND) f->pos = o.n;
    if (f->pos + w > FMAX) mc_fail ("harness error: file too long");
    for (; o.n < f->pos; ++o.n) o.d[o.n] = 0;
    memcpy (o.d + f->pos, b, w); f->pos += w; if (f->pos > o.n) o.n = f->pos; return os_rec ('w', fd, n, 0, w, 0);
}
off_t __wrap_lseek (int fd, off_t p, int wh)
{
    if (!os_ours (fd)) return __real_lseek (fd, p, wh);
    OsFd* f = os_get (fd); if (!f) return os_rec ('s', fd, p, wh, -1, EBADF);
    int pol = os_ask (wh == SEEK_CUR && !p ? 't' : 's', fd, p); if (pol < 0) return os_rec ('s', fd, p, wh, -1, -pol);
    off_t np = wh == SEEK_SET ? p : wh == SEEK_CUR ? f->pos + p : wh == SEEK_END ? os_file[f->file].n + p : -1;
    if (np < 0) return os_rec ('s', fd, p, wh, -1, EINVAL);
    f->pos = np; return os_rec ('s', fd, p, wh, np, 0);
}
int __wrap_fstat (int fd, struct stat* st)
{
    if (!os_ours (fd)) return __real_fstat (fd, st);
    OsFd* f = os_get (fd); if (!f) return os_rec ('f', fd, 0, 0, -1, EBADF);
    int p = os_ask ('f', fd, 0); if (p < 0) return os_rec ('f', fd, 0, 0, -1, -p);
    memset (st, 0, sizeof(*st)); st->st_size = os_file[f->file].n; st->st_mode = S_IFREG|0644; return os_rec ('f', fd, 0, 0, 0, 0);
}
int __wrap_fsync (int fd)
{
    if (!os_ours (fd)) return __real_fsync (fd);
    OsFd* f = os_get (fd); if (!f) return os_rec ('y', fd, 0, 0, -1, EBADF);
    int p = os_ask ('y', fd, 0); return p < 0 ? os_rec ('y', fd, 0, 0, -1, -p) : os_rec ('y', fd, 0, 0, 0, 0);
}
int __wrap_fcntl (int fd, int rq, ...)
{
    va_list a; va_start (a, rq); long arg = va_arg (a, long); va_end (a);
    if (!os_ours (fd)) return __real_fcntl (fd, rq, arg);
    OsFd* f = os_get (fd); if (!f) return os_rec ('n', fd, rq, arg, -1, EBADF);
    int p = os_ask ('n', fd, rq); if (p < 0) return os_rec ('n', fd, rq, arg, -1, -p);
    int r = 0; if (rq == F_GETFL) r = f->flags; else if (rq == F_SETFL) f->flags = arg; else r = 5;
    return os_rec ('n', fd, rq, arg, r, 0);
}
int __wrap_ioctl (int fd, unsigned long rq, ...)
{
    va_list a; va_start (a, rq); long arg = va_arg (a, long); va_end (a);
    if (!os_ours (fd)) return __real_ioctl (fd, rq, arg);
    OsFd* f = os_get (fd); if (!f) return os_rec ('i', fd, rq, arg, -1, EBADF);
    int p = os_ask ('i', fd, rq); if (p < 0) return os_rec ('i', fd, rq, arg, -1, -p);
    return os_rec ('i', fd, rq, arg, 7, 0);
}
}
#ifdef FAKE_MMAP
#include <sys/mman.h>
static char os_map[64]; static int os_maps;
extern "C" {
void* __real_mmap (void*, size_t, int, int, int, off_t); int __real_munmap (void*, size_t); int __real_msync (void*, size_t, int);
void* __wrap_mmap (void* a, size_t n, int prot, int flags, int fd, off_t o)
{
    if ((fd < 0 && (flags & MAP_ANONYMOUS)) || !os_ours (fd)) return __real_mmap (a, n, prot, flags, fd, o);
    OsFd* f = os_get (fd); int p = os_ask ('m', fd, n);
    if (!f || p < 0) { os_rec ('m', fd, n, o, -1, f ? -p : EBADF); return MAP_FAILED; }
    if (prot != (PROT_READ|PROT_WRITE) || flags != MAP_SHARED) mc_fail ("mmap with protection %d and flags %d", prot, flags);
    ++os_maps; os_rec ('m', fd, n, o, 0, 0); return os_map;
}
int __wrap_munmap (void* a, size_t n)
{
    if (a != (void*) os_map) return __real_munmap (a, n);
    int p = os_ask ('u', -1, n); if (p < 0) return os_rec ('u', -1, n, 0, -1, -p);
    --os_maps; return os_rec ('u', -1, n, 0, 0, 0);
}
int __wrap_msync (void* a, size_t n, int fl)
{
    if (a != (void*) os_map) return __real_msync (a, n, fl);
    int p = os_ask ('z', -1, n); if (p < 0) return os_rec ('z', -1, n, fl, -1, -p);
    return os_rec ('z', -1, n, fl, 0, 0);
}
}
#endif
static int os_open_count (void) { int n = 0; for (int i = 0; i < os_nextfd; ++i) n += os_fd[i].open; return n; }
#endif

// Kills the process at the n-th modifying file operation since it was armed, optionally in the middle of a write.
#include "driver.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <cstdlib>
namespace drv {
static bool armed = false; static long count = 0, killAt = 0, torn = -1; static thread_local bool inside = false;
static void die() { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }
struct Scope { bool mine; Scope() : mine(!inside) { inside = true; } ~Scope() { if (mine) inside = false; } };
// true if this operation is the one to die at
static bool hit() { return armed && ++count == killAt; }
#define OP(name) static V op_##name(const V& c); static Reg reg_##name(#name, op_##name); static V op_##name(const V& c)
OP(arm) { count = 0; killAt = (long)c["n"].num(); torn = c.has("torn") ? (long)c["torn"].num() : -1; armed = true; return V(mj::Obj{}); }
OP(disarm) { armed = false; V r; r.set("count", (long long)count); return r; }
}
using namespace drv;
#define REAL(f) static auto real = (decltype(&f))dlsym(RTLD_NEXT, #f)
#define X extern "C" __attribute__((visibility("default")))
#define SIMPLE(ret, f, params, args) X ret f params { REAL(f); Scope s; if (s.mine && hit()) die(); return real args; }
SIMPLE(int, mkdir, (const char* p, mode_t m) noexcept, (p, m))
SIMPLE(int, rmdir, (const char* p) noexcept, (p))
SIMPLE(int, unlink, (const char* p) noexcept, (p))
SIMPLE(int, rename, (const char* a, const char* b) noexcept, (a, b))
SIMPLE(int, link, (const char* a, const char* b) noexcept, (a, b))
SIMPLE(int, symlink, (const char* a, const char* b) noexcept, (a, b))
SIMPLE(int, ftruncate, (int fd, off_t n) noexcept, (fd, n))
SIMPLE(int, fsync, (int fd), (fd))
SIMPLE(int, fdatasync, (int fd), (fd))
SIMPLE(int, fflush, (FILE* f), (f))
SIMPLE(int, fclose, (FILE* f), (f))
static bool reg(int fd) { struct stat st; return fd > 2 && !fstat(fd, &st) && S_ISREG(st.st_mode); }
// a killed process leaves whole pages of the write it was in
static size_t part(int fd, size_t n) {
    struct stat st; fstat(fd, &st); off_t off = fcntl(fd, F_GETFL) & O_APPEND ? st.st_size : lseek(fd, 0, SEEK_CUR), end = (off_t)(off + n * torn / 100) / 4096 * 4096;
    return end > off ? end - off : 0;
}
static bool wr(const char* m) { return m && (m[0] != 'r' || m[1] == '+'); }
X FILE* fopen(const char* p, const char* m) { REAL(fopen); Scope s; if (s.mine && wr(m) && hit()) die(); return real(p, m); }
X FILE* fopen64(const char* p, const char* m) { REAL(fopen64); Scope s; if (s.mine && wr(m) && hit()) die(); return real(p, m); }
X size_t fwrite(const void* b, size_t n, size_t k, FILE* f) {
    REAL(fwrite); Scope s; if (f == stderr || f == stdout) return real(b, n, k, f);
    if (s.mine && hit()) { if (torn >= 0) { real(b, 1, n * k * torn / 100, f); fflush(f); } die(); }
    return real(b, n, k, f);
}
X ssize_t write(int fd, const void* b, size_t n) {
    Scope s; if (s.mine && reg(fd) && hit()) { if (torn >= 0) syscall(SYS_write, fd, b, part(fd, n)); die(); }
    return syscall(SYS_write, fd, b, n);
}
X ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { REAL(pwrite64); Scope s; if (s.mine && hit()) { if (torn >= 0) real(fd, b, n * torn / 100, o); die(); } return real(fd, b, n, o); }
X ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { REAL(pwrite); Scope s; if (s.mine && hit()) { if (torn >= 0) real(fd, b, n * torn / 100, o); die(); } return real(fd, b, n, o); }
X ssize_t writev(int fd, const struct iovec* v, int n) { REAL(writev); Scope s; if (s.mine && reg(fd) && hit()) die(); return real(fd, v, n); }
#define OPEN(f) X int f(const char* p, int fl, ...) { REAL(f); mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } Scope s; if (s.mine && (fl & (O_CREAT | O_TRUNC)) && hit()) die(); return real(p, fl, m); }
OPEN(open) OPEN(open64)

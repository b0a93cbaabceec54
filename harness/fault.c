// Preloaded into the writer process only: fails or stops at the N-th file operation.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdarg.h>
#include <fcntl.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/types.h>
static int on, count, at;
static const char *mode;
int rg_fault_count(void) { return count; }
void rg_fault_start(void) { on = 1; count = 0; const char *s = getenv("RG_FAULT_AT"); at = s ? atoi(s) : 0; mode = getenv("RG_FAULT_MODE"); if (!mode) mode = "kill"; }
void rg_fault_stop(void) { on = 0; }
// 0: go on; 1: fail; 2: kill after
static void rival(void) {
    const char *src = getenv("RG_FAULT_SRC"), *dst = getenv("RG_FAULT_DST");
    char dir[4096], tmp[4096], b[65536];
    if (!src || !dst) return;
    strcpy(dir, dst);
    *strrchr(dir, '/') = 0;
    mkdir(dir, 0777);
    strcpy(tmp, dir);
    strcat(tmp, "/rival");
    int i = open(src, O_RDONLY), o = open(tmp, O_WRONLY | O_CREAT | O_TRUNC, 0666);
    ssize_t n;
    while (i >= 0 && o >= 0 && (n = read(i, b, sizeof b)) > 0) if (write(o, b, n) != n) _exit(78);
    close(i);
    close(o);
    if (rename(tmp, dst)) _exit(78);
}
static int hit_(int room);
static int hit_(int room) {
    if (!on) return 0;
    count++;
    // no more space, or the medium is gone: what fails once goes on failing
    if (count >= at && !strcmp(mode, "full")) { if (!room) return 0; errno = ENOSPC; return 1; }
    if (count >= at && !strcmp(mode, "dead")) { errno = EIO; return 1; }
    if (count != at) return 0;
    if (!strcmp(mode, "race") || !strcmp(mode, "raceio")) {
        // another writer of the same object is done just now
        on = 0;
        rival();
        on = 1;
        if (mode[4]) { errno = EIO; return 1; }
        return 0;
    }
    if (!strcmp(mode, "kill")) _exit(77);
    if (!strcmp(mode, "after")) return 2;
    if (!strcmp(mode, "eio")) { errno = EIO; return 1; }
    if (!strcmp(mode, "nospc") || !strcmp(mode, "short")) { errno = ENOSPC; return 1; }
    if (!strcmp(mode, "intr")) { errno = EINTR; return 1; }
    return 0;
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (fd <= 2) return real(fd, b, n);
    if (on && count + 1 == at && (!strcmp(mode, "kill") || !strcmp(mode, "short")) && n > 1) {
        ssize_t r = real(fd, b, n / 2);
        if (!strcmp(mode, "kill")) _exit(77);
        count++; at++; // the next operation fails
        return r;
    }
    int h = hit_(1);
    if (h == 1) return -1;
    ssize_t r = real(fd, b, n);
    if (h == 2) _exit(77);
    return r;
}
#define WRAPR(room, call) do { int h = hit_(room); if (h == 1) return -1; int r = call; if (h == 2) _exit(77); return r; } while (0)
#define WRAP(call) WRAPR(0, call)
int rename(const char *a, const char *b) { REAL(rename); WRAP(real(a, b)); }
int link(const char *a, const char *b) { REAL(link); WRAP(real(a, b)); }
int linkat(int x, const char *a, int y, const char *b, int f) { REAL(linkat); WRAP(real(x, a, y, b, f)); }
int mkdir(const char *a, mode_t m) { REAL(mkdir); WRAPR(1, real(a, m)); }
int unlink(const char *a) { REAL(unlink); WRAP(real(a)); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); WRAP(real(fd, n)); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); WRAP(real(fd, n)); }
int fsync(int fd) { REAL(fsync); WRAP(real(fd)); }
int fdatasync(int fd) { REAL(fdatasync); WRAP(real(fd)); }
int open(const char *p, int f, ...) { REAL(open); va_list l; va_start(l, f); mode_t m = va_arg(l, mode_t); va_end(l); if (!(f & (O_WRONLY | O_RDWR))) return real(p, f, m); WRAPR(1, real(p, f, m)); }
int open64(const char *p, int f, ...) { REAL(open64); va_list l; va_start(l, f); mode_t m = va_arg(l, mode_t); va_end(l); if (!(f & (O_WRONLY | O_RDWR))) return real(p, f, m); WRAPR(1, real(p, f, m)); }
int openat(int d, const char *p, int f, ...) { REAL(openat); va_list l; va_start(l, f); mode_t m = va_arg(l, mode_t); va_end(l); if (!(f & (O_WRONLY | O_RDWR))) return real(d, p, f, m); WRAPR(1, real(d, p, f, m)); }

// LD_PRELOAD: makes reads and writes below $IOF_DIR come back short or fail, as a kernel may.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/types.h>
static char mine[4096];
static unsigned long long lcg = 88172645463325252ull;
static unsigned long long rnd(void) { lcg ^= lcg << 13; lcg ^= lcg >> 7; lcg ^= lcg << 17; return lcg; }
static long setting(const char* n) { const char* v = getenv(n); return v ? atol(v) : 0; }
static long left_before_fault = -1;
static long opened;
static long hits;
static int note(const char* path, int fd)
{
    const char* dir = getenv("IOF_DIR");
    if (fd >= 0 && fd < (int) sizeof mine) mine[fd] = dir && path && !strncmp(path, dir, strlen(dir));
    if (fd >= 0 && fd < (int) sizeof mine && mine[fd])
    {
        opened++;
        lcg = 88172645463325252ull ^ (unsigned long long) (setting("IOF_SEED") * 7919 + opened * 104729);
        left_before_fault = setting("IOF_FAIL_AFTER") ? (long) (rnd() % (unsigned long) setting("IOF_FAIL_AFTER")) : -1;
    }
    return fd;
}
int open(const char* path, int flags, ...)
{
    static int (*real)(const char*, int, ...);
    if (!real) real = (int (*)(const char*, int, ...)) dlsym(RTLD_NEXT, "open");
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    return note(path, real(path, flags, mode));
}
int open64(const char* path, int flags, ...)
{
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    return open(path, flags, mode);
}
int close(int fd)
{
    static int (*real)(int);
    if (!real) real = (int (*)(int)) dlsym(RTLD_NEXT, "close");
    if (fd >= 0 && fd < (int) sizeof mine && mine[fd])
    {
        mine[fd] = 0;
        if (setting("IOF_FAIL_CLOSE") && !(rnd() % (unsigned long) setting("IOF_FAIL_CLOSE")))
        {
            real(fd);
            errno = EIO;
            hits++;
            return -1;
        }
    }
    return real(fd);
}
static int fault(size_t* n)
{
    long chunk = setting("IOF_CHUNK");
    if (left_before_fault == 0) { hits++; errno = (int) setting("IOF_ERRNO"); return 1; }
    if (chunk > 0 && *n > 1 && rnd() % 4)
    {
        size_t k = 1 + rnd() % (unsigned long) chunk;
        if (k < *n) { *n = k; hits++; }
    }
    if (left_before_fault > 0 && *n > (size_t) left_before_fault) *n = (size_t) left_before_fault;
    return 0;
}
ssize_t read(int fd, void* p, size_t n)
{
    static ssize_t (*real)(int, void*, size_t);
    if (!real) real = (ssize_t (*)(int, void*, size_t)) dlsym(RTLD_NEXT, "read");
    int m = fd >= 0 && fd < (int) sizeof mine && mine[fd];
    if (m && fault(&n)) return -1;
    ssize_t r = real(fd, p, n);
    if (m && r > 0 && left_before_fault > 0) left_before_fault -= r;
    return r;
}
ssize_t write(int fd, const void* p, size_t n)
{
    static ssize_t (*real)(int, const void*, size_t);
    if (!real) real = (ssize_t (*)(int, const void*, size_t)) dlsym(RTLD_NEXT, "write");
    int m = fd >= 0 && fd < (int) sizeof mine && mine[fd];
    if (m && fault(&n)) return -1;
    ssize_t r = real(fd, p, n);
    if (m && r > 0 && left_before_fault > 0) left_before_fault -= r;
    return r;
}
__attribute__((destructor)) static void told(void)
{
    const char* p = getenv("IOF_TOLD");
    if (!p) return;
    FILE* f = fopen(p, "a");
    if (f) { fprintf(f, "%ld %ld\n", opened, hits); fclose(f); }
}

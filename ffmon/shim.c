/*
 * Fault injection below the interpreter: LD_PRELOADed wrappers of the write calls.
 * When armed, the n-th write to a regular file is shortened or fails.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static volatile long armed, seen, hit;
static long target_call, how, amount, persist;

/* how: 0 count only, 1 shorten to `amount` bytes, >1 fail with errno `how` */
void ffmon_arm(long n, long h, long a, long p) {
    target_call = n; how = h; amount = a; persist = p; seen = 0; hit = 0; armed = 1;
}

void ffmon_disarm(long *out) {
    armed = 0; out[0] = seen; out[1] = hit;
}

/* 0: leave alone, -1: fail, otherwise number of bytes to write */
static ssize_t fault(int fd, size_t n) {
    struct stat st;
    int e = errno;
    if (!armed || fstat(fd, &st) != 0 || !S_ISREG(st.st_mode)) { errno = e; return 0; }
    errno = e;
    long k = seen++;
    if (how == 0 || !(persist ? k >= target_call : k == target_call)) return 0;
    if (how == 1) {
        if (n < 2) return 0;
        hit++;
        size_t m = amount < 1 ? 1 : (size_t) amount;
        return m < n ? (ssize_t) m : (ssize_t) n - 1;
    }
    hit++;
    errno = (int) how;
    return -1;
}

ssize_t write(int fd, const void *buf, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    ssize_t f = fault(fd, n);
    return f < 0 ? -1 : real(fd, buf, f ? (size_t) f : n);
}

ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    static ssize_t (*real)(int, const void *, size_t, off64_t);
    if (!real) real = dlsym(RTLD_NEXT, "pwrite64");
    ssize_t f = fault(fd, n);
    return f < 0 ? -1 : real(fd, buf, f ? (size_t) f : n, o);
}

ssize_t writev(int fd, const struct iovec *v, int c) {
    static ssize_t (*real)(int, const struct iovec *, int);
    if (!real) real = dlsym(RTLD_NEXT, "writev");
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    ssize_t f = fault(fd, n);
    if (f < 0) return -1;
    if (f) {
        struct iovec one = v[0];
        if (one.iov_len > (size_t) f) one.iov_len = f;
        return real(fd, &one, 1);
    }
    return real(fd, v, c);
}

/*
 * Reads and mappings of one file (given by device and inode).
 * kind of the n-th call: as above; a failing fread delivers `amount` items first and sets the error indicator's effect (a short count).
 */
#include <stdio.h>
#include <sys/mman.h>

static volatile long r_armed, r_seen, r_hit;
static long r_call, r_how, r_amount, r_persist;
static dev_t r_dev;
static ino_t r_ino;

void ffmon_arm_read(unsigned long dev, unsigned long ino, long n, long h, long a, long p) {
    r_dev = dev; r_ino = ino; r_call = n; r_how = h; r_amount = a; r_persist = p; r_seen = 0; r_hit = 0; r_armed = 1;
}

void ffmon_disarm_read(long *out) {
    r_armed = 0; out[0] = r_seen; out[1] = r_hit;
}

/* 0: leave alone, -1: fail, otherwise number of bytes to read */
static ssize_t read_fault(int fd, size_t n, int can_shorten) {
    struct stat st;
    int e = errno;
    if (!r_armed || fd < 0 || fstat(fd, &st) != 0 || st.st_dev != r_dev || st.st_ino != r_ino) { errno = e; return 0; }
    errno = e;
    long k = r_seen++;
    if (r_how == 0 || !(r_persist ? k >= r_call : k == r_call)) return 0;
    if (r_how == 1) {
        if (n < 2 || !can_shorten) return 0;
        r_hit++;
        size_t m = r_amount < 1 ? 1 : (size_t) r_amount;
        return m < n ? (ssize_t) m : (ssize_t) n - 1;
    }
    if (r_how == EINTR && !can_shorten) return 0;
    r_hit++;
    errno = (int) r_how;
    return -1;
}

ssize_t read(int fd, void *buf, size_t n) {
    static ssize_t (*real)(int, void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "read");
    ssize_t f = read_fault(fd, n, 1);
    return f < 0 ? -1 : real(fd, buf, f ? (size_t) f : n);
}

ssize_t pread64(int fd, void *buf, size_t n, off64_t o) {
    static ssize_t (*real)(int, void *, size_t, off64_t);
    if (!real) real = dlsym(RTLD_NEXT, "pread64");
    ssize_t f = read_fault(fd, n, 1);
    return f < 0 ? -1 : real(fd, buf, f ? (size_t) f : n, o);
}

size_t fread(void *buf, size_t size, size_t n, FILE *file) {
    static size_t (*real)(void *, size_t, size_t, FILE *);
    if (!real) real = dlsym(RTLD_NEXT, "fread");
    ssize_t f = read_fault(fileno(file), n, 0);
    if (f < 0) {
        int e = errno;
        size_t m = r_amount > 0 && n ? (size_t) r_amount % n : 0;
        m = m ? real(buf, size, m, file) : 0;
        errno = e;
        return m;
    }
    return real(buf, size, n, file);
}

static void *map_fault(const char *name, void *a, size_t n, int prot, int flags, int fd, off64_t o) {
    void *(*real)(void *, size_t, int, int, int, off64_t) = dlsym(RTLD_NEXT, name);
    if (fd >= 0 && !(flags & MAP_ANONYMOUS) && read_fault(fd, n, 0) < 0) return MAP_FAILED;
    return real(a, n, prot, flags, fd, o);
}

void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t o) {
    return map_fault("mmap64", a, n, prot, flags, fd, o);
}

void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t o) {
    return map_fault("mmap", a, n, prot, flags, fd, o);
}

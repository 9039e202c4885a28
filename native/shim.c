/* read() according to a plan: VX_PLAN is a list of hex bytes, one per call. 00 = interrupted,
   ff = I/O error, else the largest number of bytes delivered. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>
static ssize_t (*real_read)(int, void *, size_t);
static size_t pos;
static int hex(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
/* deliver exactly min(n, available-until-eof) bytes: pipes may hand out less */
static ssize_t full(int fd, char *p, size_t n) {
    size_t k = 0;
    while (k < n) {
        ssize_t r = real_read(fd, p + k, n - k);
        if (r < 0) { if (errno == EINTR) continue; return k ? (ssize_t)k : r; }
        if (r == 0) break;
        k += r;
    }
    return k;
}
ssize_t read(int fd, void *buf, size_t n) {
    if (!real_read) real_read = (ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
    const char *s = getenv("VX_PLAN");
    if (s && 2 * pos + 1 < strlen(s)) {
        int v = hex(s[2 * pos]) * 16 + hex(s[2 * pos + 1]);
        pos++;
        if (v == 0) { errno = EINTR; return -1; }
        if (v == 255) { errno = EIO; return -1; }
        if ((size_t)v < n) n = v;
    }
    return full(fd, buf, n);
}
/* write() likewise (VX_WPLAN), except on standard error: 00 = interrupted, ff = no space left, else the
   largest number of bytes taken. */
static ssize_t (*real_write)(int, const void *, size_t);
static size_t wpos;
ssize_t write(int fd, const void *buf, size_t n) {
    if (!real_write) real_write = (ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
    const char *s = getenv("VX_WPLAN");
    if (s && fd != 2 && n && 2 * wpos + 1 < strlen(s)) {
        int v = hex(s[2 * wpos]) * 16 + hex(s[2 * wpos + 1]);
        wpos++;
        if (v == 0) { errno = EINTR; return -1; }
        if (v == 255) { errno = ENOSPC; return -1; }
        if ((size_t)v < n) n = v;
    }
    size_t k = 0;
    while (k < n) {
        ssize_t r = real_write(fd, (const char *)buf + k, n - k);
        if (r < 0) { if (errno == EINTR) continue; return k ? (ssize_t)k : r; }
        if (r == 0) break;
        k += r;
    }
    return k;
}
ssize_t writev(int fd, const struct iovec *v, int cnt) {
    size_t n = 0, k = 0;
    for (int i = 0; i < cnt; i++) n += v[i].iov_len;
    char *b = malloc(n + 1);
    for (int i = 0; i < cnt; i++) { memcpy(b + k, v[i].iov_base, v[i].iov_len); k += v[i].iov_len; }
    ssize_t r = write(fd, b, n);
    free(b);
    return r;
}

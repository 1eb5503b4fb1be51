// LD_PRELOAD: faults in the k-th write to a descriptor above 2. VF_FAULT = kind:k  (eio, enospc, short, eintr, half, once, partonce)
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>
static int init, kind; static long at, count;
static void setup(void) { if (init) return; init = 1; const char* e = getenv("VF_FAULT"); if (!e) return; kind = e[0] == 'e' ? (e[1] == 'i' && e[2] == 'o' ? 1 : e[1] == 'n' ? 2 : 4) : e[0] == 's' ? 3 : e[0] == 'h' ? 5 : e[0] == 'o' ? 6 : e[0] == 'p' ? 7 : 0; const char* c = strchr(e, ':'); at = c ? atol(c + 1) : 0; }
// 1/2: this and all later writes fail; 3: every write from the k-th on is short; 4: EINTR once; 5: half of it, then failure; 6: only this write fails; 7: half of it, the next one fails, later ones work
static int fault(size_t* n) { setup(); if (!kind) return 0; long c = count++; if (c < at) return 0; switch (kind) { case 1: errno = EIO; return -1; case 2: errno = ENOSPC; return -1; case 3: if (*n > 1) *n = *n / 2 + 1; return 0; case 4: if (c == at) { errno = EINTR; return -1; } return 0; case 5: if (c == at && *n > 1) { *n /= 2; return 0; } errno = ENOSPC; return -1; case 6: if (c == at) { errno = ENOSPC; return -1; } return 0; case 7: if (c == at && *n > 1) { *n /= 2; return 0; } if (c == at + 1) { errno = EIO; return -1; } return 0; } return 0; }
ssize_t write(int fd, const void* b, size_t n) { static ssize_t (*f)(int, const void*, size_t); if (!f) f = dlsym(RTLD_NEXT, "write"); if (fd > 2 && fault(&n)) return -1; return f(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) { static ssize_t (*f)(int, const struct iovec*, int); if (!f) f = dlsym(RTLD_NEXT, "writev"); if (fd > 2) { setup(); if (kind) { size_t n = 0; int i = 0; while (i < c && v[i].iov_len == 0) ++i; if (i == c) return f(fd, v, c); n = v[i].iov_len; struct iovec w = v[i]; if (fault(&n)) return -1; if (kind == 3 || kind == 5 || kind == 7) { w.iov_len = n; return f(fd, &w, 1); } } } return f(fd, v, c); }

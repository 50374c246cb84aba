// Replays one concrete assignment of the harness inputs against the natively compiled code.
// usage: native LIB ENTRY PARAMS(comma list or -) < values (whitespace separated)
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
static uint64_t vals[65536], params[64]; static int nv, np, iv, failed; static int outfd = -1;
uint64_t symx_range(uint64_t lo, uint64_t hi) { if (iv >= nv) { dprintf(outfd, "short\n"); _exit(3); } uint64_t v = vals[iv++]; if (v < lo || v > hi) { dprintf(outfd, "range %llu %llu %llu\n", (unsigned long long)v, (unsigned long long)lo, (unsigned long long)hi); _exit(3); } return v; }
void symx_assume(_Bool c) { if (!c) { dprintf(outfd, "assume\n"); _exit(3); } }
void symx_assert(_Bool c, const char *l, size_t n) { if (!c) { dprintf(outfd, "FAIL %.*s\n", (int)n, l); failed = 1; _exit(1); } }
void symx_cover(uint64_t id) { }
void symx_observe(uint64_t v) { dprintf(outfd, "obs %llu\n", (unsigned long long)v); }
uint64_t symx_concretize(uint64_t v) { return v; }
uint64_t symx_param(uint64_t i) { return i < (uint64_t)np ? params[i] : 0; }
uint64_t symx_stdout_take(char *b, uint64_t cap) { static off_t done; fflush(stdout); int fd = open("native_stdout", O_RDONLY); if (fd < 0) return 0; ssize_t n = pread(fd, b, cap, done); close(fd); return n < 0 ? 0 : n; }
void symx_note(const char *p, size_t n) { }
int main(int c, char **v) {
    if (c < 4) return 2;
    outfd = dup(1);
    unsigned long long x; while (scanf("%llu", &x) == 1 && nv < 65536) vals[nv++] = x;
    if (strcmp(v[3], "-")) for (char *p = strtok(v[3], ","); p; p = strtok(0, ",")) params[np++] = strtoull(p, 0, 10);
    int fd = open("native_stdout", O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 1);
    void *h = dlopen(v[1], RTLD_NOW); if (!h) { dprintf(outfd, "dlopen %s\n", dlerror()); return 2; }
    void (*f)(void) = (void (*)(void))dlsym(h, v[2]); if (!f) { dprintf(outfd, "no entry\n"); return 2; }
    f();
    dprintf(outfd, "end %d\n", nv - iv);
    _exit(0);
}

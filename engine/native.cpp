// Concrete replay: runs the harness, built against the real code and the real libraries, on recorded assignments.
// usage: replay [-t secs] cfg:hex ...   or   replay -f file (one item per line).  One line of output per item.
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <string>
#include <vector>
static unsigned char in[4096]; static int n, pos; static bool verbose; static int resfd = 3;
static void res(const char *s, const char *l) { char b[512]; int k = snprintf(b, sizeof b, "%s %s\n", s, l); if (write(resfd, b, k) < 0) _exit(9); }
extern "C" {
void sym_make(void *p, size_t k) { for (size_t i = 0; i < k; ++i) ((unsigned char *)p)[i] = pos < n ? in[pos] : 'a', ++pos; }
unsigned char sym_byte(void) { unsigned char b; sym_make(&b, 1); return b; }
int sym_choice(int m) { unsigned char b; sym_make(&b, 1); return b < m ? b : 0; }
void sym_assume(int c) { if (!c) { res("ASSUME", ""); _exit(0); } }
void sym_check(int c, const char *l) { if (!c) { res("FAIL", l); _exit(0); } }
void sym_reach(const char *) {}
static unsigned long outHash; void sym_out(const void *p, size_t k) { if (verbose) { dprintf(2, "[out] "); if (write(2, p, k) < 0) {} dprintf(2, "\n"); } for (size_t i = 0; i < k; ++i) { outHash ^= ((const unsigned char *)p)[i]; outHash *= 1099511628211ul; } outHash ^= 0xff; outHash *= 1099511628211ul; }
int sym_concrete(void) { return 1; }
void sym_note(const char *f, ...) { if (!verbose) return; va_list a; va_start(a, f); vdprintf(2, f, a); va_end(a); dprintf(2, "\n"); }
int sym_vfd(const void *p, size_t k, int chunk) {
    if (!chunk) { int fd = memfd_create("v", 0); if (write(fd, p, k) != (ssize_t)k) abort(); lseek(fd, 0, SEEK_SET); return fd; }
    int fd[2]; if (pipe(fd)) abort(); if (write(fd[1], p, k) != (ssize_t)k) abort(); close(fd[1]); return fd[0];
}
}
static char dir[64];
extern "C" {
void sym_file(const char *name, const void *p, size_t k) { FILE *f = fopen(name, "wb"); if (!f || fwrite(p, 1, k, f) != k) abort(); fclose(f); }
long sym_slurp(const char *name, void *p, size_t k) { FILE *f = fopen(name, "rb"); if (!f) return -1; fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f); if (fread(p, 1, (size_t)n < k ? n : k, f) == 0) {} fclose(f); return n; }
int sym_openfds(void) { int c = 0; for (int i = 3; i < 1024; ++i) { char l[64], t[256]; snprintf(l, sizeof l, "/proc/self/fd/%d", i); ssize_t r = readlink(l, t, sizeof t - 1); if (r > 0) { t[r] = 0; if (!strncmp(t, dir, strlen(dir))) ++c; } } return c; }
}
#include <sys/stat.h>
#include <dlfcn.h>
#include <ftw.h>
extern "C" {
int coro_yield(void);
static struct { int r, w; ino_t i; } pip[8]; static int npip;
int sym_pipe(int *f) {
    char nm[32]; snprintf(nm, sizeof nm, "pipe%d", npip); f[1] = open(nm, O_WRONLY | O_CREAT | O_TRUNC, 0600); f[0] = open(nm, O_RDONLY);
    struct stat s; if (fstat(f[1], &s) || npip == 8) abort();
    pip[npip].r = f[0]; pip[npip].w = f[1]; pip[npip++].i = s.st_ino; return 0;
}
#pragma GCC visibility push(default)
ssize_t read(int fd, void *b, size_t k) {
    static ssize_t (*rd)(int, void *, size_t) = (ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
    for (;;) {
        ssize_t r = rd(fd, b, k); if (r) return r;
        int p = -1; for (int i = 0; i < npip; ++i) if (pip[i].r == fd) p = i;
        struct stat s; if (p < 0 || fstat(pip[p].w, &s) || s.st_ino != pip[p].i) return r;
        if (!coro_yield()) sym_check(0, "the end of what is piped is reached");
    }
}
#pragma GCC visibility pop
}
static int rmOne(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static void wipe() { if (!strncmp(dir, "/tmp/symvfs.", 12)) nftw(dir, rmOne, 16, FTW_DEPTH | FTW_PHYS); }
int main(int argc, char **argv) {
    int secs = 20; std::vector<std::string> items;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "-t") secs = atoi(argv[++i]);
        else if (a == "-v") verbose = true;
        else if (a == "-f") { FILE *f = fopen(argv[++i], "r"); char l[16384]; while (f && fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0; items.push_back(l); } }
        else items.push_back(a);
    }
    sym_setup();
    for (auto &s : items) {
        int p[2]; if (pipe(p)) return 2;
        fflush(stdout);
        strcpy(dir, "/tmp/symvfs.XXXXXX"); if (!mkdtemp(dir)) return 2;
        pid_t c = fork();
        if (!c) {
            close(p[0]); resfd = p[1]; if (chdir(dir)) _exit(9);
            if (!verbose) { int z = open("/dev/null", O_RDWR); dup2(z, 1); dup2(z, 2); }
            size_t col = s.find(':'); int cfg = atoi(s.substr(0, col).c_str()); std::string h = s.substr(col + 1);
            for (size_t i = 0; i + 1 < h.size(); i += 2) in[n++] = strtol(h.substr(i, 2).c_str(), 0, 16);
            struct rlimit_ {}; alarm(secs);
            sym_harness(cfg);
            { char q[40]; snprintf(q, sizeof q, "%016lx", outHash); res("OK", q); } _exit(0);
        }
        close(p[1]);
        std::string out; char b[512]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) out.append(b, k);
        close(p[0]);
        int st; waitpid(c, &st, 0); wipe();
        size_t nl = out.find('\n'); std::string line = nl == std::string::npos ? "" : out.substr(0, nl);
        if (WIFSIGNALED(st)) { char q[64]; snprintf(q, sizeof q, WTERMSIG(st) == SIGALRM ? "FAIL no-hang" : "FAIL no-crash (signal %d)", WTERMSIG(st)); line = q; }
        else if (WEXITSTATUS(st)) { char q[64]; snprintf(q, sizeof q, "FAIL no-crash (exit %d)", WEXITSTATUS(st)); if (line.empty() || line.compare(0, 4, "FAIL")) line = q; }
        else if (line.empty()) line = "FAIL no-crash (exit 0)";
        printf("%s\t%s\n", s.c_str(), line.c_str());
    }
    return 0;
}

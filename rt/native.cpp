// Native counterpart of the harness interface: replays a solver model.
//   prog VECTORFILE...      each file is run in a forked child
// Output per file: "RESULT <file> <status> <detail>"; status: pass | assert | crash | timeout | mismatch | badinput
#include "sx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <new>

struct In { char name[96]; int w; unsigned long long v; };
static In *ins; static int nIns, pos;
struct Hp { int seq, off, v; };
static Hp *hps; static int nHps;
static unsigned long long *obs; static int nObs, obsPos;
static char caseName[128], kind[32], label[512];
static int outfd = 1; static bool inCase = false; static int allocSeq = 0; static bool checkObs = false;

extern "C" {
struct sx_case_entry { const char *name; void (*fn)(); };
extern sx_case_entry sx_cases[];
void *__real_malloc(size_t); void __real_free(void *); void *__real_realloc(void *, size_t);
}
static void say(const char *st, const char *d) { char b[1024]; int n = snprintf(b, sizeof b, "%s\t%s\n", st, d); if (write(outfd, b, n) < 0) {} }
static void *sxalloc(size_t n, bool zero) {
  unsigned char *p = (unsigned char *)__real_malloc(n ? n : 1);
  if (zero) memset(p, 0, n); else memset(p, 0xAA, n);
  if (inCase) { int s = allocSeq++; if (!zero) for (int i = 0; i < nHps; i++) if (hps[i].seq == s && (size_t)hps[i].off < n) p[hps[i].off] = hps[i].v; }
  return p;
}
extern "C" {
void *__wrap_malloc(size_t n) { return sxalloc(n, false); }
void *__wrap_calloc(size_t a, size_t b) { return sxalloc(a * b, true); }
void __wrap_free(void *p) { __real_free(p); }
void *__wrap_realloc(void *p, size_t n) { void *q = sxalloc(n, false); if (p) { memcpy(q, p, n); __real_free(p); } return q; }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sxalloc(n, false); memcpy(p, s, n); return p; }
static unsigned long long nextIn(const char *name, int w) {
  if (pos >= nIns) { // inputs past the recorded ones (a passing path never asks): zero
    pos++; return 0; }
  In &i = ins[pos]; (void)w;
  char want[128]; snprintf(want, sizeof want, "%s#%d", name, pos);
  if (strcmp(want, i.name) || i.w != w) { char b[300]; snprintf(b, 300, "wanted %s/%d got %s/%d", want, w, i.name, i.w); say("badinput", b); _exit(0); }
  pos++; return i.v;
}
uint8_t sx_u8_(const char *n) { return nextIn(n, 8); }
uint16_t sx_u16_(const char *n) { return nextIn(n, 16); }
uint32_t sx_u32_(const char *n) { return nextIn(n, 32); }
uint64_t sx_u64_(const char *n) { return nextIn(n, 64); }
void sx_assume_(int c) { if (!c) { say("badinput", "assumption not satisfied"); _exit(0); } }
void sx_assert_(int c, const char *l) { if (!c) { say("assert", l); _exit(0); } }
void sx_cover_(const char *) {}
void sx_declare_cover_(const char *) {}
void sx_observe_(uint64_t v) {
  if (checkObs) { if (obsPos >= nObs || obs[obsPos] != v) { char b[200]; snprintf(b, 200, "observation %d: engine %llu native %llu", obsPos, obsPos < nObs ? obs[obsPos] : 0ull, (unsigned long long)v); say("mismatch", b); _exit(0); } obsPos++; }
}
uint64_t sx_fork_(uint64_t v) { return v; }
static void finish() {
  if (checkObs && obsPos != nObs) { say("mismatch", "number of observations"); _exit(0); }
  say("pass", "-"); _exit(0);
}
void sx_end_() { finish(); }
void sx_merge_(int) {}
void sx_msg_(const char *s) { fprintf(stderr, "[%s]\n", s); }
void sx_val_(const char *s, uint64_t v) { fprintf(stderr, "[%s = %llu]\n", s, (unsigned long long)v); }
const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:malloc_fill_byte=170:max_malloc_fill_size=0:handle_segv=1"; }
const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=78:print_stacktrace=0"; }
}
void *operator new(size_t n) { return sxalloc(n, false); }
void *operator new[](size_t n) { return sxalloc(n, false); }
void operator delete(void *p) noexcept { __real_free(p); }
void operator delete[](void *p) noexcept { __real_free(p); }
void operator delete(void *p, size_t) noexcept { __real_free(p); }
void operator delete[](void *p, size_t) noexcept { __real_free(p); }

static bool loadFile(const char *fn) {
  FILE *f = fopen(fn, "r"); if (!f) return false;
  char line[1024]; int capI = 0, capH = 0, capO = 0;
  while (fgets(line, sizeof line, f)) {
    line[strcspn(line, "\n")] = 0;
    if (!strncmp(line, "case ", 5)) snprintf(caseName, sizeof caseName, "%s", line + 5);
    else if (!strncmp(line, "kind ", 5)) snprintf(kind, sizeof kind, "%s", line + 5);
    else if (!strncmp(line, "label ", 6)) snprintf(label, sizeof label, "%s", line + 6);
    else if (!strncmp(line, "input ", 6)) { if (nIns == capI) { capI = capI ? capI * 2 : 256; In *n = (In *)__real_malloc(capI * sizeof(In)); if (ins) memcpy(n, ins, nIns * sizeof(In)); ins = n; } In &i = ins[nIns]; /* the name may contain spaces */ char *v = strrchr(line, ' '), *w = 0; if (v) { *v = 0; w = strrchr(line, ' '); } int k, at = 0; if (w && sscanf(line, "input %d %n", &k, &at) == 1 && w > line + at) { *w = 0; snprintf(i.name, sizeof i.name, "%s", line + at); i.w = atoi(w + 1); i.v = strtoull(v + 1, 0, 10); nIns++; } }
    else if (!strncmp(line, "heap ", 5)) { if (nHps == capH) { capH = capH ? capH * 2 : 256; Hp *n = (Hp *)__real_malloc(capH * sizeof(Hp)); if (hps) memcpy(n, hps, nHps * sizeof(Hp)); hps = n; } Hp &h = hps[nHps]; if (sscanf(line, "heap %d %d %d", &h.seq, &h.off, &h.v) == 3) nHps++; }
    else if (!strncmp(line, "observe ", 8)) { if (nObs == capO) { capO = capO ? capO * 2 : 256; unsigned long long *n = (unsigned long long *)__real_malloc(capO * 8); if (obs) memcpy(n, obs, nObs * 8); obs = n; } obs[nObs++] = strtoull(line + 8, 0, 10); }
  }
  fclose(f); checkObs = !strcmp(kind, "pass");
  return true;
}
int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    int pfd[2]; if (pipe(pfd)) return 3;
    pid_t p = fork();
    if (p == 0) {
      close(pfd[0]); outfd = pfd[1];
      if (!loadFile(argv[i])) { say("badinput", "cannot read file"); _exit(0); }
      for (sx_case_entry *c = sx_cases; c->name; c++) if (!strcmp(c->name, caseName)) { alarm(20); inCase = true; c->fn(); inCase = false; finish(); }
      say("badinput", "no such case"); _exit(0);
    }
    close(pfd[1]);
    char buf[2048]; int n = 0, r; while (n < (int)sizeof buf - 1 && (r = read(pfd[0], buf + n, sizeof buf - 1 - n)) > 0) n += r; buf[n] = 0; close(pfd[0]);
    int st; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGALRM) printf("RESULT\t%s\ttimeout\t20 s\n", argv[i]); else printf("RESULT\t%s\tcrash\tsignal %d\n", argv[i], WTERMSIG(st)); }
    else if (WEXITSTATUS(st) != 0) printf("RESULT\t%s\tcrash\texit %d (sanitizer)\n", argv[i], WEXITSTATUS(st));
    else { buf[strcspn(buf, "\n")] = 0; printf("RESULT\t%s\t%s\n", argv[i], n ? buf : "crash\tno result"); }
    fflush(stdout);
  }
  return 0;
}

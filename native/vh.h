/* Harness support for the executable forms of the contracts (bounded stand-ins and
   the search for failing inputs).  Everything random derives from --seed. */
#ifndef VH_H
#define VH_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdbool.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <math.h>
#include <setjmp.h>
#include <fcntl.h>

static uint64_t vh_s = 88172645463325252ULL;
static inline uint64_t vh_next(void) { /* splitmix64 */
  uint64_t z = (vh_s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
static inline long vh_int(long lo, long hi) { return lo + (long)(vh_next() % (uint64_t)(hi - lo + 1)); }
static inline double vh_unit(void) { return (double)(vh_next() >> 11) / 9007199254740992.0; }
static inline double vh_real(double lo, double hi) { return lo + (hi - lo) * vh_unit(); }

static char vh_desc[1 << 16];
static char vh_fn[256] = "(start)";
static const char *vh_out = NULL, *vh_prop = "?";
static double vh_secs = 10;
static unsigned long vh_evals = 0, vh_distinct = 0;
static uint64_t *vh_set = NULL;
#define VH_SETSZ (1 << 22)
static char vh_samples[6][600];
static int vh_nsamples = 0;
static uint64_t vh_seed0 = 1;
static int vh_tier = 0;
static double vh_t0;
static int vh_stdout = 1;

static double vh_now(void) {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
/* fraction of the time budget used up */
static double vh_frac(void) { return (vh_now() - vh_t0) / vh_secs; }

static void vh_emit(const char *kind, const char *msg) {
  int fd = vh_out ? open(vh_out, O_WRONLY | O_CREAT | O_TRUNC, 0644) : 2;
  char b[2048];
  int n = snprintf(b, sizeof b, "property: %s\nfunction: %s\nkind: %s\nwhat: %s\nseed: %llu tier: %d\ninput:\n", vh_prop, vh_fn, kind, msg,
                   (unsigned long long)vh_seed0, vh_tier);
  if (n > (int)sizeof b) n = sizeof b;
  (void)!write(fd, b, n);
  (void)!write(fd, vh_desc, strlen(vh_desc));
  (void)!write(fd, "\n", 1);
  if (vh_out) close(fd);
}
/* live heap blocks: allocations and releases by the code under test */
static volatile long vh_live = 0; /* volatile: the compiler takes allocation to have no side effects */
extern int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static void vh_mh(const volatile void *p, size_t n) { (void)n; if (p) vh_live++; }
static void vh_fh(const volatile void *p) { if (p) vh_live--; }
static volatile int vh_dead = 0;
static void vh_death(void) {
  if (!vh_dead) { vh_dead = 1; vh_emit("sanitizer", "AddressSanitizer/UndefinedBehaviorSanitizer report (see stderr)"); }
}
extern void __sanitizer_set_death_callback(void (*)(void));
/* calls which are expected to stop the process run between VH_TRY and VH_END */
static sigjmp_buf vh_jb;
static volatile int vh_try = 0, vh_died = 0;
static void vh_sig(int s) {
  if (vh_try && s == SIGABRT) { vh_try = 0; siglongjmp(vh_jb, 1); }
  if (!vh_dead) {
    vh_dead = 1;
    vh_emit("signal", s == SIGABRT ? "assertion failed inside the library (abort)" : s == SIGALRM ? "the call did not return (30 s)" : "signal");
  }
  _exit(3);
}
static void vh_set_fn(const char *fn) { strncpy(vh_fn, fn, sizeof vh_fn - 1); }
static int vh_off = 0;
static void vh_add(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  if (vh_off < (int)sizeof vh_desc - 1) {
    int n = vsnprintf(vh_desc + vh_off, sizeof vh_desc - vh_off, fmt, ap);
    if (n > 0) vh_off += n;
    if (vh_off > (int)sizeof vh_desc - 1) vh_off = sizeof vh_desc - 1;
  }
  va_end(ap);
}
/* start a case: names the function under contract; the description follows by vh_add */
static void vh_case(const char *fn) { alarm(30); vh_set_fn(fn); vh_off = 0; vh_desc[0] = 0; vh_evals++; }
/* the input is complete: count it, nontrivial or not */
static void vh_go(int nontrivial) {
  if (!nontrivial) return;
  uint64_t h = 1469598103934665603ULL;
  for (const char *p = vh_fn; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ULL;
  for (const char *p = vh_desc; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ULL;
  if (!h) h = 1;
  for (uint64_t i = h % VH_SETSZ, k = 0; k < 64; k++, i = (i + 1) % VH_SETSZ) {
    if (vh_set[i] == h) return;
    if (!vh_set[i]) {
      vh_set[i] = h;
      vh_distinct++;
      if (vh_nsamples < 6 && (vh_distinct % 97) == 1) snprintf(vh_samples[vh_nsamples++], 600, "%s: %.500s", vh_fn, vh_desc);
      return;
    }
  }
}
#define VH_FAIL(...)                                                                                                   \
  do {                                                                                                                 \
    char vh_b[1024];                                                                                                   \
    snprintf(vh_b, sizeof vh_b, __VA_ARGS__);                                                                          \
    vh_dead = 1;                                                                                                       \
    vh_emit("contract", vh_b);                                                                                         \
    fprintf(stderr, "FAIL %s: %s\n%s\n", vh_fn, vh_b, vh_desc);                                                        \
    _exit(3);                                                                                                          \
  } while (0)
#define CHECK(c, ...)                                                                                                  \
  do {                                                                                                                 \
    if (!(c)) VH_FAIL(__VA_ARGS__);                                                                                    \
  } while (0)

static void vh_json_str(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; s++) {
    if (*s == '"' || *s == '\\') fputc('\\', f), fputc(*s, f);
    else if ((unsigned char)*s < 32) fprintf(f, "\\u%04x", *s);
    else if ((unsigned char)*s < 127) fputc(*s, f);
  }
  fputc('"', f);
}
static char *vh_stats = NULL;
static int vh_done(void) {
  alarm(0);
  FILE *f = vh_stats ? fopen(vh_stats, "w") : stderr;
  fprintf(f, "{\"evaluations\":%lu,\"distinct_nontrivial\":%lu,\"samples\":[", vh_evals, vh_distinct);
  for (int i = 0; i < vh_nsamples; i++) { if (i) fputc(',', f); vh_json_str(f, vh_samples[i]); }
  fprintf(f, "],\"secs\":%.2f}\n", vh_now() - vh_t0);
  if (vh_stats) fclose(f);
  _exit(0);
}
static void vh_exit(void) { /* the library called exit() */
  if (vh_dead) return;
  vh_dead = 1;
  vh_emit("exit", "the library ended the process");
  _exit(3);
}
static void vh_init(int argc, char **argv) {
  atexit(vh_exit);
  for (int i = 1; i + 1 < argc; i += 2) {
    if (!strcmp(argv[i], "--seed")) vh_seed0 = strtoull(argv[i + 1], 0, 10);
    if (!strcmp(argv[i], "--secs")) vh_secs = atof(argv[i + 1]);
    if (!strcmp(argv[i], "--out")) vh_out = argv[i + 1];
    if (!strcmp(argv[i], "--prop")) vh_prop = argv[i + 1];
    if (!strcmp(argv[i], "--stats")) vh_stats = argv[i + 1];
    if (!strcmp(argv[i], "--tier")) vh_tier = atoi(argv[i + 1]);
  }
  vh_s = vh_seed0 ^ 0x5851F42D4C957F2DULL; /* a different stream for every seed */
  for (int i = 0; i < 3; i++) vh_s = vh_next() ^ (vh_seed0 << 32);
  vh_set = calloc(VH_SETSZ, sizeof *vh_set);
  vh_t0 = vh_now();
  __sanitizer_set_death_callback(vh_death);
  __sanitizer_install_malloc_and_free_hooks(vh_mh, vh_fh);
  struct sigaction sa = {0};
  sa.sa_handler = vh_sig;
  sa.sa_flags = SA_NODEFER;
  sigaction(SIGABRT, &sa, 0);
  sigaction(SIGALRM, &sa, 0);
  sigaction(SIGFPE, &sa, 0);
}
#endif

/* LD_PRELOAD shim: the simulator's seam below libc for the two kinds of
 * environment input that whenever depends on:
 *   - the realtime clock (clock_gettime(CLOCK_REALTIME*), gettimeofday, time)
 *   - reads of tz database files below a configured path prefix
 * Both are passthrough until switched on.  Nothing here draws randomness. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

/* ------------------------------------------------------------- clock -- */
static int clk_on = 0;
static int64_t clk_now = 0;   /* next reading (ns)                          */
static int64_t clk_step = 0;  /* advance applied after every reading        */
#define MAXSCRIPT 64
static int64_t script[MAXSCRIPT]; /* deltas applied before the next readings */
static int script_n = 0, script_i = 0;
#define MAXLOG 4096
static int64_t rlog[MAXLOG];
static int64_t rlog_n = 0;

void sim_clock_enable(int on) { clk_on = on; }
void sim_clock_set(int64_t ns) { clk_now = ns; }
int64_t sim_clock_peek(void) { return clk_now; }
void sim_clock_step(int64_t ns) { clk_step = ns; }
void sim_clock_script(const int64_t *d, int n) {
  if (n > MAXSCRIPT) n = MAXSCRIPT;
  for (int i = 0; i < n; i++) script[i] = d[i];
  script_n = n; script_i = 0;
}
int64_t sim_clock_log_n(void) { return rlog_n; }
int64_t sim_clock_log_at(int64_t i) { return rlog[i % MAXLOG]; }

static int64_t reading(int64_t gran) {
  if (script_i < script_n) clk_now += script[script_i++];
  int64_t r = clk_now;
  if (gran > 1) { int64_t m = r % gran; if (m < 0) m += gran; r -= m; }
  rlog[rlog_n % MAXLOG] = r; rlog_n++;
  clk_now += clk_step;
  return r;
}
static void split(int64_t ns, int64_t *s, int64_t *n) {
  *s = ns / 1000000000; *n = ns % 1000000000;
  if (*n < 0) { *n += 1000000000; *s -= 1; }
}

int clock_gettime(clockid_t id, struct timespec *ts) {
  static int (*real)(clockid_t, struct timespec *);
  if (!clk_on || (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE && id != CLOCK_TAI)) {
    if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
    return real(id, ts);
  }
  int64_t s, n; split(reading(1), &s, &n);
  ts->tv_sec = s; ts->tv_nsec = n;
  return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  static int (*real)(struct timeval *, void *);
  if (!clk_on) {
    if (!real) real = dlsym(RTLD_NEXT, "gettimeofday");
    return real(tv, tz);
  }
  int64_t s, n; split(reading(1000), &s, &n);
  tv->tv_sec = s; tv->tv_usec = n / 1000;
  return 0;
}
time_t time(time_t *t) {
  static time_t (*real)(time_t *);
  if (!clk_on) {
    if (!real) real = dlsym(RTLD_NEXT, "time");
    return real(t);
  }
  int64_t s, n; split(reading(1000000000), &s, &n);
  if (t) *t = s;
  return s;
}

/* ------------------------------------------------------- file faults -- */
static char fs_prefix[512];
static size_t fs_plen = 0;
static unsigned char tracked[1024];
/* counters: opens / reads seen under the prefix */
static int64_t n_open = 0, n_read = 0, n_fired = 0;
/* one armed fault each */
static int open_nth = -1, open_errno = 0;
static int read_nth = -1, read_errno = 0;
static int short_max = 0;      /* >0: every read under the prefix is limited */
static int eof_nth = -1;       /* nth read returns 0 (premature end of file)   */

void sim_fs_prefix(const char *p) {
  strncpy(fs_prefix, p, sizeof fs_prefix - 1); fs_plen = strlen(fs_prefix);
}
void sim_fs_clear(void) { open_nth = read_nth = eof_nth = -1; short_max = 0; }
void sim_fs_open_fault(int nth, int err) { open_nth = nth; open_errno = err; }
void sim_fs_read_fault(int nth, int err) { read_nth = nth; read_errno = err; }
void sim_fs_short(int max) { short_max = max; }
int64_t sim_fs_opens(void) { return n_open; }
int64_t sim_fs_reads(void) { return n_read; }
int64_t sim_fs_fired(void) { return n_fired; }

static int under(const char *path) {
  return fs_plen && path && strncmp(path, fs_prefix, fs_plen) == 0;
}
static int pre_open(const char *path) { /* 0: go on, else errno */
  if (!under(path)) return 0;
  n_open++;
  if (open_nth >= 0 && open_nth-- == 0) { n_fired++; return open_errno; }
  return 0;
}
static int post_open(const char *path, int fd) {
  if (fd >= 0 && fd < 1024) tracked[fd] = under(path);
  return fd;
}
#define MODE(flags, mode) \
  mode_t mode = 0; \
  if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open64(const char *path, int flags, ...) {
  static int (*real)(const char *, int, ...);
  if (!real) real = dlsym(RTLD_NEXT, "open64");
  MODE(flags, mode)
  int e = pre_open(path); if (e) { errno = e; return -1; }
  return post_open(path, real(path, flags, mode));
}
int open(const char *path, int flags, ...) {
  static int (*real)(const char *, int, ...);
  if (!real) real = dlsym(RTLD_NEXT, "open");
  MODE(flags, mode)
  int e = pre_open(path); if (e) { errno = e; return -1; }
  return post_open(path, real(path, flags, mode));
}
int openat64(int dfd, const char *path, int flags, ...) {
  static int (*real)(int, const char *, int, ...);
  if (!real) real = dlsym(RTLD_NEXT, "openat64");
  MODE(flags, mode)
  int e = pre_open(path); if (e) { errno = e; return -1; }
  return post_open(path, real(dfd, path, flags, mode));
}
ssize_t read(int fd, void *buf, size_t n) {
  static ssize_t (*real)(int, void *, size_t);
  if (!real) real = dlsym(RTLD_NEXT, "read");
  if (fd >= 0 && fd < 1024 && tracked[fd]) {
    n_read++;
    if (read_nth >= 0 && read_nth-- == 0) { n_fired++; errno = read_errno; return -1; }
    if (short_max > 0 && n > (size_t)short_max) { n_fired++; n = short_max; }
  }
  return real(fd, buf, n);
}
int close(int fd) {
  static int (*real)(int);
  if (!real) real = dlsym(RTLD_NEXT, "close");
  if (fd >= 0 && fd < 1024) tracked[fd] = 0;
  return real(fd);
}

// LD_PRELOAD library: records, schedules and interrupts the file operations of a process below given directories.
//   VERIF_FSDIR    directories watched (absolute, separated by ':')
//   VERIF_FSLOG    file the operations are appended to, one JSON record per line, or "fd:n"
//   VERIF_FSTAG    number of the process in the records
//   VERIF_FSKILL   the process is killed just before its n-th counted operation (metadata or write)
//   VERIF_FSSCHED  "r,w": before each metadata operation one byte is written to w and one is read from r
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static int log_fd = -1, rfd = -1, wfd = -1, tag;
static long kill_at, count;
static const char *dirs;
static int ready;

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static ssize_t raw_write(int fd, const void *b, size_t n) { REAL(write); return real(fd, b, n); }

static void init(void) {
  if (ready) return;
  ready = 1;
  const char *s = getenv("VERIF_FSLOG");
  static int (*ropen)(const char *, int, ...);
  ropen = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open");
  if (s && !strncmp(s, "fd:", 3)) {
    log_fd = atoi(s + 3);
  } else if (s) {
    int fd = ropen(s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    log_fd = fcntl(fd, F_DUPFD_CLOEXEC, 900);
    static int (*rclose)(int);
    rclose = (int (*)(int))dlsym(RTLD_NEXT, "close");
    rclose(fd);
  }
  dirs = getenv("VERIF_FSDIR");
  if ((s = getenv("VERIF_FSTAG"))) tag = atoi(s);
  if ((s = getenv("VERIF_FSKILL"))) kill_at = atol(s);
  if ((s = getenv("VERIF_FSSCHED"))) sscanf(s, "%d,%d", &rfd, &wfd);
}

// the path relative to the watched directory, with the number of the directory in front, or null
static const char *watched(const char *path, int *which) {
  init();
  if (!dirs || !path) return 0;
  const char *d = dirs;
  for (int k = 0; *d; k++) {
    size_t n = strcspn(d, ":");
    if (!strncmp(path, d, n) && (path[n] == '/' || !path[n])) {
      *which = k;
      return path[n] ? path + n + 1 : ".";
    }
    d += n + (d[n] == ':');
  }
  return 0;
}

static void dying(void) {
  if (kill_at && ++count >= kill_at) kill(getpid(), SIGKILL);
}

static void gate(void) {
  if (rfd >= 0) {
    char b = 'x';
    if (raw_write(wfd, &b, 1) == 1) {
      while (read(rfd, &b, 1) < 0 && errno == EINTR) {
      }
    }
  }
}

static void say(const char *op, int which, const char *f, const char *mode, int ok) {
  if (log_fd < 0) return;
  char buf[1200];
  int n = snprintf(buf, sizeof buf, "{\"p\":%d,\"op\":\"%s\",\"d\":%d,\"f\":\"%s\",\"mode\":\"%s\",\"ok\":%s}\n", tag, op, which, f, mode,
                   ok ? "true" : "false");
  raw_write(log_fd, buf, n);
}

// open files: by descriptor
static struct { char name[300]; int which; int bad; } open_files[1024];
static void track(int fd, const char *f, int which) {
  if (fd >= 0 && fd < 1024) {
    strncpy(open_files[fd].name, f, 299);
    open_files[fd].which = which;
    open_files[fd].bad = 0;
  }
}
static int tracked(int fd) { return fd >= 0 && fd < 1024 && open_files[fd].name[0]; }

#define FOPEN(name)                                              \
  FILE *name(const char *path, const char *mode) {               \
    REAL(name);                                                  \
    int w;                                                       \
    const char *f = watched(path, &w);                           \
    if (!f) return real(path, mode);                             \
    gate();                                                      \
    dying();                                                     \
    FILE *r = real(path, mode);                                  \
    int e = errno;                                               \
    say("open", w, f, mode[0] == 'r' && !strchr(mode, '+') ? "r" : mode[0] == 'a' ? "a" : "w", r != 0); \
    if (r) track(fileno(r), f, w);                               \
    errno = e;                                                   \
    return r;                                                    \
  }
FOPEN(fopen)
FOPEN(fopen64)

static int do_open(int (*real)(const char *, int, ...), const char *path, int flags, mode_t m) {
  int w;
  const char *f = watched(path, &w);
  if (!f || (flags & O_DIRECTORY)) return real(path, flags, m);
  gate();
  dying();
  int r = real(path, flags, m);
  int e = errno;
  say("open", w, f, (flags & O_EXCL) ? "x" : (flags & O_ACCMODE) == O_RDONLY && !(flags & O_CREAT) ? "r" : (flags & O_APPEND) ? "a" : "w", r >= 0);
  if (r >= 0) track(r, f, w);
  errno = e;
  return r;
}
#define OPEN(name)                                     \
  int name(const char *path, int flags, ...) {         \
    REAL(name);                                        \
    va_list ap;                                        \
    va_start(ap, flags);                               \
    mode_t m = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, mode_t) : 0; \
    va_end(ap);                                        \
    return do_open(real, path, flags, m);              \
  }
OPEN(open)
OPEN(open64)

int close(int fd) {
  REAL(close);
  if (!tracked(fd)) return real(fd);
  gate();
  dying();
  int r = real(fd), e = errno;
  say("close", open_files[fd].which, open_files[fd].name, "", r == 0 && !open_files[fd].bad);
  open_files[fd].name[0] = 0;
  errno = e;
  return r;
}

int fclose(FILE *f) {
  REAL(fclose);
  int fd = f ? fileno(f) : -1;
  if (!tracked(fd)) return real(f);
  gate();
  dying();
  int bad = ferror(f) || open_files[fd].bad;
  char name[300];
  strcpy(name, open_files[fd].name);
  int w = open_files[fd].which;
  open_files[fd].name[0] = 0;
  int r = real(f), e = errno;
  say("close", w, name, "", r == 0 && !bad);
  errno = e;
  return r;
}

int rename(const char *a, const char *b) {
  REAL(rename);
  int w, v;
  const char *f = watched(a, &w), *g = watched(b, &v);
  if (!f && !g) return real(a, b);
  gate();
  dying();
  int r = real(a, b), e = errno;
  say("rename", f ? w : v, f ? f : "(outside)", g ? g : "(outside)", r == 0);
  errno = e;
  return r;
}

#define UNARY(name, op)                      \
  int name(const char *path) {               \
    REAL(name);                              \
    int w;                                   \
    const char *f = watched(path, &w);       \
    if (!f) return real(path);               \
    gate();                                  \
    dying();                                 \
    int r = real(path), e = errno;           \
    say(op, w, f, "", r == 0);               \
    errno = e;                               \
    return r;                                \
  }
UNARY(remove, "unlink")
UNARY(unlink, "unlink")

int unlinkat(int d, const char *path, int flags) {
  REAL(unlinkat);
  int w;
  const char *f = watched(path, &w);
  if (!f) return real(d, path, flags);
  gate();
  dying();
  int r = real(d, path, flags), e = errno;
  say("unlink", w, f, "", r == 0);
  errno = e;
  return r;
}

int mkdir(const char *path, mode_t m) {
  REAL(mkdir);
  int w;
  const char *f = watched(path, &w);
  if (!f) return real(path, m);
  gate();
  dying();
  int r = real(path, m), e = errno;
  say("mkdir", w, f, "", r == 0);
  errno = e;
  return r;
}

int truncate(const char *path, off_t n) {
  REAL(truncate);
  int w;
  const char *f = watched(path, &w);
  int r = real(path, n);
  if (f) say("open", w, f, "w", r == 0);
  return r;
}

#define STAT(name, type)                       \
  int name(const char *path, struct type *s) { \
    REAL(name);                                \
    int w;                                     \
    const char *f = watched(path, &w);         \
    if (!f || !strcmp(f, ".")) return real(path, s); \
    gate();                                    \
    int r = real(path, s), e = errno;          \
    say("stat", w, f, "", r == 0);             \
    errno = e;                                 \
    return r;                                  \
  }
STAT(stat, stat)
STAT(stat64, stat64)

// writing: only points at which the process can be killed
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
  REAL(fwrite);
  if (f && tracked(fileno(f))) dying();
  return real(b, s, n, f);
}
int fputs(const char *b, FILE *f) {
  REAL(fputs);
  if (f && tracked(fileno(f))) dying();
  return real(b, f);
}
int fflush(FILE *f) {
  REAL(fflush);
  if (f && tracked(fileno(f))) dying();
  return real(f);
}
int fprintf(FILE *f, const char *fmt, ...) {
  if (f && tracked(fileno(f))) dying();
  va_list ap;
  va_start(ap, fmt);
  int r = vfprintf(f, fmt, ap);
  va_end(ap);
  return r;
}
int __fprintf_chk(FILE *f, int flag, const char *fmt, ...) {
  (void)flag;
  if (f && tracked(fileno(f))) dying();
  va_list ap;
  va_start(ap, fmt);
  int r = vfprintf(f, fmt, ap);
  va_end(ap);
  return r;
}
ssize_t write(int fd, const void *b, size_t n) {
  REAL(write);
  if (tracked(fd)) dying();
  ssize_t r = real(fd, b, n);
  if (r < (ssize_t)n && tracked(fd)) open_files[fd].bad = 1;
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  REAL(writev);
  if (tracked(fd)) dying();
  ssize_t r = real(fd, v, n);
  if (r < 0 && tracked(fd)) open_files[fd].bad = 1;
  return r;
}

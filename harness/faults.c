// LD_PRELOAD shim: counts and logs the calls that touch files below
// $VF_FAULT_DIR (or stdout with VF_FAULT_STDOUT) and makes call number
// $VF_FAULT_AT misbehave as told by $VF_FAULT_ACT:
//   kill | killafter | term | int | short | one | e<errno> | E<errno> (this and all later ones)
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

static int tracked[4096];
static int counter, at = -1;
static const char *dir, *act;

static void init(void) {
  if (at >= 0)
    return;
  at = 0;
  dir = getenv("VF_FAULT_DIR");
  act = getenv("VF_FAULT_ACT");
  if (getenv("VF_FAULT_STDOUT"))
    tracked[1] = 1;
  if (getenv("VF_FAULT_AT"))
    at = atoi(getenv("VF_FAULT_AT"));
}

static int relevant(const char *path) {
  init();
  return dir && path && !strncmp(path, dir, strlen(dir));
}

static void note(const char *what, const char *detail, long n) {
  const char *log = getenv("VF_FAULT_LOG");
  if (!log)
    return;
  char buf[PATH_MAX + 100];
  int len = snprintf(buf, sizeof buf, "%d %s %s %ld\n", counter, what, detail, n);
  int fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
  if (fd >= 0) {
    syscall(SYS_write, fd, buf, len);
    syscall(SYS_close, fd);
  }
}

static void die(int sig) {
  if (sig == SIGKILL) {
    kill(getpid(), SIGKILL);
    for (;;)
      pause();
  }
  raise(sig);
}

// 0: proceed, > 0: errno to fail with, -1: short write, -2: kill afterwards, -3: one byte
static int event(const char *what, const char *detail, long n) {
  ++counter;
  note(what, detail, n);
  if (!at || !act)
    return 0;
  if (*act == 'E' && counter >= at)
    return atoi(act + 1);
  if (counter != at)
    return 0;
  if (!strcmp(act, "kill"))
    die(SIGKILL);
  if (!strcmp(act, "term"))
    die(SIGTERM);
  if (!strcmp(act, "int"))
    die(SIGINT);
  if (!strcmp(act, "killafter"))
    return -2;
  if (!strcmp(act, "short"))
    return -1;
  if (!strcmp(act, "one"))
    return -3;
  if (*act == 'e')
    return atoi(act + 1);
  return 0;
}

#define FINISH(e, r)                                                           \
  do {                                                                         \
    if ((e) == -2)                                                             \
      die(SIGKILL);                                                            \
    return r;                                                                  \
  } while (0)
#define FAIL(e)                                                                \
  if ((e) > 0) {                                                               \
    errno = (e);                                                               \
    return -1;                                                                 \
  }

static int do_open(int at_fd, const char *path, int flags, mode_t mode) {
  int rel = relevant(path) && (flags & O_ACCMODE) != O_RDONLY;
  int e = 0;
  if (rel) {
    e = event("open", path, flags);
    FAIL(e);
  }
  int fd = syscall(SYS_openat, at_fd, path, flags, mode);
  if (fd >= 0 && fd < 4096)
    tracked[fd] = rel;
  FINISH(e, fd);
}

int open(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t mode = va_arg(ap, int);
  va_end(ap);
  return do_open(AT_FDCWD, path, flags, mode);
}
int open64(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t mode = va_arg(ap, int);
  va_end(ap);
  return do_open(AT_FDCWD, path, flags, mode);
}
int openat(int dfd, const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t mode = va_arg(ap, int);
  va_end(ap);
  return do_open(dfd, path, flags, mode);
}
int creat(const char *path, mode_t mode) {
  return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode);
}

ssize_t write(int fd, const void *buf, size_t n) {
  init();
  int e = 0;
  if (fd >= 0 && fd < 4096 && tracked[fd]) {
    e = event("write", "", n);
    FAIL(e);
    if (e == -1 && n > 1)
      n /= 2;
    if (e == -3 && n > 1)
      n = 1;
  }
  ssize_t r = syscall(SYS_write, fd, buf, n);
  FINISH(e, r);
}

int close(int fd) {
  init();
  int e = 0;
  if (fd >= 0 && fd < 4096 && tracked[fd] && fd != 1) {
    e = event("close", "", fd);
    tracked[fd] = 0;
    if (e > 0) {
      syscall(SYS_close, fd);
      errno = e;
      return -1;
    }
  }
  int r = syscall(SYS_close, fd);
  FINISH(e, r);
}

int rename(const char *a, const char *b) {
  int e = 0;
  if (relevant(a) || relevant(b)) {
    e = event("rename", b, 0);
    FAIL(e);
  }
  int r = syscall(SYS_rename, a, b);
  FINISH(e, r);
}
int link(const char *a, const char *b) {
  int e = 0;
  if (relevant(a) || relevant(b)) {
    e = event("link", b, 0);
    FAIL(e);
  }
  int r = syscall(SYS_link, a, b);
  FINISH(e, r);
}
static int do_unlink(const char *what, const char *path, int flags) {
  int e = 0;
  if (relevant(path)) {
    e = event(what, path, 0);
    FAIL(e);
  }
  int r = syscall(SYS_unlinkat, AT_FDCWD, path, flags);
  FINISH(e, r);
}
int unlink(const char *path) { return do_unlink("unlink", path, 0); }
int remove(const char *path) { return do_unlink("remove", path, 0); }
int rmdir(const char *path) { return do_unlink("rmdir", path, AT_REMOVEDIR); }
int ftruncate(int fd, off_t len) {
  init();
  int e = 0;
  if (fd >= 0 && fd < 4096 && tracked[fd]) {
    e = event("ftruncate", "", len);
    FAIL(e);
  }
  int r = syscall(SYS_ftruncate, fd, len);
  FINISH(e, r);
}
int fsync(int fd) {
  init();
  int e = 0;
  if (fd >= 0 && fd < 4096 && tracked[fd]) {
    e = event("fsync", "", fd);
    FAIL(e);
  }
  int r = syscall(SYS_fsync, fd);
  FINISH(e, r);
}
int chmod(const char *path, mode_t mode) {
  int e = 0;
  if (relevant(path)) {
    e = event("chmod", path, mode);
    FAIL(e);
  }
  int r = syscall(SYS_chmod, path, mode);
  FINISH(e, r);
}
int fchmod(int fd, mode_t mode) {
  init();
  int e = 0;
  if (fd >= 0 && fd < 4096 && tracked[fd]) {
    e = event("fchmod", "", mode);
    FAIL(e);
  }
  int r = syscall(SYS_fchmod, fd, mode);
  FINISH(e, r);
}

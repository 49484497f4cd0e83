// px.c -- the seam between the real procstar program and the explorer.
//
// Linked into an otherwise unmodified build of procstar.  It overrides libc
// symbols by which the program meets its environment: the event loop's wait
// (epoll_wait), clocks, randomness, sockets, fork/exec/wait/kill, opens.  Every
// one of them is decided by the controller (ctl), over a SEQPACKET socket.  It
// is inert unless PX_SERVER is in the environment.
//
// When PX_SERVER is set, a constructor runs a fork server: each execution is a
// forked copy that goes on into the ordinary main().
//
// Child processes of procstar are real forks, running the real pre-exec code
// on real fds, up to execve(), where they report everything that exec would
// have been given and become "puppets" obeying the controller.
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <pwd.h>
#include <grp.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/epoll.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define RES_FD 5960      // fds from here on are ours
#define SRV_FD 5990
#define CTL_FD 5991
#define MAXMSG 65000

typedef struct { uint32_t type; int32_t a, b, c; int64_t d, e; } Hdr;

// Messages to the controller.
enum {
  M_HELLO = 1, M_QUIESCE, M_FORKASK, M_FORKED, M_EXEC, M_POINT, M_BADKILL, M_KILL,
  M_CONNECT, M_LISTEN, M_OPENDENIED, M_REAPED, M_ESCAPE, M_ACK, M_DATA, M_BADCLOSE,
  M_MKSTEMP, M_EXITED, M_CLEANED, M_OPENFILE, M_SELECT, M_UNLINK, M_RET, M_NOTE,
  M_CLOCK,
};
// Commands from the controller.
enum {
  C_RET = 100, C_RAISE, C_CHLD, C_WAITZ, C_TIME, C_FDS, C_MASK, C_KILL, C_GO,
  // puppet
  P_WRITE = 150, P_READ, P_CLOSE, P_EXIT, P_RAISE, P_IGNORE, P_FORK, P_STAT, P_BLOCKWRITE, P_DUPCHK,
  // server
  S_RUN = 200, S_CLEAN,
};
// Points (bit numbers in the mask) at which the controller is asked.
enum {
  K_WAIT = 0, K_PIPE, K_FORK, K_MKSTEMP, K_READ, K_WRITE, K_DUP2, K_SETSID, K_ACCEPT,
  K_OPEN, K_CLOSE, K_EXECVE, K_FCNTL, K_PROC, K_KILL, K_SELECT, K_EPOLL, K_LSEEK, K_CLOCK, K_SEND, K_CHILD = 31,
};

static int px_on = 0;         // in an execution (not the server, not build time)
static int px_child = 0;      // forked child of procstar, before exec
static int px_ctl = -1;
static pid_t px_main = 0;
static uint32_t px_mask = 0;
static int64_t px_mono = 0, px_wall = 0;   // ns
static uint64_t px_rng = 0x9E3779B97F4A7C15ull;
static char px_scratch[256];
static int px_scratch_len = 0;
static pid_t px_kids[4096];
static int px_nkids = 0;
static sigset_t px_chld;

static unsigned char px_inet[6000];   // fd is a socket of ours: 1 plain, 2 listening, 3 connected
static uint16_t px_port[6000];

static long raw_close(int fd) { return syscall(SYS_close, fd); }

static void px_die(const char *m) {
  dprintf(2, "px: %s errno=%d\n", m, errno);
  syscall(SYS_exit_group, 97);
}

static int px_send(int s, const Hdr *h, const void *p, size_t n, int passfd) {
  struct iovec v[2] = {{(void *)h, sizeof *h}, {(void *)p, n}};
  struct msghdr m; memset(&m, 0, sizeof m);
  m.msg_iov = v; m.msg_iovlen = p ? 2 : 1;
  char cb[CMSG_SPACE(sizeof(int))];
  if (passfd >= 0) {
    memset(cb, 0, sizeof cb);
    m.msg_control = cb; m.msg_controllen = sizeof cb;
    struct cmsghdr *c = CMSG_FIRSTHDR(&m);
    c->cmsg_level = SOL_SOCKET; c->cmsg_type = SCM_RIGHTS; c->cmsg_len = CMSG_LEN(sizeof(int));
    memcpy(CMSG_DATA(c), &passfd, sizeof(int));
  }
  long r;
  do r = syscall(SYS_sendmsg, s, &m, MSG_NOSIGNAL); while (r < 0 && errno == EINTR);
  return r;
}

static ssize_t px_recv(int s, Hdr *h, void *p, size_t n, int *passfd) {
  struct iovec v[2] = {{h, sizeof *h}, {p, n}};
  struct msghdr m; memset(&m, 0, sizeof m);
  m.msg_iov = v; m.msg_iovlen = p ? 2 : 1;
  char cb[CMSG_SPACE(sizeof(int))];
  if (passfd) { *passfd = -1; m.msg_control = cb; m.msg_controllen = sizeof cb; }
  long r;
  do r = syscall(SYS_recvmsg, s, &m, MSG_CMSG_CLOEXEC); while (r < 0 && errno == EINTR);
  if (r < (long)sizeof *h) return -1;
  if (passfd) {
    struct cmsghdr *c = CMSG_FIRSTHDR(&m);
    if (c && c->cmsg_type == SCM_RIGHTS) memcpy(passfd, CMSG_DATA(c), sizeof(int));
  }
  return r - sizeof *h;
}

// List this process's fds, other than the harness's own.
static size_t px_fds(char *out, size_t max) {
  size_t n = 0;
  int d = syscall(SYS_openat, AT_FDCWD, "/proc/self/fd", O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
  if (d < 0) px_die("proc self fd");
  char buf[8192]; long r;
  while ((r = syscall(SYS_getdents64, d, buf, sizeof buf)) > 0) {
    for (long o = 0; o < r;) {
      struct { uint64_t ino; int64_t off; unsigned short len; unsigned char type; char name[]; } *e = (void *)(buf + o);
      o += e->len;
      if (e->name[0] == '.') continue;
      int fd = atoi(e->name);
      if (fd == d || fd >= RES_FD) continue;
      struct stat st; if (fstat(fd, &st) < 0) continue;
      int fl = syscall(SYS_fcntl, fd, F_GETFL), cl = syscall(SYS_fcntl, fd, F_GETFD);
      int64_t off = syscall(SYS_lseek, fd, 0, SEEK_CUR);
      n += snprintf(out + n, max - n, "%d %lu %lu %o %lu %d %d %ld %ld\n", fd, (unsigned long)st.st_dev,
                    (unsigned long)st.st_ino, st.st_mode, (unsigned long)st.st_rdev, fl, cl & FD_CLOEXEC, (long)off, (long)st.st_size);
      if (n > max - 200) goto done;
    }
  }
done:
  raw_close(d);
  return n;
}

static void do_waitz(pid_t pid) {
  siginfo_t si;
  long r;
  do r = syscall(SYS_waitid, P_PID, pid, &si, WEXITED | WNOWAIT, NULL); while (r < 0 && errno == EINTR);
}

static char px_buf[MAXMSG + 16];

// Ask the controller; obey commands until it returns.  The payload of the
// final answer is left in px_buf, its length in *plen.
static Hdr px_ask(uint32_t type, int a, int b, int c, int64_t d, const void *p, size_t n, int passfd, size_t *plen, int *gotfd) {
  Hdr h = {type, a, b, c, d, 0};
  if (px_send(px_ctl, &h, p, n, passfd) < 0) syscall(SYS_exit_group, 98);
  for (;;) {
    Hdr r;
    ssize_t k = px_recv(px_ctl, &r, px_buf, MAXMSG, gotfd);
    if (k < 0) syscall(SYS_exit_group, 98);
    px_buf[k] = 0;
    switch (r.type) {
    case C_RET: if (plen) *plen = k; return r;
    case C_RAISE: syscall(SYS_tgkill, px_main, (pid_t)syscall(SYS_gettid), r.a); break;
    case C_CHLD: sigprocmask(SIG_UNBLOCK, &px_chld, NULL); sigprocmask(SIG_BLOCK, &px_chld, NULL); break;
    case C_WAITZ: do_waitz(r.a); break;
    case C_KILL: { long x = syscall(SYS_kill, r.a, r.b); Hdr q = {M_RET, (int)x, x < 0 ? errno : 0, 0, 0, 0}; px_send(px_ctl, &q, NULL, 0, -1); } break;
    case C_TIME: px_mono += r.d; px_wall += r.e; break;
    case C_FDS: { static char fb[MAXMSG]; size_t m = px_fds(fb, sizeof fb); Hdr q = {M_DATA, 0, 0, 0, 0, 0}; px_send(px_ctl, &q, fb, m, -1); } break;
    case C_MASK: px_mask = r.a; break;
    default: px_die("bad command");
    }
  }
}

// One-way note.
static void px_note(uint32_t type, int a, int b, const void *p, size_t n) {
  Hdr h = {type, a, b, 0, 0, 0};
  px_send(px_ctl, &h, p, n, -1);
}

static int px_point_b = 0;
// A point at which the controller may inject an event or a fault.  True if the
// call is to fail, with errno set.
static int px_point(int kind, int arg) {
  if (!px_on || !(px_mask & (1u << kind))) return 0;
  if (px_child && !(px_mask & (1u << K_CHILD))) return 0;
  if (!px_child && (pid_t)syscall(SYS_gettid) != px_main) return 0;
  Hdr r = px_ask(M_POINT, kind, arg, px_child, 0, NULL, 0, -1, NULL, NULL);
  px_point_b = r.b;
  if (r.a) { errno = r.a; return 1; }
  return 0;
}

#define REAL(ret, name, ...) \
  static ret (*real)(__VA_ARGS__); \
  if (!real) real = dlsym(RTLD_NEXT, #name);

//------------------------------------------------------------------------------
// puppet

static void puppet(void) {
  static char buf[MAXMSG];
  Hdr h;
  for (;;) {
    int pfd;
    ssize_t k = px_recv(px_ctl, &h, buf, sizeof buf, &pfd);
    if (k < 0) syscall(SYS_exit_group, 96);
    Hdr q = {M_ACK, 0, 0, 0, 0, 0};
    switch (h.type) {
    case P_WRITE: {   // nonblocking write of the payload (repeated b times) to fd a
      struct pollfd pf = {h.a, POLLOUT, 0};
      // Nonblocking behaviour without touching the shared file status flags.
      long tot = 0; int err = 0;
      for (int i = 0; i < (h.b ? h.b : 1); ++i) {
        ssize_t o = 0;
        while (o < k) {
          size_t chunk = k - o > 4096 ? 4096 : k - o;
          struct stat st;
          if (fstat(h.a, &st) == 0 && (S_ISFIFO(st.st_mode) || S_ISSOCK(st.st_mode))) {
            int pr = poll(&pf, 1, 0);
            if (pr == 0) { err = EAGAIN; break; }
          }
          long r = syscall(SYS_write, h.a, buf + o, chunk);
          if (r < 0) { err = errno; break; }
          o += r; tot += r;
        }
        if (err) break;
      }
      q.a = tot; q.b = err; px_send(px_ctl, &q, NULL, 0, -1);
    } break;
    case P_READ: {
      struct pollfd pf = {h.a, POLLIN, 0};
      int pr = poll(&pf, 1, 0);
      if (pr == 0) { q.a = -1; q.b = EAGAIN; px_send(px_ctl, &q, NULL, 0, -1); }
      else {
        size_t want = (size_t)h.b < sizeof buf ? (size_t)h.b : sizeof buf;
        long r = syscall(SYS_read, h.a, buf, want);
        q.a = r; q.b = r < 0 ? errno : 0;
        px_send(px_ctl, &q, buf, r > 0 ? r : 0, -1);
      }
    } break;
    case P_CLOSE: q.a = raw_close(h.a); q.b = q.a < 0 ? errno : 0; px_send(px_ctl, &q, NULL, 0, -1); break;
    case P_EXIT: syscall(SYS_exit_group, h.a); break;
    case P_RAISE: {
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      signal(h.a, SIG_DFL);
      sigset_t s; sigemptyset(&s); sigaddset(&s, h.a); sigprocmask(SIG_UNBLOCK, &s, NULL);
      syscall(SYS_kill, syscall(SYS_getpid), h.a);
      q.a = -1; px_send(px_ctl, &q, NULL, 0, -1);   // survived (e.g. ignored by default)
    } break;
    case P_IGNORE: signal(h.a, h.b ? SIG_DFL : SIG_IGN); px_send(px_ctl, &q, NULL, 0, -1); break;
    case P_STAT: { size_t n = px_fds(buf, sizeof buf); q.type = M_DATA; px_send(px_ctl, &q, buf, n, -1); } break;
    case P_FORK: {   // a grandchild sharing all fds, with its own channel
      long r = syscall(SYS_fork);
      if (r == 0) {
        syscall(SYS_dup3, pfd, px_ctl, O_CLOEXEC); raw_close(pfd); px_main = syscall(SYS_getpid);
        break;
      }
      raw_close(pfd);
      q.a = r; px_send(px_ctl, &q, NULL, 0, -1);
    } break;
    default: px_die("bad puppet command");
    }
    if (pfd >= 0 && h.type != P_FORK) raw_close(pfd);
  }
}

//------------------------------------------------------------------------------
// server

static void __attribute__((constructor)) px_init(void) {
  if (!getenv("PX_SERVER")) return;
  const char *sc = getenv("PX_SCRATCH");
  if (!sc) px_die("no PX_SCRATCH");
  snprintf(px_scratch, sizeof px_scratch, "%s", sc);
  px_scratch_len = strlen(px_scratch);
  unsetenv("PX_SERVER"); unsetenv("PX_SCRATCH");
  sigemptyset(&px_chld); sigaddset(&px_chld, SIGCHLD);
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct rlimit rl = {6000, 6000}; setrlimit(RLIMIT_NOFILE, &rl);
  struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
  for (;;) {
    Hdr h; int fd = -1; static char b[4096];
    if (px_recv(SRV_FD, &h, b, sizeof b, &fd) < 0) syscall(SYS_exit_group, 0);
    if (h.type == S_CLEAN) {
      // End and reap whatever the execution left.
      int n = 0;
      for (int it = 0; it < 100; ++it) {
        char cb[4096]; int f = syscall(SYS_openat, AT_FDCWD, "/proc/thread-self/children", O_RDONLY, 0);
        long r = f >= 0 ? syscall(SYS_read, f, cb, sizeof cb - 1) : 0; if (f >= 0) raw_close(f);
        if (r > 0) { cb[r] = 0; for (char *p = strtok(cb, " "); p; p = strtok(NULL, " ")) syscall(SYS_kill, atoi(p), SIGKILL); }
        int st; pid_t p; int any = 0;
        while ((p = syscall(SYS_wait4, -1, &st, __WALL, NULL)) > 0) { ++n; any = 1; }
        if (p < 0 && errno == ECHILD && !any) break;
      }
      Hdr q = {M_CLEANED, n, 0, 0, 0, 0}; px_send(SRV_FD, &q, NULL, 0, -1);
      continue;
    }
    if (h.type != S_RUN || fd < 0) px_die("bad server command");
    px_mask = h.a; px_mono = h.d; px_wall = h.e;
    pid_t me = syscall(SYS_fork);
    if (me == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      syscall(SYS_dup3, fd, CTL_FD, O_CLOEXEC); raw_close(fd); raw_close(SRV_FD);
      px_ctl = CTL_FD; px_main = syscall(SYS_getpid); px_on = 1;
      sigprocmask(SIG_BLOCK, &px_chld, NULL);
      return;   // into main()
    }
    raw_close(fd);
    int st = 0; pid_t p;
    do p = syscall(SYS_wait4, me, &st, 0, NULL); while (p < 0 && errno == EINTR);
    Hdr q = {M_EXITED, st, me, 0, 0, 0}; px_send(SRV_FD, &q, NULL, 0, -1);
  }
}

//------------------------------------------------------------------------------
// event loop, clocks, randomness

static int px_threads(void) {
  struct stat st;
  return stat("/proc/self/task", &st) == 0 ? (int)st.st_nlink - 2 : 1;
}

static int px_epoll(int epfd, struct epoll_event *ev, int max, int timeout) {
  if (!px_child) px_point(K_EPOLL, timeout);
  long r = syscall(SYS_epoll_wait, epfd, ev, max, 0);
  if (r != 0 || timeout == 0) return r;
  if (px_child) { px_note(M_ESCAPE, 0, 0, NULL, 0); syscall(SYS_exit_group, 95); }
  if ((pid_t)syscall(SYS_gettid) != px_main) return syscall(SYS_epoll_wait, epfd, ev, max, timeout);
  for (;;) {
    // Another thread may yet wake us; give it the chance.
    for (int i = 0; i < 50 && px_threads() > 1; ++i) {
      r = syscall(SYS_epoll_wait, epfd, ev, max, 2);
      if (r != 0) return r;
    }
    Hdr h = px_ask(M_QUIESCE, timeout, 0, 0, px_mono, NULL, 0, -1, NULL, NULL);
    r = syscall(SYS_epoll_wait, epfd, ev, max, 0);
    if (r != 0) return r;
    if (h.b) return 0;   // told that the timeout expired
  }
}
int epoll_wait(int epfd, struct epoll_event *ev, int max, int timeout) {
  if (!px_on) return syscall(SYS_epoll_wait, epfd, ev, max, timeout);
  return px_epoll(epfd, ev, max, timeout);
}
int epoll_pwait(int epfd, struct epoll_event *ev, int max, int timeout, const sigset_t *s) {
  if (!px_on) return syscall(SYS_epoll_pwait, epfd, ev, max, timeout, s, 8);
  return px_epoll(epfd, ev, max, timeout);
}

int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!px_on) return syscall(SYS_clock_gettime, id, ts);
  int64_t t;
  if (!px_child && (px_mask & (1u << K_CLOCK)) && (id == CLOCK_MONOTONIC || id == CLOCK_REALTIME)) px_point(K_CLOCK, id);
  switch (id) {
  case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_MONOTONIC_COARSE: case CLOCK_BOOTTIME: t = px_mono; break;
  case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: t = px_wall; break;
  default: return syscall(SYS_clock_gettime, id, ts);
  }
  ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  if (!px_on) return syscall(SYS_gettimeofday, tv, tz);
  tv->tv_sec = px_wall / 1000000000; tv->tv_usec = px_wall % 1000000000 / 1000;
  return 0;
}
time_t time(time_t *p) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  if (p) *p = ts.tv_sec;
  return ts.tv_sec;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (!px_on) return syscall(SYS_nanosleep, a, b);
  int64_t n = a->tv_sec * 1000000000ll + a->tv_nsec;
  px_mono += n; px_wall += n;
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  if (!px_on) return syscall(SYS_clock_nanosleep, c, fl, a, b) < 0 ? errno : 0;
  if (fl == 0) return nanosleep(a, b);
  return 0;
}
unsigned sleep(unsigned s) { struct timespec t = {s, 0}; nanosleep(&t, NULL); return 0; }
int usleep(useconds_t u) { struct timespec t = {u / 1000000, u % 1000000 * 1000}; return nanosleep(&t, NULL); }

ssize_t getrandom(void *p, size_t n, unsigned fl) {
  if (!px_on) return syscall(SYS_getrandom, p, n, fl);
  unsigned char *q = p;
  for (size_t i = 0; i < n; ++i) {
    px_rng ^= px_rng << 13; px_rng ^= px_rng >> 7; px_rng ^= px_rng << 17;
    q[i] = px_rng >> 24;
  }
  return n;
}
int getentropy(void *p, size_t n) { getrandom(p, n, 0); return 0; }

// Called by the patched tokio for the first branch that a select! polls.
uint32_t px_select(uint32_t n, uint32_t dflt) {
  if (!px_on) return dflt;
  if (px_child) return 0;
  if (!(px_mask & (1u << K_SELECT)) || (pid_t)syscall(SYS_gettid) != px_main) return 0;
  Hdr r = px_ask(M_SELECT, n, 0, 0, 0, NULL, 0, -1, NULL, NULL);
  return (uint32_t)r.a % n;
}

//------------------------------------------------------------------------------
// processes

pid_t fork(void) {
  REAL(pid_t, fork, void)
  if (!px_on || px_child) return real();
  if (px_point(K_FORK, 0)) return -1;
  int sv[2];
  if (syscall(SYS_socketpair, AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0, sv) < 0) px_die("socketpair");
  int mine = syscall(SYS_fcntl, sv[0], F_DUPFD_CLOEXEC, RES_FD + 1), kids = syscall(SYS_fcntl, sv[1], F_DUPFD_CLOEXEC, RES_FD + 1);
  raw_close(sv[0]); raw_close(sv[1]);
  if (mine < 0 || kids < 0) px_die("dupfd");
  pid_t pid = real();
  if (pid == 0) {
    px_child = 1;
    raw_close(mine); raw_close(px_ctl);
    px_ctl = kids; px_main = syscall(SYS_getpid);
    Hdr r = px_ask(M_HELLO, px_main, 0, 0, 0, NULL, 0, -1, NULL, NULL);   // until told to go
    (void)r;
    return 0;
  }
  raw_close(kids);
  if (pid < 0) { raw_close(mine); return pid; }
  if (px_nkids < 4096) px_kids[px_nkids++] = pid;
  px_ask(M_FORKED, pid, 0, 0, 0, NULL, 0, mine, NULL, NULL);
  raw_close(mine);
  return pid;
}
pid_t vfork(void) { return fork(); }

static size_t put_str(char *b, size_t n, size_t max, const char *s) {
  size_t l = strlen(s);
  if (n + l + 4 > max) l = 0;
  uint32_t k = l; memcpy(b + n, &k, 4); memcpy(b + n + 4, s, l);
  return n + 4 + l;
}

static int do_exec(const char *exe, char *const argv[], char *const envp[]) {
  if (!px_on) return syscall(SYS_execve, exe, argv, envp);
  if (!px_child) { errno = ENOSYS; return -1; }   // the program itself never execs
  if (px_point(K_EXECVE, 0)) return -1;
  static char sb[MAXMSG];
  char *b = sb;
  size_t n = 0, max = sizeof sb, need = strlen(exe) + 40000;
  for (int i = 0; argv && argv[i]; ++i) need += strlen(argv[i]) + 4;
  for (int i = 0; envp && envp[i]; ++i) need += strlen(envp[i]) + 4;
  if (need > max) {
    b = mmap(NULL, need, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); max = need;
    if (b == MAP_FAILED) px_die("mmap");
  }
  n = put_str(b, n, max, exe);
  uint32_t c = 0; while (argv && argv[c]) ++c;
  memcpy(b + n, &c, 4); n += 4;
  for (uint32_t i = 0; i < c; ++i) n = put_str(b, n, max, argv[i]);
  c = 0; while (envp && envp[c]) ++c;
  memcpy(b + n, &c, 4); n += 4;
  for (uint32_t i = 0; i < c; ++i) n = put_str(b, n, max, envp[i]);
  char fb[16000]; size_t fn = px_fds(fb, sizeof fb - 1); fb[fn] = 0;
  n = put_str(b, n, max, fb);
  // Signal state: ignored, blocked.
  uint64_t ign = 0, blk = 0;
  for (int s = 1; s <= 64; ++s) {
    struct sigaction sa;
    if (s == 32 || s == 33) continue;
    if (sigaction(s, NULL, &sa) == 0 && sa.sa_handler == SIG_IGN) ign |= 1ull << (s - 1);
  }
  sigset_t ss; sigprocmask(SIG_BLOCK, NULL, &ss); memcpy(&blk, &ss, 8);
  blk &= ~(1ull << (SIGCHLD - 1));
  char tb[512], cwd[256] = "?"; syscall(SYS_getcwd, cwd, sizeof cwd);
  mode_t um = umask(0); umask(um);
  int xerr = 0;   // what the kernel would say about the file
  struct stat st;
  if (stat(exe, &st) < 0) xerr = errno;
  else if (!S_ISREG(st.st_mode)) xerr = EACCES;
  else if (syscall(SYS_faccessat, AT_FDCWD, exe, X_OK) < 0) xerr = errno;
  snprintf(tb, sizeof tb, "%lu %lu %d %d %d %o %d %s", (unsigned long)ign, (unsigned long)blk, (int)syscall(SYS_getsid, 0),
           (int)getpgrp(), (int)syscall(SYS_getpid), um, xerr, cwd);
  n = put_str(b, n, max, tb);
  size_t pl = 0;
  Hdr r;
  if (b == sb) r = px_ask(M_EXEC, 0, 0, 0, 0, b, n, -1, &pl, NULL);
  else {   // too long for a message
    int mf = syscall(SYS_memfd_create, "exec", 1u);
    for (size_t o = 0; o < n; ) { long w = syscall(SYS_write, mf, b + o, n - o); if (w <= 0) px_die("memfd"); o += w; }
    r = px_ask(M_EXEC, 0, 0, 0, 0, NULL, 0, mf, &pl, NULL);
    raw_close(mf);
    munmap(b, max);
  }
  if (r.a) { errno = r.a; return -1; }
  if (pl) prctl(PR_SET_NAME, px_buf);
  // What exec does: close-on-exec fds, caught signals.
  char list[16000]; size_t ln = px_fds(list, sizeof list - 1); list[ln] = 0;
  char *sp = NULL;
  for (char *l = strtok_r(list, "\n", &sp); l; l = strtok_r(NULL, "\n", &sp)) {
    int fd, fl, cl; unsigned long dv, ino, rd; unsigned md;
    if (sscanf(l, "%d %lu %lu %o %lu %d %d", &fd, &dv, &ino, &md, &rd, &fl, &cl) == 7 && cl) raw_close(fd);
  }
  for (int s = 1; s <= 64; ++s) {
    struct sigaction sa;
    if (s == 32 || s == 33) continue;
    if (sigaction(s, NULL, &sa) == 0 && sa.sa_handler != SIG_IGN && sa.sa_handler != SIG_DFL) signal(s, SIG_DFL);
  }
  sigprocmask(SIG_UNBLOCK, &px_chld, NULL);
  signal(SIGPIPE, SIG_IGN);   // the puppet itself must outlive a broken pipe
  Hdr q = {M_ACK, 0, 0, 0, 0, 0}; px_send(px_ctl, &q, NULL, 0, -1);
  puppet();
  return -1;
}
int execve(const char *e, char *const a[], char *const v[]) { return do_exec(e, a, v); }
int execv(const char *e, char *const a[]) { extern char **environ; return do_exec(e, a, environ); }
int execvp(const char *e, char *const a[]) { extern char **environ; return do_exec(e, a, environ); }
int execvpe(const char *e, char *const a[], char *const v[]) { return do_exec(e, a, v); }

static int kid_index(pid_t pid) {
  for (int i = 0; i < px_nkids; ++i) if (px_kids[i] == pid) return i;
  return -1;
}
static void reaped(pid_t pid, int st) {
  int i = kid_index(pid);
  if (i >= 0) px_kids[i] = px_kids[--px_nkids];
  px_note(M_REAPED, pid, st, NULL, 0);
}
pid_t wait4(pid_t pid, int *st, int opt, struct rusage *ru) {
  if (!px_on || px_child) return syscall(SYS_wait4, pid, st, opt, ru);
  px_point_b = 0;
  if (px_point(K_WAIT, pid)) return -1;
  int s = 0;
  long r = syscall(SYS_wait4, pid, &s, opt, ru);
  if (r > 0 && px_point_b && WIFSIGNALED(s)) s |= 0x80;   // "dumped core"
  if (st) *st = s;
  if (r > 0 && (WIFEXITED(s) || WIFSIGNALED(s))) reaped(r, s);
  if (r > 0 && ru) {
    // Resource usage is not ours to determine; make it a known function of
    // nothing so that what is reported can be compared exactly.
    memset(ru, 0, sizeof *ru);
    ru->ru_utime.tv_sec = 3; ru->ru_utime.tv_usec = 250000;
    ru->ru_stime.tv_sec = 1; ru->ru_stime.tv_usec = 500000;
    ru->ru_maxrss = 4321; ru->ru_minflt = 11; ru->ru_majflt = 22; ru->ru_nswap = 33;
    ru->ru_inblock = 44; ru->ru_oublock = 55; ru->ru_nvcsw = 66; ru->ru_nivcsw = 77;
  }
  return r;
}
pid_t wait3(int *st, int opt, struct rusage *ru) { return wait4(-1, st, opt, ru); }
pid_t waitpid(pid_t pid, int *st, int opt) { return wait4(pid, st, opt, NULL); }
pid_t wait(int *st) { return wait4(-1, st, 0, NULL); }
int waitid(idtype_t t, id_t id, siginfo_t *si, int opt) {
  if (px_on && !px_child && px_point(K_WAIT, (int)id)) return -1;
  siginfo_t tmp; memset(&tmp, 0, sizeof tmp); if (!si) si = &tmp; else si->si_pid = 0;
  long r = syscall(SYS_waitid, t, id, si, opt, NULL);
  if (px_on && !px_child && r == 0 && !(opt & WNOWAIT) && si->si_pid > 0 && (si->si_code == CLD_EXITED || si->si_code == CLD_KILLED || si->si_code == CLD_DUMPED))
    reaped(si->si_pid, si->si_code == CLD_EXITED ? (si->si_status & 255) << 8 : si->si_status);
  return r;
}

int kill(pid_t pid, int sig) {
  if (!px_on) return syscall(SYS_kill, pid, sig);
  if (px_child) {
    if (pid == (pid_t)syscall(SYS_getpid)) return syscall(SYS_kill, pid, sig);
    errno = EPERM; return -1;
  }
  int known = kid_index(pid) >= 0;
  Hdr r = px_ask(known ? M_KILL : M_BADKILL, pid, sig, 0, 0, NULL, 0, -1, NULL, NULL);
  if (r.a) { errno = r.a; return -1; }
  return 0;
}
int killpg(pid_t pg, int sig) { return kill(-pg, sig); }

pid_t setsid(void) {
  if (px_point(K_SETSID, 0)) return -1;
  return syscall(SYS_setsid);
}

//------------------------------------------------------------------------------
// fds

int pipe(int p[2]) { if (px_point(K_PIPE, 0)) return -1; return syscall(SYS_pipe2, p, 0); }
int pipe2(int p[2], int fl) { if (px_point(K_PIPE, 0)) return -1; return syscall(SYS_pipe2, p, fl); }
int dup2(int a, int b) {
  if (px_point(K_DUP2, b)) return -1;
  if (b >= RES_FD) { errno = EBADF; return -1; }
  return syscall(SYS_dup2, a, b);
}
int dup3(int a, int b, int fl) {
  if (px_point(K_DUP2, b)) return -1;
  if (b >= RES_FD) { errno = EBADF; return -1; }
  return syscall(SYS_dup3, a, b, fl);
}
int close(int fd) {
  if (px_on && fd >= RES_FD) { errno = EBADF; return -1; }
  if (px_point(K_CLOSE, fd)) return -1;
  if (fd >= 0 && fd < 6000) px_inet[fd] = 0;
  long r = syscall(SYS_close, fd);
  if (r < 0 && errno == EBADF && px_on && !px_child) { px_note(M_BADCLOSE, fd, 0, NULL, 0); errno = EBADF; }
  return r;
}
ssize_t read(int fd, void *p, size_t n) { if (px_point(K_READ, fd)) return -1; return syscall(SYS_read, fd, p, n); }
ssize_t write(int fd, const void *p, size_t n) { if (px_point(K_WRITE, fd)) return -1; return syscall(SYS_write, fd, p, n); }
off_t lseek(int fd, off_t o, int w) { if (px_point(K_LSEEK, fd)) return -1; return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { if (px_point(K_LSEEK, fd)) return -1; return syscall(SYS_lseek, fd, o, w); }

//------------------------------------------------------------------------------
// files

static int allowed_path(const char *path, int fl) {
  if ((fl & O_ACCMODE) == O_RDONLY && !(fl & (O_CREAT | O_TRUNC))) return 1;
  if (!strcmp(path, "/dev/null") || !strcmp(path, "/dev/full")) return 1;
  if (!strncmp(path, px_scratch, px_scratch_len) && path[px_scratch_len] == '/' && !strstr(path, "/../")) return 1;
  if (!strncmp(path, "/tmp/procstar-capture-", 22)) return 1;
  return path[0] != '/' && !strstr(path, "..");   // cwd is the scratch directory
}
static int do_open(int dfd, const char *path, int fl, int mode) {
  if (!px_on) return syscall(SYS_openat, dfd, path, fl, mode);
  if (px_point(K_OPEN, fl)) return -1;
  if (!px_child && !strncmp(path, "/proc/", 6) && (px_mask & (1u << K_PROC)) && (pid_t)syscall(SYS_gettid) == px_main) {
    size_t pl = 0;
    Hdr r = px_ask(M_OPENFILE, fl, 0, 0, 0, path, strlen(path), -1, &pl, NULL);
    if (r.a > 0) { errno = r.a; return -1; }
    if (r.a < 0) {   // substitute contents
      int m = syscall(SYS_memfd_create, "px", fl & O_CLOEXEC ? 1 : 0);
      syscall(SYS_write, m, px_buf, pl); syscall(SYS_lseek, m, 0, SEEK_SET);
      return m;
    }
  }
  if (!allowed_path(path, fl)) {
    px_note(M_OPENDENIED, fl, 0, path, strlen(path));
    errno = EACCES; return -1;
  }
  return syscall(SYS_openat, dfd, path, fl, mode);
}
#define MODE int mode = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, mode); }
int open64(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, mode); }
int openat(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, mode); }
int openat64(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

// Names of host, user and group as a scenario wants them.
static int px_name(const char *what, char *buf, int n) {
  char p[300]; snprintf(p, sizeof p, "%s/.px_%s", px_scratch, what);
  int f = px_on ? syscall(SYS_openat, AT_FDCWD, p, O_RDONLY | O_CLOEXEC) : -1;
  if (f < 0) return -1;
  int k = syscall(SYS_read, f, buf, n - 1);
  syscall(SYS_close, f);
  buf[k < 0 ? 0 : k] = 0;
  return k;
}
int gethostname(char *b, size_t n) {
  REAL(int, gethostname, char *, size_t)
  char h[80];
  int k = px_name("host", h, sizeof h);
  if (k < 0) return real(b, n);
  memcpy(b, h, (size_t)k + 1 < n ? (size_t)k + 1 : n);
  if ((size_t)k + 1 > n) { errno = ENAMETOOLONG; return -1; }
  return 0;
}
struct passwd *getpwuid(uid_t u) {
  REAL(struct passwd *, getpwuid, uid_t)
  static char h[80]; static struct passwd pw;
  if (px_name("user", h, sizeof h) < 0) return real(u);
  if (!*h) return NULL;
  pw = (struct passwd){ .pw_name = h, .pw_uid = u, .pw_dir = "/", .pw_shell = "/bin/sh", .pw_passwd = "x", .pw_gecos = "" };
  return &pw;
}
struct group *getgrgid(gid_t g) {
  REAL(struct group *, getgrgid, gid_t)
  static char h[80]; static char *none[1]; static struct group gr;
  if (px_name("group", h, sizeof h) < 0) return real(g);
  if (!*h) return NULL;
  gr = (struct group){ .gr_name = h, .gr_gid = g, .gr_passwd = "x", .gr_mem = none };
  return &gr;
}

static int do_mkostemp(char *t, int suffix, int fl) {
  REAL(int, mkostemps, char *, int, int)
  if (px_on && px_point(K_MKSTEMP, 0)) return -1;
  if (px_on && strncmp(t, "/tmp/", 5) && strncmp(t, px_scratch, px_scratch_len)) { errno = EACCES; return -1; }
  int fd = real(t, suffix, fl);
  if (px_on && fd >= 0) px_note(M_MKSTEMP, fd, 0, t, strlen(t));
  return fd;
}
int mkstemp(char *t) { return do_mkostemp(t, 0, 0); }
int mkstemp64(char *t) { return do_mkostemp(t, 0, 0); }
int mkostemp(char *t, int fl) { return do_mkostemp(t, 0, fl); }
int mkostemp64(char *t, int fl) { return do_mkostemp(t, 0, fl); }
int mkstemps(char *t, int n) { return do_mkostemp(t, n, 0); }

int unlink(const char *p) {
  if (px_on && !allowed_path(p, O_WRONLY)) { px_note(M_OPENDENIED, -1, 0, p, strlen(p)); errno = EACCES; return -1; }
  return syscall(SYS_unlink, p);
}
int unlinkat(int d, const char *p, int fl) {
  if (px_on && !allowed_path(p, O_WRONLY)) { px_note(M_OPENDENIED, -1, 0, p, strlen(p)); errno = EACCES; return -1; }
  return syscall(SYS_unlinkat, d, p, fl);
}
int rename(const char *a, const char *b) {
  if (px_on && (!allowed_path(a, O_WRONLY) || !allowed_path(b, O_WRONLY))) { px_note(M_OPENDENIED, -2, 0, b, strlen(b)); errno = EACCES; return -1; }
  return syscall(SYS_rename, a, b);
}
#define DENY(sig, p) { if (px_on && !allowed_path(p, O_WRONLY)) { px_note(M_OPENDENIED, -3, 0, p, strlen(p)); errno = EACCES; return -1; } return sig; }
int rmdir(const char *p) DENY(syscall(SYS_rmdir, p), p)
int chmod(const char *p, mode_t m) DENY(syscall(SYS_chmod, p, m), p)
int truncate(const char *p, off_t n) DENY(syscall(SYS_truncate, p, n), p)
int truncate64(const char *p, off64_t n) DENY(syscall(SYS_truncate, p, n), p)

//------------------------------------------------------------------------------
// sockets: AF_INET ones become AF_UNIX ones that only the controller reaches

int socket(int dom, int type, int proto) {
  if (!px_on || (dom != AF_INET && dom != AF_INET6)) return syscall(SYS_socket, dom, type, proto);
  int fd = syscall(SYS_socket, AF_UNIX, type, 0);
  if (fd >= 0 && fd < 6000) { px_inet[fd] = 1; px_port[fd] = 0; }
  return fd;
}
static void fake_addr(struct sockaddr *sa, socklen_t *len, uint16_t port) {
  struct sockaddr_in in; memset(&in, 0, sizeof in);
  in.sin_family = AF_INET; in.sin_port = htons(port); in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  socklen_t n = *len < sizeof in ? *len : sizeof in;
  memcpy(sa, &in, n); *len = sizeof in;
}
int bind(int fd, const struct sockaddr *sa, socklen_t len) {
  if (!px_on || fd < 0 || fd >= 6000 || !px_inet[fd] || sa->sa_family == AF_UNIX) return syscall(SYS_bind, fd, sa, len);
  struct sockaddr_in *in = (void *)sa;
  px_port[fd] = ntohs(in->sin_port);
  struct sockaddr_un un; memset(&un, 0, sizeof un); un.sun_family = AF_UNIX;
  int n = snprintf(un.sun_path + 1, sizeof un.sun_path - 1, "px-%d-%d", px_main, fd);
  if (syscall(SYS_bind, fd, &un, offsetof(struct sockaddr_un, sun_path) + 1 + n) < 0) return -1;
  px_inet[fd] = 2;
  char t[300]; n = snprintf(t, sizeof t, "%s %s:%d", un.sun_path + 1, inet_ntoa(in->sin_addr), px_port[fd]);
  px_note(M_LISTEN, fd, px_port[fd], t, n);
  return 0;
}
int accept4(int fd, struct sockaddr *sa, socklen_t *len, int fl) {
  if (!px_on || fd < 0 || fd >= 6000 || !px_inet[fd]) return syscall(SYS_accept4, fd, sa, len, fl);
  if (px_point(K_ACCEPT, fd)) return -1;
  long r = syscall(SYS_accept4, fd, NULL, NULL, fl);
  if (r >= 0 && r < 6000) { px_inet[r] = 3; px_port[r] = px_port[fd]; if (sa) fake_addr(sa, len, 40000); }
  return r;
}
int accept(int fd, struct sockaddr *sa, socklen_t *len) { return accept4(fd, sa, len, 0); }
int connect(int fd, const struct sockaddr *sa, socklen_t len) {
  if (!px_on || fd < 0 || fd >= 6000 || !px_inet[fd] || sa->sa_family == AF_UNIX) return syscall(SYS_connect, fd, sa, len);
  struct sockaddr_in *in = (void *)sa;
  char t[64]; int n = snprintf(t, sizeof t, "%s:%d", inet_ntoa(in->sin_addr), ntohs(in->sin_port));
  int got = -1;
  Hdr r = px_ask(M_CONNECT, fd, 0, 0, 0, t, n, -1, NULL, &got);
  if (got < 0) { errno = r.a ? r.a : ECONNREFUSED; return -1; }
  int fl = syscall(SYS_fcntl, fd, F_GETFL), cl = syscall(SYS_fcntl, fd, F_GETFD);
  syscall(SYS_dup3, got, fd, cl & FD_CLOEXEC ? O_CLOEXEC : 0); raw_close(got);
  syscall(SYS_fcntl, fd, F_SETFL, fl);
  px_inet[fd] = 3;
  if (r.a) { errno = r.a; return -1; }
  return 0;
}
int getsockname(int fd, struct sockaddr *sa, socklen_t *len) {
  if (!px_on || fd < 0 || fd >= 6000 || !px_inet[fd]) return syscall(SYS_getsockname, fd, sa, len);
  fake_addr(sa, len, px_port[fd]); return 0;
}
int getpeername(int fd, struct sockaddr *sa, socklen_t *len) {
  if (!px_on || fd < 0 || fd >= 6000 || !px_inet[fd]) return syscall(SYS_getpeername, fd, sa, len);
  fake_addr(sa, len, 40000); return 0;
}
int setsockopt(int fd, int lvl, int opt, const void *v, socklen_t n) {
  if (px_on && fd >= 0 && fd < 6000 && px_inet[fd] && lvl != SOL_SOCKET) return 0;
  return syscall(SYS_setsockopt, fd, lvl, opt, v, n);
}

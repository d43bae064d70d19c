// libc and GLib entry points that block, read the clock or touch descriptors.
#include "sim_int.h"
#include <dlfcn.h>
#include <map>
#include <sys/mman.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <sys/eventfd.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <glib.h>
#include <gio/gio.h>

static inline long raw6 (long n, long a, long b, long c, long d, long e, long f)
{
  long r; register long r10 asm ("r10") = d; register long r8 asm ("r8") = e; register long r9 asm ("r9") = f;
  asm volatile ("syscall" : "=a" (r) : "a" (n), "D" (a), "S" (b), "d" (c), "r" (r10), "r" (r8), "r" (r9) : "rcx", "r11", "memory");
  return r;
}
static inline long ret (long r) { if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }
extern "C" char __executable_start, etext;
static inline bool from_libdex (const void *pc) { return (const char *) pc >= &__executable_start && (const char *) pc < &etext; }
#define REAL(name, type) static type real; if (!real) real = (type) dlsym (RTLD_NEXT, #name)

static long sim_futex (int *addr, int op, int val, const struct timespec *ts)
{
  int cmd = op & 127;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET)
    {
      sim_pt (P_SYNC);
      if (__atomic_load_n (addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
      if (sim_fault (F_SPURIOUS, 1)) { sim_pt (P_SYNC); errno = EINTR; return -1; }
      int64_t dl = INT64_MAX;
      if (ts) { int64_t t = ts->tv_sec * 1000000000ll + ts->tv_nsec; dl = cmd == FUTEX_WAIT ? sim_now_ns () + t : t; }
      if (sim_block_key (addr, dl)) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET)
    {
      int n = sim_wake_key (addr, val < 0 ? 1000000 : val);
      sim_pt (P_SYNC);
      return n;
    }
  sim_internal_error ("futex operation %d", op);
}

extern "C" {
// memory that libdex maps: the stacks of fibers
static std::map<uintptr_t, size_t> maps;
void *mmap (void *a, size_t n, int prot, int fl, int fd, off_t o)
{
  void *r = (void *) ret (raw6 (SYS_mmap, (long) a, n, prot, fl, fd, o));
  if (g_active && r != MAP_FAILED && from_libdex (__builtin_return_address (0))) maps[(uintptr_t) r] = n;
  return r;
}
void *mmap64 (void *a, size_t n, int prot, int fl, int fd, off_t o) __attribute__ ((alias ("mmap")));
int munmap (void *a, size_t n)
{
  if (g_active && from_libdex (__builtin_return_address (0)))
    {
      auto i = maps.find ((uintptr_t) a);
      if (i != maps.end () && n >= i->second) maps.erase (i);
      sim_pt (P_SYNC);
    }
  return ret (raw6 (SYS_munmap, (long) a, n, 0, 0, 0, 0));
}
}
bool sim_is_mapped_by_libdex (uintptr_t s, uintptr_t e) { auto i = maps.lower_bound (s); return i != maps.end () && i->first < e; }
extern "C" {
int sim_map_count (void) { return (int) maps.size (); }
// how far the memory below an address can be used
size_t sim_below (const void *at)
{
  static char b[65536]; size_t n = 0; int fd = ret (raw6 (SYS_open, (long) "/proc/self/maps", O_RDONLY, 0, 0, 0, 0)); long r;
  while (n < sizeof b - 1 && (r = raw6 (SYS_read, fd, (long) (b + n), sizeof b - 1 - n, 0, 0, 0)) > 0) n += r;
  b[n] = 0; raw6 (SYS_close, fd, 0, 0, 0, 0, 0);
  uintptr_t x = (uintptr_t) at, lo = x, from = 0, end = 0;
  for (char *l = b; *l; )
    {
      unsigned long s, e; char p[8];
      if (sscanf (l, "%lx-%lx %7s", &s, &e, p) == 3 && p[0] == 'r' && p[1] == 'w') { if (s != end) from = s; end = e; if (s <= x && x < e) { lo = from; break; } } else end = 0;
      l = strchr (l, '\n'); if (!l) break; l++;
    }
  return x - lo;
}

long syscall (long n, ...)
{
  va_list ap; va_start (ap, n);
  long a = va_arg (ap, long), b = va_arg (ap, long), c = va_arg (ap, long), d = va_arg (ap, long), e = va_arg (ap, long), f = va_arg (ap, long);
  va_end (ap);
  if (n == SYS_futex && g_active && sim_self () >= 0) return sim_futex ((int *) a, (int) b, (int) c, (const struct timespec *) d);
  if (n == SYS_gettid && g_active) return 1000 + sim_self ();
  return ret (raw6 (n, a, b, c, d, e, f));
}

int poll (struct pollfd *fds, nfds_t n, int timeout)
{
  if (!g_active || sim_self () < 0) return ret (raw6 (SYS_poll, (long) fds, n, timeout, 0, 0, 0));
  return sim_poll (fds, n, timeout < 0 ? -1 : timeout * 1000000ll);
}
int ppoll (struct pollfd *fds, nfds_t n, const struct timespec *ts, const sigset_t *ss)
{
  if (!g_active || sim_self () < 0) return ret (raw6 (SYS_ppoll, (long) fds, n, (long) ts, (long) ss, 8, 0));
  return sim_poll (fds, n, ts ? ts->tv_sec * 1000000000ll + ts->tv_nsec : -1);
}
int clock_gettime (clockid_t c, struct timespec *ts)
{
  if (!g_active) return ret (raw6 (SYS_clock_gettime, c, (long) ts, 0, 0, 0, 0));
  int64_t t = sim_now_ns (); if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) t += 1700000000ll * 1000000000;
  ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0;
}
int gettimeofday (struct timeval *tv, void *)
{
  struct timespec ts; clock_gettime (CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time (time_t *t) { struct timespec ts; clock_gettime (CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
int nanosleep (const struct timespec *a, struct timespec *b)
{
  if (!g_active) return ret (raw6 (SYS_nanosleep, (long) a, (long) b, 0, 0, 0, 0));
  sim_sleep_us (a->tv_sec * 1000000ll + a->tv_nsec / 1000); return 0;
}
int usleep (useconds_t us) { struct timespec ts = { (time_t) (us / 1000000), (long) (us % 1000000) * 1000 }; return nanosleep (&ts, NULL); }
int sched_yield (void)
{
  if (!g_active) return ret (raw6 (SYS_sched_yield, 0, 0, 0, 0, 0, 0));
  for (int i = 0; i < 50; i++) sim_pt (P_SYNC);
  return 0;
}
ssize_t getrandom (void *b, size_t n, unsigned fl)
{
  if (!g_active) return ret (raw6 (SYS_getrandom, (long) b, n, fl, 0, 0, 0));
  memset (b, 0x5a, n); return n;
}
guint32 g_random_int (void) { static uint32_t x = 12345; return x = x * 1664525u + 1013904223u; }

// ---------------------------------------------------------------- descriptors
static bool wait_fd (int fd, short ev)
{
  struct pollfd p = { fd, ev, 0 };
  if (raw6 (SYS_poll, (long) &p, 1, 0, 0, 0, 0) != 0) return true;
  if (raw6 (SYS_fcntl, fd, F_GETFL, 0, 0, 0, 0) & O_NONBLOCK) return true;
  while (sim_poll (&p, 1, -1) == 0) ;
  return true;
}
ssize_t read (int fd, void *b, size_t n)
{
  if (!g_active || sim_self () < 0) return ret (raw6 (SYS_read, fd, (long) b, n, 0, 0, 0));
  sim_pt (P_SYNC);
  if (is_simfile (fd)) return ret (file_rw (fd, b, n, -1, 0));
  if (from_libdex (__builtin_return_address (0)) && sim_fault (F_EINTR, 1)) { errno = EINTR; return -1; }
  wait_fd (fd, POLLIN);
  long r = ret (raw6 (SYS_read, fd, (long) b, n, 0, 0, 0));
  g_fd_dirty = true;
  return r;
}
ssize_t write (int fd, const void *b, size_t n)
{
  if (!g_active || sim_self () < 0) return ret (raw6 (SYS_write, fd, (long) b, n, 0, 0, 0));
  if (fd == 2) return ret (raw6 (SYS_write, fd, (long) b, n, 0, 0, 0));
  sim_pt (P_SYNC);
  if (is_simfile (fd)) return ret (file_rw (fd, (void *) b, n, -1, 1));
  wait_fd (fd, POLLOUT);
  long r = ret (raw6 (SYS_write, fd, (long) b, n, 0, 0, 0));
  g_fd_dirty = true;
  sim_pt (P_SYNC);
  return r;
}
ssize_t pread (int fd, void *b, size_t n, off_t o)
{
  if (!g_active || !is_simfile (fd)) return ret (raw6 (SYS_pread64, fd, (long) b, n, o, 0, 0));
  if (o < 0) { errno = EINVAL; return -1; }
  return ret (file_rw (fd, b, n, o, 0));
}
ssize_t pread64 (int fd, void *b, size_t n, off_t o) { return pread (fd, b, n, o); }
ssize_t pwrite (int fd, const void *b, size_t n, off_t o)
{
  if (!g_active || !is_simfile (fd)) return ret (raw6 (SYS_pwrite64, fd, (long) b, n, o, 0, 0));
  if (o < 0) { errno = EINVAL; return -1; }
  return ret (file_rw (fd, (void *) b, n, o, 1));
}
ssize_t pwrite64 (int fd, const void *b, size_t n, off_t o) { return pwrite (fd, b, n, o); }
int eventfd (unsigned v, int fl)
{
  if (g_active && from_libdex (__builtin_return_address (0)))
    { sim_pt (P_SYNC); if (sim_fault (F_EVENTFD, 1)) { errno = EMFILE; return -1; } }
  return ret (raw6 (SYS_eventfd2, v, fl, 0, 0, 0, 0));
}
int close (int fd)
{
  long r = ret (raw6 (SYS_close, fd, 0, 0, 0, 0, 0));
  if (g_active) { g_fd_dirty = true; sim_pt (P_SYNC); }
  return r;
}

// ---------------------------------------------------------------- pthread locks (used by GRecMutex, GRWLock)
int pthread_mutex_lock (pthread_mutex_t *m)
{
  typedef int (*fn) (pthread_mutex_t *);
  if (!g_active || sim_self () < 0) { REAL (pthread_mutex_lock, fn); return real (m); }
  static fn tr; if (!tr) tr = (fn) dlsym (RTLD_NEXT, "pthread_mutex_trylock");
  sim_pt (P_SYNC);
  int r;
  while ((r = tr (m)) == EBUSY) sim_block_key (m, INT64_MAX);
  return r;
}
int pthread_mutex_unlock (pthread_mutex_t *m)
{
  typedef int (*fn) (pthread_mutex_t *);
  REAL (pthread_mutex_unlock, fn);
  int r = real (m);
  if (g_active && sim_self () >= 0) { sim_wake_key (m, 1); sim_pt (P_SYNC); }
  return r;
}
#define RW(name, tryname) \
int name (pthread_rwlock_t *l) \
{ \
  typedef int (*fn) (pthread_rwlock_t *); \
  if (!g_active || sim_self () < 0) { REAL (name, fn); return real (l); } \
  static fn tr; if (!tr) tr = (fn) dlsym (RTLD_NEXT, #tryname); \
  sim_pt (P_SYNC); \
  int r; while ((r = tr (l)) == EBUSY) sim_block_key (l, INT64_MAX); \
  return r; \
}
RW (pthread_rwlock_rdlock, pthread_rwlock_tryrdlock)
RW (pthread_rwlock_wrlock, pthread_rwlock_trywrlock)
int pthread_rwlock_unlock (pthread_rwlock_t *l)
{
  typedef int (*fn) (pthread_rwlock_t *);
  REAL (pthread_rwlock_unlock, fn);
  int r = real (l);
  if (g_active && sim_self () >= 0) { sim_wake_key (l, 1000000); sim_pt (P_SYNC); }
  return r;
}

// ---------------------------------------------------------------- the thread pool of the posix I/O backend
// GLib's own pool needs its spawner thread, which a forked run does not have. The stand-in starts threads on demand
// up to the maximum and serves its queue in order, like GLib's.
struct SimPool { GThreadPool pub; GMutex m; GCond c; GQueue q; int idle, n, max; };
static SimPool *simpool[8]; static int nsimpool;
static gpointer simpool_thread (gpointer d)
{
  SimPool *p = (SimPool *) d;
  for (;;)
    {
      g_mutex_lock (&p->m);
      while (p->q.length == 0) { p->idle++; g_cond_wait (&p->c, &p->m); p->idle--; }
      gpointer x = g_queue_pop_head (&p->q);
      g_mutex_unlock (&p->m);
      p->pub.func (x, p->pub.user_data);
    }
  return NULL;
}
GThreadPool *g_thread_pool_new (GFunc f, gpointer u, int max, gboolean excl, GError **e)
{
  typedef GThreadPool *(*fn) (GFunc, gpointer, int, gboolean, GError **); REAL (g_thread_pool_new, fn);
  if (!from_libdex (__builtin_return_address (0)) || nsimpool == 8) return real (f, u, max, excl, e);
  SimPool *p = (SimPool *) calloc (1, sizeof *p); p->pub.func = f; p->pub.user_data = u; p->pub.exclusive = excl; p->max = max;
  return (GThreadPool *) (simpool[nsimpool++] = p);
}
gboolean g_thread_pool_push (GThreadPool *pool, gpointer data, GError **e)
{
  typedef gboolean (*fn) (GThreadPool *, gpointer, GError **); REAL (g_thread_pool_push, fn);
  for (int i = 0; i < nsimpool; i++)
    if ((GThreadPool *) simpool[i] == pool)
      {
        SimPool *p = simpool[i]; bool start = false;
        g_mutex_lock (&p->m);
        g_queue_push_tail (&p->q, data);
        if ((int) p->q.length > p->idle && p->n < p->max) { p->n++; start = true; }
        g_cond_signal (&p->c);
        g_mutex_unlock (&p->m);
        if (start) g_thread_unref (g_thread_new ("io", simpool_thread, p));
        return TRUE;
      }
  return real (pool, data, e);
}

// ---------------------------------------------------------------- GLib locks as called by libdex
#define CHK(p) sim_access ((p), 4, P_SYNC, 1, __builtin_return_address (0))
#define GL1(name, T, after) \
void name (T *m) { typedef void (*fn) (T *); REAL (name, fn); if (g_active) CHK (m); real (m); if (g_active && after) sim_pt (P_SYNC); }
GL1 (g_mutex_lock, GMutex, 0)
GL1 (g_mutex_unlock, GMutex, 1)
GL1 (g_cond_signal, GCond, 1)
GL1 (g_cond_broadcast, GCond, 1)
GL1 (g_rw_lock_reader_lock, GRWLock, 0)
GL1 (g_rw_lock_reader_unlock, GRWLock, 1)
GL1 (g_rw_lock_writer_lock, GRWLock, 0)
GL1 (g_rw_lock_writer_unlock, GRWLock, 1)
GL1 (g_rec_mutex_lock, GRecMutex, 0)
GL1 (g_rec_mutex_unlock, GRecMutex, 1)
GL1 (g_mutex_clear, GMutex, 0)
GL1 (g_cond_clear, GCond, 0)
// ---------------------------------------------------------------- other GLib objects as used by libdex
// a scheduling point between libdex reading the pointer and GLib using it, and a check that the object still exists
#define CHKG(p) do { const void *ra_ = __builtin_return_address (0); if (g_active && (p) && from_libdex (ra_)) sim_access ((p), 4, P_SYNC, 1, ra_); } while (0)
#define GLV(name, T) void name (T *m) { typedef void (*fn) (T *); REAL (name, fn); CHKG (m); real (m); }
#define GLR(R, name, T) R name (T *m) { typedef R (*fn) (T *); REAL (name, fn); CHKG (m); return real (m); }
// sources and contexts that libdex makes; GLib keeps some in lists of its own, so that they stay reachable for ever
struct Made { void *p; char kind; }; static Made *made; static size_t nmade, cmade;
static void *made_here (void *p, char kind)
{
  if (!g_active) return p;
  if (nmade == cmade) { Internal guard; cmade = cmade ? cmade * 2 : 64; made = (Made *) realloc (made, cmade * sizeof (Made)); }
  made[nmade++] = { p, kind };
  return p;
}
extern char sim_text_mark;
#define MADE(p, k) ((const char *) __builtin_return_address (0) < &sim_text_mark && from_libdex (__builtin_return_address (0)) ? (decltype (p)) made_here (p, k) : p)
GSource *g_source_new (GSourceFuncs *f, guint n) { typedef GSource *(*fn) (GSourceFuncs *, guint); REAL (g_source_new, fn); GSource *s = real (f, n); return MADE (s, 's'); }
GSource *g_idle_source_new (void) { typedef GSource *(*fn) (void); REAL (g_idle_source_new, fn); GSource *s = real (); return MADE (s, 's'); }
GSource *g_timeout_source_new (guint n) { typedef GSource *(*fn) (guint); REAL (g_timeout_source_new, fn); GSource *s = real (n); return MADE (s, 's'); }
GSource *g_unix_signal_source_new (int n) { typedef GSource *(*fn) (int); REAL (g_unix_signal_source_new, fn); GSource *s = real (n); return MADE (s, 's'); }
GMainContext *g_main_context_new (void) { typedef GMainContext *(*fn) (void); REAL (g_main_context_new, fn); GMainContext *s = real (); return MADE (s, 'c'); }
void sim_made_mark (void) { nmade = 0; }
int sim_made_left (char kind) { int n = 0; if (!sim_reuse ()) for (size_t i = 0; i < nmade; i++) n += made[i].kind == kind && shadow_at (made[i].p) != SHD_FREED; return n; }
GLV (g_source_destroy, GSource)
GLV (g_source_unref, GSource)
GLR (GSource *, g_source_ref, GSource)
GLR (gboolean, g_source_is_destroyed, GSource)
GLR (GMainContext *, g_source_get_context, GSource)
GLV (g_main_context_wakeup, GMainContext)
GLV (g_main_context_unref, GMainContext)
GLR (GMainContext *, g_main_context_ref, GMainContext)
GLV (g_main_loop_quit, GMainLoop)
GLV (g_cancellable_cancel, GCancellable)
GLR (gboolean, g_cancellable_is_cancelled, GCancellable)
void g_object_unref (gpointer m) { typedef void (*fn) (gpointer); REAL (g_object_unref, fn); CHKG (m); real (m); }
gpointer (g_object_ref) (gpointer m) { typedef gpointer (*fn) (gpointer); REAL (g_object_ref, fn); CHKG (m); return real (m); }
void g_source_set_ready_time (GSource *m, gint64 t) { typedef void (*fn) (GSource *, gint64); REAL (g_source_set_ready_time, fn); CHKG (m); real (m, t); }
guint g_source_attach (GSource *m, GMainContext *c) { typedef guint (*fn) (GSource *, GMainContext *); REAL (g_source_attach, fn); CHKG (m); CHKG (c); guint r = real (m, c); if (g_active && from_libdex (__builtin_return_address (0))) sim_pt (P_SYNC); return r; }
void g_cancellable_disconnect (GCancellable *m, gulong h) { typedef void (*fn) (GCancellable *, gulong); REAL (g_cancellable_disconnect, fn); CHKG (m); real (m, h); }

gboolean g_mutex_trylock (GMutex *m) { typedef gboolean (*fn) (GMutex *); REAL (g_mutex_trylock, fn); if (g_active) CHK (m); return real (m); }
void g_cond_wait (GCond *c, GMutex *m) { typedef void (*fn) (GCond *, GMutex *); REAL (g_cond_wait, fn); if (g_active) { CHK (c); CHK (m); } real (c, m); }
}

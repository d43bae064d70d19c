// Threads, schedule, virtual time.
#include "sim_int.h"
#include <execinfo.h>
#include <dlfcn.h>
#include <algorithm>
#include <vector>
#include <linux/futex.h>
#include <glib.h>

const char *sim_fault_names[F_NUM] = { "spurious_wakeup", "stall_clock_jump", "eintr", "ring_init_fail", "ring_register_fail",
  "eventfd_fail", "io_error", "io_short", "io_delay", "io_reorder", "submit_fail", "signal", "scripted_op" };

bool g_active;
Shared *SH;
int g_verbose;
uint64_t g_steps_cap = 3000000;
bool g_fd_dirty;
Rng g_rng_fault;
static Rng rng_gen, rng_sched;
static Replay rp;

enum St { RUN, BLOCK_KEY, BLOCK_POLL, DEAD };
struct Th {
  int id; St st; volatile int baton;
  const void *key; int64_t deadline; bool timedout;
  struct pollfd *fds; nfds_t nfds;
  uint64_t lsteps, next_ls; const Sched *ent, *ent_end;
  int prio; uint64_t slice;
  void *(*fn) (void *); void *arg; void *ret;
  uintptr_t sp, tcb, regs[6];    // where its stack is, while it waits
  std::vector<Sched> mine;
};
static Th *ths[512]; static int nth; static int ncur;
static __thread Th *self;
static pthread_key_t exit_key;

static int64_t now_ns, wake_ns = INT64_MAX; static uint64_t steps; static uint64_t seqno;
static int64_t credit; static int wplain = 1, wsync = 4, wbits = 1;
static bool need_resched;
static int mode; // 0 random 1 pct
static double interval_mean; static int pct_left; static int min_prio; static uint64_t fair_limit; static double p_stall;
static bool calm; static uint64_t calm_at;
static bool quiesce_wait, quiesced;
static int64_t horizon_ns = INT64_MAX;
static double frate[F_NUM]; static uint32_t fidx[F_NUM];
static uint32_t gidx; static uint64_t hsh, ilv;
static int sig_pending, sig_points;
static const char *allow_logs[16]; static int nallow;
static int nprocs = 2; static bool run_reuse, run_nowake;
void sim_fresh_eventfds (void);
extern "C" int sim_reuse (void) { return run_reuse; }
static std::vector<const Fault *> rfaults[F_NUM];

static inline void mix (uint64_t &h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }

extern "C" {
int sim_active (void) { return g_active; }
int sim_verbose (void) { return g_verbose; }
int64_t sim_now_us (void) { return now_ns / 1000; }
uint64_t sim_seq (void) { return ++seqno; }
int sim_self (void) { return self ? self->id : -1; }
void sim_set_nprocs (int n) { nprocs = n; }
int sim_uring (void) { return g_backend_uring; }
void sim_expect_log (const char *s) { if (nallow < 16) allow_logs[nallow++] = s; }
guint g_get_num_processors (void) { return nprocs; }
void sim_event (uint64_t v) { mix (hsh, v); }
void sim_eval (void) { SH->evals++; }
void sim_probe (const char *name)
{
  if (!g_active) return;
  for (int i = 0; i < NPROBE; i++)
    {
      if (!SH->probe[i].name[0]) { snprintf (SH->probe[i].name, sizeof SH->probe[i].name, "%s", name); }
      if (!strcmp (SH->probe[i].name, name)) { SH->probe[i].n++; return; }
    }
}
void sim_note (const char *fmt, ...)
{
  size_t l = strlen (SH->note); va_list ap; va_start (ap, fmt);
  if (l < sizeof SH->note - 2) vsnprintf (SH->note + l, sizeof SH->note - l, fmt, ap);
  va_end (ap);
}
void sim_trace (const char *fmt, ...)
{
  if (!g_verbose) return;
  char b[600]; int l = snprintf (b, sizeof b, "[%lu t%d %ld.%06ld] ", (unsigned long) steps, self ? self->id : -1, (long) (now_ns / 1000000000), (long) (now_ns / 1000 % 1000000));
  va_list ap; va_start (ap, fmt); l += vsnprintf (b + l, sizeof b - l - 2, fmt, ap); va_end (ap);
  if (l > (int) sizeof b - 2) l = sizeof b - 2;
  b[l++] = '\n'; (void) !write (2, b, l);
}
}
int64_t sim_now_ns (void) { return now_ns; }
void sim_deadline_hint (int64_t d) { if (d < wake_ns) wake_ns = d; }

// ------------------------------------------------------------ verdicts
static void finish (int status)
{
  SH->hash = hsh; SH->ilv = ilv; SH->steps = steps; SH->nthreads = nth; SH->sim_us = now_ns / 1000;
  SH->status = status;
  g_active = false;
  _exit (0);
}
static void dump_where (void)
{
  if (g_verbose)
    {
      void *bt[60]; int n = backtrace (bt, 60);
      backtrace_symbols_fd (bt, n, 2);
    }
  size_t l = 0; char *w = SH->where; size_t cap = sizeof SH->where; w[0] = 0;
  for (int i = 0; i < nth && l + 80 < cap; i++)
    {
      Th *t = ths[i];
      static const char *nm[] = { "runnable", "blocked", "polling", "finished" };
      l += snprintf (w + l, cap - l, "t%d:%s%s ", t->id, nm[t->st], t == self ? "*" : "");
    }
}
void sim_violation (const char *cls, const char *fmt, ...)
{
  snprintf (SH->cls, sizeof SH->cls, "%s", cls);
  va_list ap; va_start (ap, fmt); vsnprintf (SH->msg, sizeof SH->msg, fmt, ap); va_end (ap);
  if (g_verbose) fprintf (stderr, "VIOLATION class=%s: %s\n", SH->cls, SH->msg);
  dump_where ();
  finish (2);
  _exit (2);
}
void sim_internal_error (const char *fmt, ...)
{
  va_list ap; va_start (ap, fmt); vsnprintf (SH->msg, sizeof SH->msg, fmt, ap); va_end (ap);
  snprintf (SH->cls, sizeof SH->cls, "internal");
  dump_where ();
  finish (3);
  _exit (3);
}
void sim_end_ok (void) { finish (1); _exit (0); }

static char last_msg[700];
static void norm_cls (char *out, size_t cap, const char *pre, const char *m)
{
  // class = message without numbers, so that minimisation keeps the same kind of failure
  size_t l = snprintf (out, cap, "%s", pre);
  for (; *m && l + 1 < cap && l < 120; m++)
    {
      if (*m == '\n') { if (l > strlen (pre)) break; continue; }
      if (*m == '*' && l == strlen (pre)) continue;
      if ((*m >= '0' && *m <= '9')) { if (out[l - 1] != '#') out[l++] = '#'; continue; }
      out[l++] = *m;
    }
  out[l] = 0;
}
static GLogWriterOutput log_writer (GLogLevelFlags lvl, const GLogField *f, gsize n, gpointer)
{
  const char *m = "", *dom = "";
  for (gsize i = 0; i < n; i++)
    { if (!strcmp (f[i].key, "MESSAGE")) m = (const char *) f[i].value; if (!strcmp (f[i].key, "GLIB_DOMAIN")) dom = (const char *) f[i].value; }
  if (g_verbose) fprintf (stderr, "LOG[%s] %s\n", dom, m);
  if (lvl & (G_LOG_LEVEL_ERROR | G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_WARNING))
    {
      for (int i = 0; i < nallow; i++) if (strstr (m, allow_logs[i])) return G_LOG_WRITER_HANDLED;
      snprintf (last_msg, sizeof last_msg, "%s: %s", dom, m);
      if (g_active)
        { char c[160]; norm_cls (c, sizeof c, "critical:", last_msg); sim_violation (c, "%s", last_msg); }
    }
  return G_LOG_WRITER_HANDLED;
}
static void err_printer (const char *m)
{
  if (strlen (m) > 4) snprintf (last_msg, sizeof last_msg, "%s", m);
  if (g_verbose || !g_active) fprintf (stderr, "%s", m);
}
static void crash (int sig, siginfo_t *si, void *)
{
  if (sig == SIGALRM) { if (g_verbose) dump_where (); snprintf (SH->cls, sizeof SH->cls, "hang"); snprintf (SH->msg, sizeof SH->msg, "no scheduling point reached for a long real time"); finish (3); }
  if (sig == SIGABRT)
    { norm_cls (SH->cls, sizeof SH->cls, "abort:", last_msg[0] ? last_msg : "abort"); snprintf (SH->msg, sizeof SH->msg, "abort: %s", last_msg); }
  else
    {
      uint64_t a = (uint64_t) si->si_addr;
      snprintf (SH->cls, sizeof SH->cls, "crash");
      snprintf (SH->msg, sizeof SH->msg, "signal %d at address %#lx%s", sig, (unsigned long) a, (a >> 40) == 0xdddddd ? " (poisoned pointer from released memory)" : "");
    }
  dump_where ();
  finish (2);
}
static void set_altstack (void)
{
  stack_t ss; memset (&ss, 0, sizeof ss);
  ss.ss_size = 64 * 1024; ss.ss_sp = mmap (NULL, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  sigaltstack (&ss, NULL);
}
void sim_install_handlers (void)
{
  struct sigaction sa; memset (&sa, 0, sizeof sa); sa.sa_sigaction = crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigemptyset (&sa.sa_mask);
  int sg[] = { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM };
  for (int s : sg) sigaction (s, &sa, NULL);
  set_altstack ();
  g_log_set_writer_func (log_writer, NULL, NULL);
  g_set_printerr_handler (err_printer);
}

// ------------------------------------------------------------ choices
extern "C" int sim_choose (int n)
{
  int v = 0;
  if (n <= 1) return 0;
  if (rp.on) { if (gidx < rp.ngen) { v = rp.gen[gidx].val; if (v >= n) v = n - 1; if (v < 0) v = 0; } }
  else v = rng_gen.below (n);
  if (gidx < MAXG) { SH->gen[gidx].val = v; SH->gen[gidx].n = n; SH->ngen = gidx + 1; }
  gidx++;
  mix (hsh, v);
  return v;
}
extern "C" int sim_range (int lo, int hi) { return lo + sim_choose (hi - lo + 1); }
extern "C" int sim_chance (int num, int den) { return sim_choose (den) >= den - num; }

extern "C" void sim_fault_rate (int kind, double p) { frate[kind] = p; }
extern "C" void sim_fault_fired (int kind) { SH->fired[kind]++; SH->opps[kind]++; }
extern "C" int sim_fault (int kind, int nk)
{
  if (!g_active) return 0;
  uint32_t idx = fidx[kind]++; int v = 0;
  if (rp.on)
    { for (const Fault *f : rfaults[kind]) if (f->idx == idx) { v = f->val > nk ? nk : f->val; break; } }
  else if (frate[kind] > 0 && !calm && g_rng_fault.unit () < frate[kind]) v = 1 + g_rng_fault.below (nk);
  SH->opps[kind]++;
  if (v)
    {
      SH->fired[kind]++;
      if (SH->nfault < MAXFA) { Fault &f = SH->fault[SH->nfault++]; f.kind = kind; f.idx = idx; f.val = v; }
      mix (hsh, 0xF0000000u + kind * 1000 + v);
      sim_trace ("fault %s #%u = %d", sim_fault_names[kind], idx, v);
    }
  return v;
}
static void record (Th *t, int next)
{
  if (SH->nsched < MAXS) { Sched &s = SH->sched[SH->nsched++]; s.tid = t->id; s.next = next; s.lstep = t->lsteps; }
}

// ------------------------------------------------------------ baton
static void rfutex_wait (volatile int *a) { while (__atomic_load_n (a, __ATOMIC_ACQUIRE) == 0) { long r; register long r10 asm ("r10") = 0; asm volatile ("syscall" : "=a" (r) : "a" (SYS_futex), "D" (a), "S" (FUTEX_WAIT_PRIVATE), "d" (0), "r" (r10) : "rcx", "r11", "memory"); } __atomic_store_n (a, 0, __ATOMIC_RELEASE); }
static void rfutex_wake (volatile int *a) { __atomic_store_n (a, 1, __ATOMIC_RELEASE); long r; asm volatile ("syscall" : "=a" (r) : "a" (SYS_futex), "D" (a), "S" (FUTEX_WAKE_PRIVATE), "d" (1) : "rcx", "r11", "memory"); }

static void switch_to (Th *n, bool dead = false)
{
  Th *me = self;
  if (n == me) return;
  SH->switches++;
  mix (ilv, (uint64_t) me->id << 40 ^ me->lsteps << 8 ^ n->id);
  mix (hsh, (uint64_t) me->id << 40 ^ me->lsteps << 8 ^ n->id);
  n->slice = 0; ncur = n->id;
  if (g_verbose > 1) sim_trace ("switch -> t%d", n->id);
  asm volatile ("movq %%rbx,0(%1); movq %%rbp,8(%1); movq %%r12,16(%1); movq %%r13,24(%1); movq %%r14,32(%1); movq %%r15,40(%1); movq %%rsp,%0" : "=&r" (me->sp) : "r" (me->regs) : "memory");
  rfutex_wake (&n->baton);
  if (!dead) rfutex_wait (&me->baton);
}
static void make_runnable (Th *t, bool to)
{
  t->st = RUN; t->timedout = to; t->key = NULL; t->deadline = INT64_MAX;
  if (mode == 1) need_resched = true;
}
static void poll_check (void)
{
  g_fd_dirty = false;
  for (int i = 0; i < nth; i++)
    if (ths[i]->st == BLOCK_POLL && ths[i]->nfds > 0)
      {
        int r = (int) syscall (SYS_poll, ths[i]->fds, ths[i]->nfds, 0);
        if (r != 0) make_runnable (ths[i], false);
      }
}
static bool fire_deadlines (void)
{
  bool any = false;
  for (int i = 0; i < nth; i++)
    if ((ths[i]->st == BLOCK_KEY || ths[i]->st == BLOCK_POLL) && ths[i]->deadline <= now_ns) { make_runnable (ths[i], true); any = true; }
  if (ring_deliver_due (now_ns)) any = true;
  return any;
}
static int64_t next_deadline (void)
{
  int64_t m = ring_next_due ();
  for (int i = 0; i < nth; i++)
    if ((ths[i]->st == BLOCK_KEY || ths[i]->st == BLOCK_POLL) && ths[i]->deadline < m) m = ths[i]->deadline;
  return m;
}
// at least one runnable thread afterwards, or the run ends
static int runnable (Th **out)
{
  for (;;)
    {
      if (g_fd_dirty) { ring_fd_activity (); poll_check (); }
      int n = 0;
      for (int i = 0; i < nth; i++) if (ths[i]->st == RUN) out[n++] = ths[i];
      if (n) return n;
      if (fire_deadlines ()) { g_fd_dirty = true; continue; }
      ring_fd_activity ();
      poll_check ();
      for (int i = 0; i < nth; i++) if (ths[i]->st == RUN) n++;
      if (n || g_fd_dirty) continue;
      int64_t d = next_deadline ();
      if (d > horizon_ns && quiesce_wait && ths[0]->st == BLOCK_POLL) { quiesced = true; make_runnable (ths[0], true); continue; }
      if (d != INT64_MAX) { if (d > now_ns) now_ns = d; fire_deadlines (); g_fd_dirty = true; continue; }
      if (quiesce_wait && ths[0]->st == BLOCK_POLL) { quiesced = true; make_runnable (ths[0], true); continue; }
      sim_violation ("stuck", "every thread is blocked, no timer or I/O is outstanding and the workload has not finished");
    }
}
static void new_credit (void)
{
  if (mode == 0) { double u = rng_sched.unit (); credit = 1 + (int64_t) (-interval_mean * __builtin_log (1.0 - u)); }
  else if (pct_left > 0) { double u = rng_sched.unit (); credit = 1 + (int64_t) __builtin_pow (10.0, 0.7 + u * 3.6); }
  else credit = 1 << 28;
}
static Th *pick (Th **r, int n, Th *cur, bool preempt)
{
  if (mode == 0) return r[rng_sched.below (n)];
  Th *b = r[0];
  for (int i = 1; i < n; i++) if (r[i]->prio > b->prio) b = r[i];
  return b;
}
static void check_cap (void)
{
  if (steps > g_steps_cap)
    {
      if (!calm) { calm = true; calm_at = steps; g_steps_cap += g_steps_cap / 2; credit = 1; }
      else sim_violation ("livelock", "no completion within %lu steps, the last third of them under a fair schedule without faults", (unsigned long) steps);
    }
}
// blocked: the current thread cannot continue
static void resched (bool blocked)
{
  Th *r[512]; Th *me = self;
  int n = runnable (r);
  Th *nx;
  if (blocked)
    {
      // default: next runnable thread in cyclic order
      Th *def = r[0];
      for (int i = 0; i < n; i++) if (r[i]->id > me->id) { def = r[i]; break; }
      nx = def;
      if (rp.on)
        {
          while (me->ent < me->ent_end && me->ent->lstep < me->lsteps) me->ent++;
          if (me->ent < me->ent_end && me->ent->lstep == me->lsteps) { int w = me->ent->next; for (int i = 0; i < n; i++) if (r[i]->id == w) nx = r[i]; }
        }
      else if (!calm) nx = pick (r, n, me, false);
      if (nx != def) record (me, nx->id);
      switch_to (nx, me->st == DEAD);
      return;
    }
  nx = me;
  if (!rp.on)
    {
      nx = pick (r, n, me, true);
      if (nx != me) record (me, nx->id);
    }
  if (nx != me) { SH->preempts++; switch_to (nx); }
}
static void stall_now (void)
{
  int64_t d = next_deadline ();
  if (d == INT64_MAX) return;
  // only ordinary horizons: a stalled thread, not hours of it
  if (d > now_ns + 3600ll * 1000000000) return;
  record (self, -1); SH->fired[F_STALL]++; SH->opps[F_STALL]++;
  mix (hsh, 0x57A11);
  sim_trace ("stall: clock jumps to the next deadline");
  if (d > now_ns) now_ns = d;
  fire_deadlines (); g_fd_dirty = true;
}
static void round_robin (void)
{
  // calm phase: deterministic and fair, the same in search and replay
  Th *me = self; Th *r[512]; int n = runnable (r); me->slice = 0;
  Th *def = r[0];
  for (int i = 0; i < n; i++) if (r[i]->id > me->id) { def = r[i]; break; }
  if (def != me) switch_to (def);
}
static void slow (int kind)
{
  Th *me = self;
  if (steps > g_steps_cap) check_cap ();
  if (sig_pending && sig_points <= 0) { int s = sig_pending; sig_pending = 0; sim_raise_signal (s); }
  if (calm) { if (me->slice > 2000) round_robin (); return; }
  if (rp.on)
    {
      while (me->ent < me->ent_end && me->ent->lstep < me->lsteps) me->ent++;
      if (me->ent < me->ent_end && me->ent->lstep == me->lsteps)
        {
          int w = me->ent->next; me->ent++;
          if (w == -1) { stall_now (); return; }
          Th *r[512]; int n = runnable (r);
          for (int i = 0; i < n; i++) if (r[i]->id == w && r[i] != me) { record (me, w); SH->preempts++; switch_to (r[i]); return; }
        }
      return;
    }
  if (credit <= 0)
    {
      new_credit ();
      if (p_stall > 0 && rng_sched.unit () < p_stall) { stall_now (); return; }
      if (mode == 1 && pct_left > 0) { pct_left--; me->prio = --min_prio; }
    }
  if (mode == 1 && me->slice > fair_limit) { me->prio = --min_prio; me->slice = 0; }
  need_resched = false;
  resched (false);
}
static inline void world (void)
{
  if (g_fd_dirty) { ring_fd_activity (); poll_check (); }
  if (now_ns >= wake_ns) { fire_deadlines (); wake_ns = next_deadline (); }
}
void sim_pt (int kind)
{
  Th *me = self;
  if (!g_active || !me) return;
  if (sim_wb_n && kind == P_SYNC) sim_wb_drain ();
  me->lsteps++; me->slice++; steps++; now_ns += 15;
  world ();
  if (sig_pending) sig_points--;
  bool common = steps > g_steps_cap || (sig_pending && sig_points <= 0) || (calm && me->slice > 2000);
  if (rp.on) { if (common || (me->ent < me->ent_end && me->ent->lstep <= me->lsteps)) slow (kind); return; }
  credit -= kind == P_PLAIN ? wplain : kind == P_BITS ? wbits : wsync;
  if (common || credit <= 0 || need_resched || (mode == 1 && me->slice > fair_limit)) slow (kind);
}
extern "C" void sim_point (void) { sim_pt (P_SYNC); }

void sim_access (const void *p, size_t n, int kind, int is_write, const void *pc)
{
  if (!g_active) return;
  // A store to a bit-field loads and stores the bits around it with one instruction after this call, which we cannot interrupt
  // half way. Should another thread change those bits meanwhile they are put back to what they were: the load came first. (A
  // store that overwrites all of them is not affected.)
  bool rmw = is_write && kind == P_PLAIN && n <= 8 && shadow_at (p) == SHD_LIVE; uint64_t old = 0;
  if (rmw) memcpy (&old, p, n);
  sim_pt (rmw && n == 1 ? P_BITS : kind);
  uint8_t s = shadow_at (p);
  if (s == SHD_LIVE && rmw && memcmp (&old, p, n)) memcpy ((void *) p, &old, n);
  if (s != SHD_LIVE)
    {
      Dl_info di; const char *fn = dladdr (pc, &di) && di.dli_sname ? di.dli_sname : "?";
      sim_violation (s == SHD_FREED ? "memory:use-after-free" : "memory:out-of-bounds", "%s of %zu bytes %s in %s", is_write ? "write" : "read", n,
                     s == SHD_FREED ? "in a released heap block" : "outside any heap block", fn);
    }
}
extern "C" int sim_ptr_freed (const void *p) { return shadow_at (p) == SHD_FREED; }

// ------------------------------------------------------------ blocking
int sim_block_key (const void *key, int64_t deadline)
{
  Th *me = self;
  if (sim_wb_n) sim_wb_drain ();
  me->lsteps++; steps++; now_ns += 15;
  if (steps > g_steps_cap) check_cap ();
  me->st = BLOCK_KEY; me->key = key; me->deadline = deadline; me->timedout = false;
  if (deadline < wake_ns) wake_ns = deadline;
  resched (true);
  return me->timedout;
}
int sim_wake_key (const void *key, int n)
{
  Th *me = self; int woken = 0;
  if (sim_wb_n) sim_wb_drain ();
  me->lsteps++;
  while (woken < n)
    {
      Th *w[512]; int c = 0;
      for (int i = 0; i < nth; i++) if (ths[i]->st == BLOCK_KEY && ths[i]->key == key) w[c++] = ths[i];
      if (!c) break;
      int k = 0;
      if (c > 1 && n < c && woken == 0)
        {
          if (rp.on)
            {
              while (me->ent < me->ent_end && me->ent->lstep < me->lsteps) me->ent++;
              if (me->ent < me->ent_end && me->ent->lstep == me->lsteps && me->ent->next >= 1000) k = (me->ent->next - 1000) % c;
            }
          else if (!calm) k = rng_sched.below (c);
          if (k) record (me, 1000 + k);
        }
      make_runnable (w[k], false); woken++;
    }
  return woken;
}
int sim_poll (struct pollfd *fds, nfds_t n, int64_t timeout_ns)
{
  Th *me = self;
  sim_pt (P_SYNC);
  int r = (int) syscall (SYS_poll, fds, n, 0);
  if (r != 0) return r;
  if (timeout_ns == 0) { if (quiesce_wait) ; return 0; }
  me->lsteps++; steps++; now_ns += 15;
  if (steps > g_steps_cap) check_cap ();
  me->st = BLOCK_POLL; me->fds = fds; me->nfds = n; me->timedout = false;
  me->deadline = timeout_ns < 0 || timeout_ns > (1ll << 61) ? INT64_MAX : now_ns + timeout_ns;
  if (me->deadline < wake_ns) wake_ns = me->deadline;
  resched (true);
  return (int) syscall (SYS_poll, fds, n, 0);
}
extern "C" void sim_sleep_us (int64_t us) { static char k; sim_block_key ((const char *) &k + 0, now_ns + us * 1000); }

// ------------------------------------------------------------ threads
static void exit_dtor (void *v)
{
  uintptr_t k = (uintptr_t) v;
  if (k < 4 && self) { pthread_setspecific (exit_key, (void *) (k + 1)); return; }
  Th *me = self;
  if (!me || !g_active) return;
  me->lsteps++;
  me->st = DEAD;
  for (int i = 0; i < nth; i++) if (ths[i]->st == BLOCK_KEY && ths[i]->key == me) make_runnable (ths[i], false);
  resched (true);
  for (;;) pause ();
}
static void *tramp (void *p)
{
  self = (Th *) p; self->tcb = (uintptr_t) pthread_self (); self->sp = (uintptr_t) __builtin_frame_address (0) - 256;
  rfutex_wait (&self->baton);
  set_altstack ();
  pthread_setspecific (exit_key, (void *) 1);
  self->ret = self->fn (self->arg);
  return self->ret;
}
static Th *new_th (void)
{
  Internal guard;
  if (nth >= 500) sim_internal_error ("too many threads");
  Th *t = new Th ();
  t->id = nth; t->st = RUN; t->deadline = INT64_MAX;
  t->prio = mode == 1 ? (int) rng_sched.below (1000) + 1000 : 0;
  if (rp.on)
    {
      for (uint32_t i = 0; i < rp.nsched; i++) if (rp.sched[i].tid == t->id) t->mine.push_back (rp.sched[i]);
      std::stable_sort (t->mine.begin (), t->mine.end (), [] (const Sched &a, const Sched &b) { return a.lstep < b.lstep; });
      t->ent = t->mine.data (); t->ent_end = t->ent + t->mine.size ();
    }
  ths[nth++] = t;
  return t;
}
typedef int (*pc_fn) (pthread_t *, const pthread_attr_t *, void *(*) (void *), void *);
static pthread_t pts[512];
static struct { void *(*fn) (void *); void *arg; } deferred[8];
static int n_deferred;
int g_warming;
extern "C" void sim_start_glib_worker (void)
{
  pthread_t p; if (!n_deferred) sim_internal_error ("no worker of GLib"); 
  pthread_create (&p, NULL, deferred[n_deferred - 1].fn, deferred[n_deferred - 1].arg);
}
extern "C" int pthread_create (pthread_t *out, const pthread_attr_t *attr, void *(*fn) (void *), void *arg)
{
  static pc_fn real; if (!real) real = (pc_fn) dlsym (RTLD_NEXT, "pthread_create");
  if (g_warming)
    {
      // GLib's own threads (worker context, pool spawner): nothing runs before a run begins
      if (n_deferred == 8) sim_internal_error ("too many threads made during warm-up");
      deferred[n_deferred].fn = fn; deferred[n_deferred].arg = arg; *out = (pthread_t) 0x1000 + n_deferred++;
      return 0;
    }
  if (!g_active || !self) return real (out, attr, fn, arg);
  Th *t = new_th (); t->fn = fn; t->arg = arg;
  int r = real (out, NULL, tramp, t);
  if (r) sim_internal_error ("pthread_create: %d", r);
  pts[t->id] = *out;
  sim_trace ("thread t%d created", t->id);
  if (mode == 1) need_resched = true;
  sim_pt (P_SYNC);
  return 0;
}
extern "C" int pthread_join (pthread_t p, void **ret)
{
  for (int i = 1; i < nth; i++)
    if (pts[i] == p)
      {
        sim_pt (P_SYNC);
        if (ths[i] == self) sim_violation ("stuck", "a thread joins itself");
        while (ths[i]->st != DEAD) sim_block_key (ths[i], INT64_MAX);
        if (ret) *ret = ths[i]->ret;
        return 0;
      }
  typedef int (*pj_fn) (pthread_t, void **);
  static pj_fn real; if (!real) real = (pj_fn) dlsym (RTLD_NEXT, "pthread_join");
  return real (p, ret);
}
extern "C" int pthread_detach (pthread_t p)
{
  if (g_active) return 0;
  typedef int (*pd_fn) (pthread_t);
  static pd_fn real; if (!real) real = (pd_fn) dlsym (RTLD_NEXT, "pthread_detach");
  return real (p);
}
extern "C" int sim_thread_total (void) { return nth; }
extern "C" int sim_thread_ended (int id) { return id >= 0 && id < nth && ths[id]->st == DEAD; }
extern "C" int sim_thread_count_alive (void) { int n = 0; for (int i = 0; i < nth; i++) n += ths[i]->st != DEAD; return n; }

// ------------------------------------------------------------ roots
// A mapping that is the stack of a thread begins where that thread is; of a finished thread only its thread area counts, and the
// stacks of fibers count only while there are fibers.
extern "C" int sim_fibers_alive (void);
uintptr_t sim_root_start (uintptr_t s, uintptr_t e, uintptr_t sp)
{
  if (sp >= s && sp < e) return sp;
  for (int i = 0; i < nth; i++)
    {
      Th *t = ths[i];
      if (t == self) { if (t->tcb >= s && t->tcb < e) return s; continue; }
      if (t->st == DEAD) { if (t->tcb >= s && t->tcb < e) return std::max (s, t->tcb - 6144); }
      else if (t->sp >= s && t->sp < e) return t->sp;
      else if (t->tcb >= s && t->tcb < e) return s;
    }
  if (sim_is_mapped_by_libdex (s, e) && !sim_fibers_alive ()) return e;
  return s;
}
bool sim_root_word (int i, uintptr_t *w)
{
  int t = i / 9, k = i % 9; if (t >= nth) return false;
  Th *h = ths[t]; *w = 0;
  if (k < 6) { if (h->st != DEAD) *w = h->regs[k]; } else if (h->st != DEAD) *w = k == 6 ? (uintptr_t) h->arg : 0;
  if (k == 8) *w = (uintptr_t) h->ret;
  return true;
}
// ------------------------------------------------------------ signals
extern "C" void sim_raise_signal (int s)
{
  struct sigaction sa; sigaction (s, NULL, &sa);
  if (sa.sa_handler == SIG_DFL || sa.sa_handler == SIG_IGN) { sim_probe ("signal_without_handler"); return; }
  sim_fault_fired (F_SIGNAL);
  sim_trace ("signal %d", s);
  if (sa.sa_flags & SA_SIGINFO) { siginfo_t si; memset (&si, 0, sizeof si); si.si_signo = s; sa.sa_sigaction (s, &si, NULL); }
  else sa.sa_handler (s);
}
extern "C" void sim_signal_later (int s, int points) { sig_pending = s; sig_points = points; }

// ------------------------------------------------------------ run control
void sim_begin (uint64_t seed, const Replay &r)
{
  Rng root { seed * 0x9E3779B97F4A7C15ull + 0x1234567 };
  rng_gen.s = root.next (); rng_sched.s = root.next (); g_rng_fault.s = root.next ();
  rp = r;
  if (rp.on) { Internal guard; for (uint32_t i = 0; i < rp.nfault; i++) if (rp.fault[i].kind >= 0 && rp.fault[i].kind < F_NUM) rfaults[rp.fault[i].kind].push_back (&rp.fault[i]); }
  now_ns = 1000000000ll * 100000;
  mode = rng_sched.below (100) < 48 ? 1 : 0;
  { double u = rng_sched.unit (); interval_mean = __builtin_pow (10.0, 0.5 + 3.0 * u); }
  { static const int wp[] = { 0, 0, 1, 1, 1, 1 }, ws[] = { 1, 4, 10 }; wplain = wp[rng_sched.below (6)]; wsync = ws[rng_sched.below (3)]; if (mode == 1 && wplain == 0) wsync = 10; wbits = rng_sched.below (3) ? wplain : 40; }
  pct_left = rng_sched.below (8); fair_limit = (uint64_t) __builtin_pow (10.0, 3.3 + 1.4 * rng_sched.unit ());
  min_prio = 1000;
  p_stall = rng_sched.below (3) == 0 ? 0.02 + 0.2 * rng_sched.unit () : 0;
  frate[F_SPURIOUS] = g_rng_fault.below (3) == 0 ? 0.1 : 0;
  run_nowake = sim_chance (1, 2);
  run_reuse = sim_chance (12, 100); alloc_set_reuse (run_reuse);   // a generator choice, so that it replays
  sim_wb_on = sim_chance (1, 2);
  alloc_begin_run ();
  sim_fresh_eventfds ();
  pthread_key_create (&exit_key, exit_dtor);
  if (rp.on) { mode = 0; }
  nth = 0;
  if (getenv ("DEXSIM_WATCH")) alloc_watch ((void *) strtoul (getenv ("DEXSIM_WATCH"), NULL, 0));
  Th *t = new_th (); self = t; pts[0] = pthread_self (); t->tcb = (uintptr_t) pts[0];
  new_credit ();
  g_active = true;
  alarm (100);
}
extern "C" void sim_horizon_us (int64_t us) { horizon_ns = us > INT64_MAX / 1000 ? INT64_MAX : us * 1000; }
extern "C" void sim_clock_jump_us (int64_t us) { sim_fault_fired (F_STALL); sim_trace ("clock jumps by %lld us", (long long) us); now_ns += us * 1000; sim_pt (P_SYNC); }
extern "C" void sim_calm (void) { calm = true; for (int i = 0; i < F_NUM; i++) frate[i] = 0; sim_pt (P_SYNC); }
extern "C" void sim_always_wake (void) { run_nowake = false; }
extern "C" void sim_wake_main (void) { if (!run_nowake) g_main_context_wakeup (NULL); else sim_pt (P_SYNC); }
extern "C" int sim_run_until (int (*pred) (void *), void *data)
{
  bool outer = quiesce_wait;   // (of a callback that runs the main loop itself)
  quiesce_wait = true; quiesced = false;
  int ok;
  while (!(ok = pred (data)) && !quiesced)
    {
      uint64_t sigs = SH->fired[F_SIGNAL];
      bool worked = g_main_context_iteration (NULL, TRUE);
      // nothing woke the main loop, and yet it finds something to do
      if (quiesced && horizon_ns == INT64_MAX)
        for (int i = 0; SH->fired[F_SIGNAL] == sigs; i++)   // (a signal may hit just now)
          {
            if (worked) sim_violation ("stuck:lost-wakeup", "the main loop slept for ever although one of its sources was ready");
            if (i == 2) break;
            uint64_t n = g_ring_submitted;
            worked = g_main_context_iteration (NULL, FALSE) || g_ring_submitted != n;
          }
    }
  quiesce_wait = outer;
  if (outer) quiesced = false;
  return ok || pred (data);
}
static int never (void *) { return 0; }
extern "C" void sim_quiesce (void) { sim_run_until (never, NULL); }

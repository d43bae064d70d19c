// C11: a thread pool dropped at any moment. C24: thread pools created under failures.
#include "wl.h"
struct Job { int id, started = 0, finished = 0, tid = -1; int kids = 0, stay = 0, kind = 0, burst = 1; bool pushed = false; };
struct Aio11 { DexFuture *f; uint8_t *buf; bool pipe; };
struct PoolRun { bool leftovers = false;
  std::vector<Aio11> aio; std::vector<DexPromise *> promises; std::vector<DexFuture *> futs; std::vector<std::unique_ptr<Cb>> cbs; int file = -1, pipe[2] = { -1, -1 };
  DexScheduler *s = NULL; int lo = 0, hi = 0; bool dropped = false; int running = 0;
  std::vector<std::unique_ptr<Job>> jobs;
};
static PoolRun *R;
static void push_job (Job *j);
static Job *new_job (int depth)
{
  auto j = std::make_unique<Job> (); j->id = (int) R->jobs.size ();
  if (depth == 0) { j->kids = sim_chance (1, 3) ? sim_range (1, 3) : 0; if (sim_chance (1, 4)) j->stay = 1 + sim_choose (3) * 50; j->kind = sim_chance (1, 2) ? sim_choose (3) : 3 + sim_choose (5); if ((j->kind == 3 || j->kind == 4) && sim_chance (1, 10)) { j->burst = sim_range (30, 42); sim_probe ("burst_of_io"); } }
  Job *q = j.get (); R->jobs.push_back (std::move (j)); return q;
}
// what a job leaves behind when it returns
static void leave_behind (Job *j)
{
  if (j->kind >= 5) R->leftovers = true;
  switch (j->kind)
    {
    case 3: case 4:   // an operation in flight
      for (int i = 0; i < j->burst; i++)   // more than the ring takes at once
      {
        Aio11 a; a.pipe = j->kind == 4; a.buf = (uint8_t *) calloc (1, 8);
        a.f = dex_aio_read (NULL, a.pipe ? R->pipe[0] : R->file, a.buf, 8, a.pipe ? -1 : 0);
        R->aio.push_back (a);
      }
      break;
    case 5:           // a callback whose future completes at some point
      {
        DexPromise *p = dex_promise_new (); DexFuture *f = fref (p); R->promises.push_back (p);
        R->cbs.push_back (std::make_unique<Cb> ()); Cb *c = R->cbs.back ().get (); c->id = j->id;
        R->futs.push_back (dex_future_finally (f, cb_call, c, cb_free)); break;
      }
    case 6:           // a timeout
      R->futs.push_back (dex_timeout_new_usec (1 + (j->id % 4) * 40)); break;
    }
}
static void job_body (Job *j)
{
  SIM_CHECK ("push:twice", j->started == 0, "job %d started twice", j->id);
  SIM_CHECK ("pool:runs-after-drop", !R->dropped, "job %d runs after the drop of the pool returned", j->id);
  j->started++; j->tid = sim_self (); R->running++;
  SIM_CHECK ("push:wrong-thread", j->tid >= R->lo && j->tid < R->hi, "job %d ran on thread %d", j->id, j->tid);
  if (j->stay) sim_sleep_us (j->stay); else sim_point ();
  for (int k = 0; k < j->kids; k++)
    { auto c = std::make_unique<Job> (); c->id = (int) R->jobs.size (); Job *q = c.get (); R->jobs.push_back (std::move (c)); q->pushed = true; dex_scheduler_push (DEX_SCHEDULER (dex_scheduler_get_thread_default ()), [] (gpointer p) { job_body ((Job *) p); }, q); }
  leave_behind (j);
  sim_point ();
  R->running--; j->finished++;
}
static DexFuture *fiber_body (gpointer p)
{
  Job *j = (Job *) p; job_body (j);
  if (j->kind == 7)   // a fiber that waits: it may never go on once the pool is dropped
    {
      DexPromise *pr = dex_promise_new (); DexFuture *f = fref (pr); R->promises.push_back (pr);
      int me = sim_self (); dex_await_boolean (f, NULL);
      SIM_CHECK ("fiber:thread", sim_self () == me, "a fiber went on on another thread");
      SIM_CHECK ("pool:runs-after-drop", !R->dropped, "a fiber runs after the drop of the pool returned");
    }
  return dex_future_new_for_int (j->id);
}
static void push_job (Job *j)
{
  j->pushed = true;
  if (j->kind == 2 || j->kind == 7) dex_unref (dex_scheduler_spawn (R->s, 0, fiber_body, j, NULL));
  else dex_scheduler_push (R->s, [] (gpointer p) { job_body ((Job *) p); }, j);
}
SIM_WORKLOAD (C11)
{
  PoolRun r; R = &r; leak_begin (); int rings = sim_ring_count ();
  sim_expect_log ("items still in it"); sim_expect_log ("destroyed while timer was active");
  sim_set_nprocs (2 * sim_range (1, 4));
  int rounds = sim_range (1, 2);
  r.file = sim_file_new (64); if (pipe (r.pipe)) sim_violation ("harness:pipe", "pipe");
  static const double rates[] = { 0, 0.2, 0.6 };
  for (int k : { F_IO_ERROR, F_IO_DELAY, F_SUBMIT }) sim_fault_rate (k, rates[sim_choose (3)]);
  bool early = sim_chance (1, 2), idle = true;
  for (int round = 0; round < rounds; round++)
    {
      r.jobs.clear (); r.dropped = false;
      r.lo = sim_thread_total (); r.s = dex_thread_pool_scheduler_new (); r.hi = sim_thread_total ();
      int npush = sim_range (0, 2); std::vector<std::vector<Job *>> prog (npush + 1);
      sim_note (" %d workers, jobs", r.hi - r.lo);
      for (auto &p : prog) { int n = sim_range (0, 5); sim_note (" %d", n); for (int k = 0; k < n; k++) p.push_back (new_job (0)); }
      int dropper = sim_choose (2), when = sim_choose (3);
      if (when != 2) idle = false;
      Threads T;
      for (int t = 0; t < npush; t++)
        { dex_ref (r.s); T.go ([&prog, t] { for (Job *j : prog[t]) push_job (j); dex_unref (R->s); }); }   // every pusher has its own reference
      for (Job *j : prog[npush]) push_job (j);
      int refs = 1; (void) refs;
      if (early) { sim_point (); for (size_t k = 0; k < r.promises.size (); k++) if (r.promises[k] && sim_chance (1, 2)) { dex_promise_resolve_boolean (r.promises[k], TRUE); dex_clear (&r.promises[k]); } }
      if (when == 1) T.run ();
      if (when == 2) { T.run (); sim_quiesce (); sim_probe ("dropped_idle"); }
      if (dropper == 0) { dex_unref (r.s); if (T.alive == 0) r.dropped = true; }
      else { T.go ([&] { dex_unref (R->s); }); }
      T.run ("stuck:drop-never-returns");
      // every reference is gone now, and every dex_unref() returned
      r.dropped = true; sim_eval ();
      for (auto &j : r.jobs) SIM_CHECK ("pool:job-cut-off", j->started == j->finished, "job %d was started %d times and finished %d times when the drop returned", j->id, j->started, j->finished);
      for (int t = r.lo; t < r.hi; t++) SIM_CHECK ("pool:thread-left", sim_thread_ended (t), "worker thread %d still runs although the pool was dropped", t);
      if (when == 2) for (auto &j : r.jobs) SIM_CHECK ("push:lost", j->finished == 1, "job %d did not run", j->id);
      // futures of the pool's jobs can still be completed, read and dropped
      for (DexPromise *&p : r.promises) if (p) { if (sim_chance (1, 2)) dex_promise_resolve_boolean (p, TRUE); dex_clear (&p); }
      sim_quiesce ();
      for (auto &a : r.aio) if (a.pipe) { if (write (r.pipe[1], "abcdefgh", 8) != 8) sim_violation ("harness:pipe", "write"); }
      sim_quiesce ();
      for (DexFuture *&f : r.futs) dex_clear (&f);
      r.futs.clear (); r.promises.clear ();
      sim_quiesce ();
      for (auto &a : r.aio)
        {
          SIM_CHECK ("io:pending-forever", outcome (a.f) != "pending", "an operation started by a job (%s) is still pending although the pool was dropped and nothing else can happen", a.pipe ? "pipe" : "file");
          dex_unref (a.f); free (a.buf);
        }
      r.aio.clear ();
      sim_quiesce ();
    }
  // callbacks, timeouts and fibers that wait for ever keep the worker they belong to
  if (r.leftovers) { sim_probe ("leftovers"); return; }
  SIM_CHECK ("leak:rings", sim_ring_count () == rings, "%d I/O rings of dropped pools still exist", sim_ring_count () - rings);
  SIM_CHECK ("leak:io", sim_track_live_type ("DexUringFuture") + sim_track_live_type ("DexPosixAioFuture") == 0, "%d I/O operations of dropped pools still exist", sim_track_live_type ("DexUringFuture") + sim_track_live_type ("DexPosixAioFuture"));
  SIM_CHECK ("leak:pool", sim_track_live_type ("DexThreadPoolScheduler") == 0 && sim_track_live_type ("DexThreadPoolWorker") == 0, "%d pools and %d workers still exist", sim_track_live_type ("DexThreadPoolScheduler"), sim_track_live_type ("DexThreadPoolWorker"));
  if (idle) leak_end ("C11");   // what is still queued when a pool is dropped is reported, and given up
}

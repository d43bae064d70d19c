// C24: thread pools created under spurious wakeups and failing rings, event counters and descriptor calls.
#include "wl.h"
struct J24 { int id, runs = 0, tid = -1, lo, hi; bool fiber = false; DexFuture *f = NULL; int release = 0; };
static void j24_run (J24 *j)
{
  SIM_CHECK ("push:twice", j->runs == 0, "job %d ran twice", j->id);
  j->runs++; j->tid = sim_self ();
  SIM_CHECK ("push:wrong-thread", j->tid >= j->lo && j->tid < j->hi, "job %d ran on thread %d, not one of the pool's threads %d..%d", j->id, j->tid, j->lo, j->hi - 1);
}
static void j24_job (gpointer p) { j24_run ((J24 *) p); }
static DexFuture *j24_fiber (gpointer p) { J24 *j = (J24 *) p; j24_run (j); return dex_future_new_for_int (j->id); }
static void j24_free (gpointer p) { ((J24 *) p)->release++; }
SIM_WORKLOAD (C24)
{
  leak_begin ();
  sim_expect_log ("Failed to create"); sim_expect_log ("thread pool");   // reporting the failure is allowed
  int n = 2 * sim_range (1, 4); sim_set_nprocs (n);
  static const double rates[] = { 0, 0, 0.1, 0.4, 1 };
  int ri = sim_choose (5), rr = sim_choose (5), re = sim_choose (5); bool eintr = sim_chance (1, 3);
  if (sim_chance (1, 2)) sim_fault_rate (F_SPURIOUS, 0.4);
  sim_fault_rate (F_RING_INIT, rates[ri]); sim_fault_rate (F_RING_REG, rates[rr] / 2); sim_fault_rate (F_EVENTFD, rates[re] / 2);
  if (eintr) sim_fault_rate (F_EINTR, 0.3);
  int lo = sim_thread_total ();
  DexScheduler *s = dex_thread_pool_scheduler_new ();
  int hi = sim_thread_total ();
  sim_fault_rate (F_RING_INIT, 0); sim_fault_rate (F_RING_REG, 0); sim_fault_rate (F_EVENTFD, 0);
  int alive = 0; for (int t = lo; t < hi; t++) alive += !sim_thread_ended (t);
  sim_note ("%d workers wanted, %d threads, %d alive, init %g reg %g eventfd %g", n / 2, hi - lo, alive, rates[ri], rates[rr], rates[re]);
  if (s == NULL) { sim_probe ("creation_failed"); SIM_CHECK ("pool:refused", rates[ri] + rates[rr] + rates[re] > 0 && sim_uring (), "no pool although nothing failed"); sim_quiesce (); leak_end ("refused pool"); return; }
  if (hi - lo < n / 2 || alive < n / 2) { sim_probe ("fewer_workers"); SIM_CHECK ("pool:workers", sim_uring () && rates[ri] + rates[rr] + rates[re] > 0, "only %d workers although nothing failed", hi - lo); }
  int nj = sim_range (1, 8), npush = sim_range (1, 2);
  std::vector<std::unique_ptr<J24>> jobs;
  for (int i = 0; i < nj; i++) { auto j = std::make_unique<J24> (); j->id = i; j->lo = lo; j->hi = hi; j->fiber = sim_chance (1, 2); jobs.push_back (std::move (j)); }
  Threads T;
  auto push = [&] (J24 *j) { if (j->fiber) j->f = dex_scheduler_spawn (s, 0, j24_fiber, j, j24_free); else dex_scheduler_push (s, j24_job, j); };
  for (int t = 1; t < npush; t++) T.go ([&, t] { for (int i = t; i < nj; i += npush) push (jobs[i].get ()); });
  for (int i = 0; i < nj; i += npush) push (jobs[i].get ());
  T.run ();
  sim_quiesce ();
  for (auto &j : jobs)
    {
      SIM_CHECK ("push:lost", j->runs == 1, "%s %d never ran although nothing else can happen", j->fiber ? "fiber" : "job", j->id); sim_eval ();
      if (j->fiber) { SIM_CHECK ("fiber:outcome", outcome (j->f) == "gint:" + std::to_string (j->id), "fiber %d: %s", j->id, outcome (j->f).c_str ()); SIM_CHECK ("fiber:data", j->release == 1, "data released %d times", j->release); dex_unref (j->f); }
    }
  dex_unref (s);
  sim_quiesce ();
  leak_end ("C24");
}

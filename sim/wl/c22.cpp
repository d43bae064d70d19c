// C22: chains, sets, fibers and timeouts that are disowned, while every other reference and consumer is dropped.
#include "wl.h"
namespace {
struct Un {
  int id, kind = 0, where = 0, by = -1, nb = 0; Val v; int bk[4] = {}; bool nested[4] = {}; std::vector<int> droppers; bool early = false, ref_kept = false, again = false;
  DexPromise *p = NULL, *q = NULL; DexPromise *np[4] = {}; GCancellable *c = NULL; Cb cb[4]; std::vector<DexFuture *> extra;
  bool inv = false, disowned = false, early_drop = false; int64_t due = 0; int ran = 0, freed = 0; int nby[4] = {}; bool ninv[4] = {};
};
std::vector<std::unique_ptr<Un>> UN;
DexFuture *unit_fiber (gpointer d)
{
  Un *u = (Un *) d; GError *e = NULL; u->ran++;
  dex_await (fref (u->p), &e); std::string got = e ? error_repr (e) : "value"; g_clear_error (&e);
  SIM_CHECK ("disown:early", u->inv, "the disowned fiber %d went on before what it awaits is complete", u->id);
  u->ran++; return NULL;
}
void unit_freed (gpointer d) { ((Un *) d)->freed++; }
void start (Un *u)
{
  DexFuture *f;
  switch (u->kind)
    {
    case 1: f = dex_scheduler_spawn (dex_scheduler_get_thread_default () ? dex_scheduler_get_thread_default () : main_sched (), 0, unit_fiber, u, unit_freed); break;
    case 2: u->due = sim_now_us () + 1000 * u->id; f = dex_timeout_new_msec (u->id); break;
    case 3: f = dex_future_all (fref (u->p), fref (u->q), NULL); break;
    default: f = fref (u->p);
    }
  for (int k = 0; k < u->nb; k++)
    {
      Cb *cb = &u->cb[k]; cb->id = u->id * 10 + k; DexPromise *np = u->np[k];
      cb->fn = [u, k, np] (DexFuture *x) -> DexFuture * {
        std::string o = outcome (x); sim_eval ();
        SIM_CHECK ("disown:twice", u->cb[k].calls == 1, "callback %d of disowned unit %d ran %d times", k, u->id, u->cb[k].calls);
        if (u->kind == 2) SIM_CHECK ("disown:early", sim_now_us () >= u->due, "the disowned timeout %d fired early", u->id); else SIM_CHECK ("disown:early", u->inv, "callback %d of disowned unit %d ran before the work is done", k, u->id);
        return np ? fref (np) : NULL; };
      f = block_new (u->bk[k], f, cb);
    }
  if (u->again && u->where != 4) { dex_future_disown (fref (f)); sim_probe ("disowned_twice"); }
  dex_future_disown (f);
  u->disowned = true; sim_wake_main ();
}
}
SIM_WORKLOAD (C22)
{
  sim_set_nprocs (2 * sim_range (1, 2)); UN.clear ();
  int n = sim_range (1, 4), nth = sim_range (1, 3);
  DexScheduler *pool = sim_chance (3, 4) ? dex_thread_pool_scheduler_new () : NULL;
  leak_begin ();
  for (int i = 0; i < n; i++)
    {
      auto u = std::make_unique<Un> (); u->id = i + 1; u->kind = sim_choose (4); u->where = sim_choose (pool ? 4 : 2); u->v = val_draw (i + 1); if (u->kind == 3) u->v.kind = K_INT;
      u->nb = u->kind == 0 ? sim_range (0, 4) : sim_choose (4); u->by = sim_choose (nth); u->early = sim_chance (1, 4); u->again = sim_chance (1, 5);
      for (int k = 0; k < u->nb; k++) { u->bk[k] = sim_choose (3); if (sim_chance (1, 5)) { u->np[k] = dex_promise_new (); u->nby[k] = sim_choose (nth); } }
      u->p = dex_promise_new_cancellable (); u->c = dex_promise_get_cancellable (u->p); if (u->c) g_object_ref (u->c); if (u->kind == 3) u->q = dex_promise_new ();
      for (int k = sim_choose (3); k > 0; k--) u->droppers.push_back (sim_choose (nth));
      sim_note ("%s %d:%s on %d, %d blocks, %zu other consumers%s", i ? "," : "", u->id, u->kind == 1 ? "fiber" : u->kind == 2 ? "timeout" : u->kind == 3 ? "set" : "promise", u->where, u->nb, u->droppers.size (), u->early ? ", complete" : "");
      UN.push_back (std::move (u));
    }
  enum { DONE, DONE2, NDONE, DROP, SLEEP };
  struct Step { int what, arg, k; };
  std::vector<std::vector<Step>> prog (nth);
  auto add = [&] (int th, Step s) { auto &v = prog[th]; v.insert (v.begin () + sim_range (0, (int) v.size ()), s); };
  for (int i = 0; i < n; i++)
    {
      Un *u = UN[i].get ();
      if (!u->early) { add (u->by, { DONE, i, 0 }); if (u->q) add (sim_choose (nth), { DONE2, i, 0 }); }
      for (int k = 0; k < u->nb; k++) if (u->np[k]) add (u->nby[k], { NDONE, i, k });
      for (size_t k = 0; k < u->droppers.size (); k++) { u->extra.push_back (dex_future_all (fref (u->p), NULL)); add (u->droppers[k], { DROP, i, (int) k }); }
    }
  for (int k = sim_choose (4); k > 0; k--) add (sim_choose (nth), { SLEEP, 1 + sim_choose (8), 0 });
  auto done = [] (Un *u) { if (u->inv) return; u->inv = true; val_resolve (u->p, u->v); };
  for (auto &u : UN) if (u->early) { done (u.get ()); if (u->q) dex_promise_resolve_int (u->q, 1); }
  Threads T;
  for (int t = 0; t < nth; t++)
    T.go ([&, t] {
      for (auto &s : prog[t])
        {
          Un *u = s.what == SLEEP ? NULL : UN[s.arg].get ();
          switch (s.what)
            {
            // the work ends only if nobody asked it to stop
            case DONE: if (u->disowned && !u->early_drop) SIM_CHECK ("disown:cancelled", !u->c || !g_cancellable_is_cancelled (u->c) || u->kind == 1 || u->kind == 2, "disowned unit %d was cancelled", u->id); done (u); break;
            case DONE2: dex_promise_resolve_int (u->q, 1); break;
            case NDONE: dex_promise_resolve_int (u->np[s.k], 2); break;
            // a consumer beside the disowned one; made before it, so it may be the last one for a while
            case DROP: { bool dis = u->disowned; if (!dis) u->early_drop = true; DexFuture *x = u->extra[s.k]; u->extra[s.k] = NULL; bool before = u->c && g_cancellable_is_cancelled (u->c);
              dex_unref (x);
              if (dis && !before && u->kind != 1 && u->kind != 2 && (u->nb || u->kind == 0)) SIM_CHECK ("disown:cancelled", !u->c || !g_cancellable_is_cancelled (u->c) || u->inv, "disowned unit %d was cancelled when another consumer went away", u->id);
              break; }
            case SLEEP: sim_sleep_us (s.arg * 1000); break;
            }
        }
    });
  for (auto &up : UN)
    {
      Un *u = up.get ();
      // the consumers dropped before the unit is disowned may have cancelled it
      switch (u->where)
        {
        case 0: start (u); break;
        case 1: dex_unref (dex_scheduler_spawn (main_sched (), 0, [] (gpointer p) -> DexFuture * { start ((Un *) p); return dex_future_new_true (); }, u, NULL)); break;
        case 2: dex_scheduler_push (pool, [] (gpointer p) { start ((Un *) p); }, u); break;
        default: dex_unref (dex_scheduler_spawn (pool, 0, [] (gpointer p) -> DexFuture * { start ((Un *) p); return dex_future_new_true (); }, u, NULL));
        }
    }
  // our own references go at an arbitrary moment
  T.run ();
  if (!run_until ([&] { for (auto &u : UN) if (!u->disowned) return false; return true; })) sim_violation ("stuck:fiber", "a unit was never started");
  sim_calm (); sim_quiesce ();
  for (auto &u : UN)
    {
      bool err = u->kind == 2 || ((u->kind == 0) && u->v.kind == K_ERROR);
      if (u->kind == 1) err = true;    // the fiber returns nothing
      if (u->kind == 3) err = false;   // q resolves
    
      for (int k = 0; k < u->nb; k++)
        {
          bool runs = u->bk[k] == 2 || (u->bk[k] == 0 && !err) || (u->bk[k] == 1 && err); sim_eval ();
          SIM_CHECK ("disown:callback", u->cb[k].calls == (runs ? 1 : 0), "callback %d (%s) of disowned unit %d ran %d times", k, block_name (u->bk[k]), u->id, u->cb[k].calls);
          if (runs && u->np[k]) err = false;
        }
      if (u->kind == 1) SIM_CHECK ("disown:fiber", u->ran == 2, "the disowned fiber %d ended at step %d of 2", u->id, u->ran);
      for (auto x : u->extra) if (x) dex_unref (x);
      dex_unref (u->p); dex_clear (&u->q); for (int k = 0; k < 4; k++) dex_clear (&u->np[k]); if (u->c) g_object_unref (u->c);
    }
  sim_quiesce ();
  for (auto &u : UN)
    {
      for (int k = 0; k < u->nb; k++) SIM_CHECK ("callback:data-not-released", u->cb[k].freed == 1, "data of callback %d of disowned unit %d released %d times", k, u->id, u->cb[k].freed);
      if (u->kind == 1) SIM_CHECK ("callback:data-not-released", u->freed == 1, "the data of disowned fiber %d was released %d times", u->id, u->freed);
    }
  leak_end ("C22");
  SIM_CHECK ("leak:values", wl_objects_alive == 0, "%d values leaked", wl_objects_alive);
  if (pool) { dex_unref (pool); }
  sim_quiesce ();
}

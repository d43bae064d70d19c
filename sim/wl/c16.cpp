// C16: timeouts made on every kind of thread, postponed, hastened, raced against other futures, dropped, with stalls and clock jumps.
#include "wl.h"
struct To {
  int id, where, cons, form; int64_t delay = 0; bool huge = false; int drop_by = -1, first_by = -1;
  std::vector<std::pair<int64_t, int>> posts;     // delay from then, index of the poster
  DexFuture *f = NULL, *c = NULL; DexPromise *other = NULL; Cb cb; GMainContext *ctx = NULL;
  int64_t lo = 0, hi = 0;                          // it may not fire before lo, and must have fired by hi
  bool made = false, dropped = false, fired = false; int64_t at = 0;
};
struct C16 { std::vector<std::unique_ptr<To>> t; };
static const int64_t YEAR = 365ll * 86400 * 1000000;
static void to_fired (To *t, const char *how)
{
  int64_t now = sim_now_us (); sim_eval ();
  SIM_CHECK ("timeout:early", now >= t->lo, "timeout %d fired at %lld us, not due before %lld us (%s)", t->id, (long long) now, (long long) t->lo, how);
  if (!t->fired) { t->fired = true; t->at = now; }
}
static void to_look (To *t, const char *how)
{
  std::string o = outcome (t->f);
  if (o == "pending") return;
  SIM_CHECK ("timeout:outcome", is_dex_error (o, DEX_ERROR_TIMED_OUT), "timeout %d gave %s", t->id, o.c_str ());
  to_fired (t, how);
}
static void to_make (To *t)
{
  int64_t now = sim_now_us ();
  // the clock moves on while the timeout is made
  t->lo = now + t->delay;
  switch (t->form)
    {
    case 0: t->f = dex_timeout_new_usec (t->delay); break;
    case 1: t->f = dex_timeout_new_deadline (now + t->delay); break;
    case 2: t->f = dex_timeout_new_msec ((int) (t->delay / 1000)); break;
    case 3: t->f = dex_timeout_new_seconds ((int) (t->delay / 1000000)); break;
    case 4: t->f = dex_timeout_new_deadline (G_MAXINT64); t->lo = INT64_MAX; break;
    case 5: t->f = dex_timeout_new_usec (G_MAXINT64 - now - 1000000000); t->lo = INT64_MAX - 1000000000; break;
    case 6: t->f = dex_timeout_new_msec (G_MAXINT); t->lo = now + G_MAXINT * 1000ll; break;
    case 7: t->f = dex_timeout_new_seconds (G_MAXINT); t->lo = now + G_MAXINT * 1000000ll; break;
    case 9: t->f = dex_timeout_new_usec (G_MAXINT64); t->lo = INT64_MAX; break;
    case 8: t->f = dex_timeout_new_deadline (now - 1 - t->delay); t->lo = now; break;
    }
  t->hi = t->form == 4 || t->form == 5 || t->form == 9 ? INT64_MAX : std::max (t->lo, sim_now_us () + (t->form <= 3 ? t->delay : 0));
  t->cb.id = t->id; t->cb.fn = [t] (DexFuture *f) -> DexFuture * {
    SIM_CHECK ("timeout:outcome", is_dex_error (outcome (f), DEX_ERROR_TIMED_OUT), "the callback of timeout %d got %s", t->id, outcome (f).c_str ());
    SIM_CHECK ("timeout:fires-twice", t->cb.calls == 1, "the callback of timeout %d ran %d times", t->id, t->cb.calls);
    to_fired (t, "callback"); return NULL;
  };
  switch (t->cons)
    {
    case 1: t->c = dex_future_finally (fref (t->f), cb_call, &t->cb, cb_free); break;
    case 2: t->c = dex_future_catch (fref (t->f), cb_call, &t->cb, cb_free); break;
    case 3: t->other = dex_promise_new (); t->c = dex_future_first (fref (t->f), fref (t->other), NULL); break;
    case 4: t->other = dex_promise_new (); t->c = dex_future_any (fref (t->f), fref (t->other), NULL); break;
    }
  t->made = true; t->ctx = g_main_context_get_thread_default ();
}
static void to_postpone (To *t, int64_t d)
{
  int64_t nd = sim_now_us () + d, old_lo = t->lo, old_hi = t->hi;
  t->lo = std::min (old_lo, nd); t->hi = std::max (old_hi, nd);
  dex_timeout_postpone_until ((DexTimeout *) t->f, nd);
  if (sim_now_us () < old_lo) { t->lo = t->hi = nd; if (nd > old_hi) sim_probe ("postponed"); else sim_probe ("hastened"); }
  else sim_probe ("postponed_too_late");
}
SIM_WORKLOAD (C16)
{
  sim_expect_log ("destroyed while timer was active");
  sim_always_wake ();   // a timer may be due in a hundred years
  sim_set_nprocs (2 * sim_range (1, 2));
  int n = sim_range (1, 4), nth = sim_range (1, 3); C16 w;
  DexScheduler *pool = sim_chance (2, 3) ? dex_thread_pool_scheduler_new () : NULL;
  leak_begin ();
  static const int64_t delays[] = { 0, 1, 10, 40, 200, 1000, 5000, 60000, 1000000 };
  for (int i = 0; i < n; i++)
    {
      auto t = std::make_unique<To> (); t->id = i; t->where = sim_choose (pool ? 4 : 2);   // main, plain thread, pool worker, fiber on the pool
      t->form = sim_chance (1, 5) ? 4 + sim_choose (6) : sim_choose (4); t->huge = t->form >= 4 && t->form != 8;
      t->delay = delays[sim_choose (9)]; if (t->form == 2) t->delay = sim_choose (4) * 1000; if (t->form == 3) t->delay = sim_choose (3) * 1000000;
      t->cons = t->where == 1 ? (sim_chance (1, 2) ? 3 : 0) : sim_choose (5);
      int np = sim_chance (1, 2) ? sim_choose (3) : 0; int poster = sim_choose (nth);
      for (int k = 0; k < np; k++) t->posts.push_back ({ sim_chance (1, 12) ? 50 * YEAR : delays[sim_choose (9)], poster });
      if (sim_chance (1, 3)) t->drop_by = sim_choose (nth);
      if ((t->cons == 3 || t->cons == 4) && sim_chance (1, 2)) t->first_by = sim_choose (nth);
      sim_note ("%s t%d(%s,%lldus,on %d,cons %d", i ? "," : "", i, t->huge ? "huge" : t->form == 8 ? "past" : "", (long long) t->delay, t->where, t->cons);
      for (auto &p : t->posts) sim_note (" post%lld", (long long) p.first);
      sim_note ("%s%s)", t->drop_by >= 0 ? " drop" : "", t->first_by >= 0 ? " other" : "");
      w.t.push_back (std::move (t));
    }
  enum { POST, DROP, OTHER, LOOK, SLEEP, JUMP, BUSY };
  struct Step { int what, arg; int64_t us; };
  std::vector<std::vector<Step>> prog (nth);
  auto add = [&] (int th, Step s, int from) { auto &v = prog[th]; v.insert (v.begin () + sim_range (from, (int) v.size ()), s); };
  for (auto &t : w.t)
    {
      int from = 0;
      for (auto &p : t->posts) { int before = (int) prog[p.second].size (); add (p.second, { POST, t->id, p.first }, from); (void) before; }
      if (sim_chance (1, 2)) add (sim_choose (nth), { LOOK, t->id, 0 }, 0);
      if (t->first_by >= 0) add (t->first_by, { OTHER, t->id, sim_chance (1, 2) ? -1 : sim_choose (3) }, 0);
    }
  for (int k = sim_choose (5); k > 0; k--) add (sim_choose (nth), { SLEEP, 0, delays[1 + sim_choose (7)] }, 0);
  if (sim_chance (1, 3)) add (sim_choose (nth), { JUMP, 0, sim_chance (1, 2) ? 3600000000ll * (1 + sim_choose (1000)) : delays[3 + sim_choose (6)] }, 0);
  if (pool) for (int k = sim_choose (3); k > 0; k--) add (sim_choose (nth), { BUSY, 0, delays[2 + sim_choose (5)] }, 0);
  // a thread that drops a timeout does not use it afterwards; the others hold references of their own
  // made on their threads first
  struct Mk { To *t; int *left; };
  int left = 0; std::vector<std::unique_ptr<Mk>> mks; Threads TM;
  for (auto &t : w.t) if (t->where == 0) to_make (t.get ());
  for (auto &t : w.t)
    {
      To *q = t.get ();
      if (t->where == 1) TM.go ([q] { to_make (q); });
      else if (t->where == 2) TM.go_on (pool, [q] { to_make (q); });
      else if (t->where == 3)
        {
          left++; mks.push_back (std::make_unique<Mk> ()); mks.back ()->t = q; mks.back ()->left = &left;
          dex_unref (dex_scheduler_spawn (pool, 0, [] (gpointer p) -> DexFuture * {
            Mk *m = (Mk *) p; to_make (m->t); (*m->left)--; sim_wake_main ();
            // and the fiber waits for it; a reference of its own
            if (!m->t->huge && m->t->drop_by < 0 && m->t->cons < 3) { GError *e = NULL; dex_await (fref (m->t->f), &e); std::string o = e ? error_repr (e) : "a value"; g_clear_error (&e); SIM_CHECK ("timeout:outcome", is_dex_error (o, DEX_ERROR_TIMED_OUT), "the fiber awaiting timeout %d got %s", m->t->id, o.c_str ()); to_fired (m->t, "fiber"); }
            return NULL; }, mks.back ().get (), NULL));
        }
    }
  TM.run (); if (!run_until ([&] { return left == 0; })) sim_violation ("stuck:fiber", "a fiber that makes a timeout never started");
  Threads T; int busy = 0;
  for (int th = 0; th < nth; th++)
    {
      for (auto &t : w.t) dex_ref (t->f);
      T.go ([&, th] {
        for (auto &s : prog[th])
          switch (s.what)
            {
            case POST: to_postpone (w.t[s.arg].get (), s.us); break;
            case OTHER: { int64_t d = w.t[s.arg]->lo - sim_now_us () - s.us; if (s.us >= 0 && d > 0 && d < 10000000) { sim_sleep_us (d); sim_probe ("released_when_due"); } } dex_promise_resolve_int (w.t[s.arg]->other, 5); break;
            case LOOK: to_look (w.t[s.arg].get (), "read"); break;
            case SLEEP: sim_sleep_us (s.us); break;
            case JUMP: sim_clock_jump_us (s.us); break;
            case BUSY: { int64_t us = s.us; struct B { int64_t us; int *busy; }; busy++; dex_scheduler_push (pool, [] (gpointer p) { B *b = (B *) p; sim_sleep_us (b->us); (*b->busy)--; sim_wake_main (); delete b; }, new B { us, &busy }); break; }
            }
        for (auto &t : w.t)
          {
            if (t->drop_by == th && t->c) { t->dropped = true; DexFuture *c = t->c; t->c = NULL; dex_unref (c); }
            else if (t->drop_by == th) t->dropped = true;
            dex_unref (t->f);
          }
      });
    }
  // the creator's references to those that are dropped
  T.run ();
  for (auto &t : w.t) if (t->dropped && t->where != 3) { DexFuture *f = t->f; t->f = NULL; dex_unref (f); }
  sim_calm (); if (!run_until ([&] { return busy == 0; })) sim_violation ("stuck:pool", "a job on the pool never ended");
  // a poll that began before a stall may oversleep by as much
  for (auto &t : w.t) if (t->ctx) g_main_context_wakeup (t->ctx);
  // every instant at which something is due, in order
  std::set<int64_t> due; int64_t limit = sim_now_us () + 100 * YEAR;
  for (auto &t : w.t) if (t->hi < limit) due.insert (t->hi);
  for (int64_t d : due)
    {
      sim_horizon_us (std::max (d, sim_now_us ()) + 5000); sim_quiesce (); sim_eval ();
      for (auto &t : w.t) if (t->hi <= d)
        {
          if (t->f) { to_look (t.get (), "at rest"); if (t->cons < 3 && !t->dropped) SIM_CHECK ("timeout:late", !dex_future_is_pending (t->f), "timeout %d, due at %lld us, is pending at %lld us", t->id, (long long) t->hi, (long long) sim_now_us ()); }
          if (t->c && t->cons <= 2) SIM_CHECK ("timeout:late", t->cb.calls == 1, "the callback of timeout %d, due at %lld us, ran %d times until %lld us", t->id, (long long) t->hi, t->cb.calls, (long long) sim_now_us ());
          if (t->c && t->cons >= 3 && t->cons <= 4 && t->first_by < 0)
            { if (t->cons == 3) SIM_CHECK ("timeout:late", is_dex_error (outcome (t->c), DEX_ERROR_TIMED_OUT), "first(timeout %d, pending) is %s", t->id, outcome (t->c).c_str ()); else SIM_CHECK ("timeout:late", !dex_future_is_pending (t->f), "timeout %d in any() is pending", t->id); }
        }
    }
  // the others must still be pending however long one waits
  for (auto &t : w.t) if (t->hi >= limit && t->f) { SIM_CHECK ("timeout:early", dex_future_is_pending (t->f), "timeout %d fired although it is not due within a hundred years", t->id); sim_probe ("huge_delay"); }
  for (auto &t : w.t) if (t->dropped && t->cons <= 2) { bool before = t->cb.calls; (void) before; }
  for (auto &t : w.t) { dex_clear (&t->c); dex_clear (&t->f); dex_clear (&t->other); }
  sim_horizon_us (sim_now_us () + 1000000); sim_quiesce ();
  for (auto &t : w.t) if (t->cb.id == t->id && (t->cons == 1 || t->cons == 2)) SIM_CHECK ("callback:data-not-released", t->cb.freed == 1, "data of the callback of timeout %d released %d times", t->id, t->cb.freed);
  leak_end ("C16");
  if (pool) { dex_unref (pool); }
  sim_horizon_us (INT64_MAX);
}

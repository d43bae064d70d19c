// C25: Unix signal futures made on any thread; signals hit whatever thread is running, at any instant.
#include <glib-unix.h>
#include "wl.h"
#include <signal.h>
namespace {
struct Sg { int id, signum, where = 0, cons = 0, by = -1; DexFuture *f = NULL, *dep = NULL; Cb cb; bool made = false, dropped = false, fiber_done = false; int raised_before = 0; };
std::vector<std::unique_ptr<Sg>> SG; int raised[65];   // times delivered
const int sigs[] = { SIGHUP, SIGINT, SIGTERM, SIGUSR1, SIGUSR2, SIGWINCH };
std::string want (Sg *s) { return "gint:" + std::to_string (s->signum); }
void look (Sg *s, DexFuture *x, const char *how)
{
  std::string got = outcome (x); sim_eval ();
  if (got == "pending") return;
  SIM_CHECK ("signal:outcome", got == want (s), "future %d of signal %d gave %s (%s)", s->id, s->signum, got.c_str (), how);
  SIM_CHECK ("signal:early", raised[s->signum] > 0, "future %d completed although signal %d was never delivered (%s)", s->id, s->signum, how);
}
DexFuture *make (Sg *s)   // returns a reference for a fiber that goes on to await it
{
  DexFuture *f = dex_unix_signal_new (s->signum), *dep = NULL;
  s->cb.id = s->id; s->cb.fn = [s] (DexFuture *x) -> DexFuture * { look (s, x, "callback"); SIM_CHECK ("signal:twice", s->cb.calls == 1, "the callback of signal future %d ran %d times", s->id, s->cb.calls); return NULL; };
  switch (s->cons) { case 1: dep = dex_future_finally (fref (f), cb_call, &s->cb, cb_free); break; case 2: dep = dex_future_then (fref (f), cb_call, &s->cb, cb_free); break; case 3: dep = dex_future_first (fref (f), NULL); break; }
  // the drop by its maker comes at the end of the maker's program
  s->raised_before = raised[s->signum]; DexFuture *ref = s->where == 3 ? fref (f) : NULL; s->f = f; s->dep = dep; s->made = true; return ref;
}
void deliver (int signum) { raised[signum]++; sim_raise_signal (signum); }
}
SIM_WORKLOAD (C25)
{
  sim_set_nprocs (2 * sim_range (1, 2)); SG.clear (); memset (raised, 0, sizeof raised);
  int n = sim_range (1, 5), nth = sim_range (1, 3), nsig = sim_range (1, 3), pick[3];
  for (int i = 0; i < nsig; i++) pick[i] = sigs[sim_choose (6)];
  DexScheduler *pool = sim_chance (1, 2) ? dex_thread_pool_scheduler_new () : NULL;
  // GLib's thread that passes signals on, and the handlers
  std::vector<GSource *> keep;
  for (int i = 0; i < nsig; i++) { GSource *q = g_unix_signal_source_new (pick[i]); keep.push_back (q); }
  sim_start_glib_worker ();
  leak_begin ();
  int rounds = sim_range (1, 2);
  for (int round = 0; round < rounds; round++)
    {
      SG.clear (); memset (raised, 0, sizeof raised);
      if (round) sim_note (" | ");
      for (int i = 0; i < n; i++)
        {
          auto s = std::make_unique<Sg> (); s->id = i + round * 10; s->signum = pick[sim_choose (nsig)]; s->where = sim_choose (pool ? 4 : 2);  // main, plain thread, pool worker, fiber on the pool
          s->cons = s->where == 1 ? (sim_chance (1, 2) ? 3 : 0) : sim_choose (4);
          if (sim_chance (2, 5)) s->by = sim_choose (nth);
          sim_note ("%s s%d(%d,on %d,cons %d%s)", i ? "," : "", s->id, s->signum, s->where, s->cons, s->by >= 0 ? ",dropped" : "");
          SG.push_back (std::move (s));
        }
      enum { RAISE, DROP, LOOK, SLEEP, LATER };
      struct Step { int what, arg; };
      std::vector<std::vector<Step>> prog (nth);
      auto add = [&] (int th, Step s) { auto &v = prog[th]; v.insert (v.begin () + sim_range (0, (int) v.size ()), s); };
      for (int i = 0; i < nsig; i++) for (int k = sim_choose (3); k > 0; k--) add (sim_choose (nth), { sim_chance (1, 2) ? (int) RAISE : (int) LATER, pick[i] });
      for (int i = 0; i < n; i++) { if (SG[i]->by >= 0) add (SG[i]->by, { DROP, i }); if (sim_chance (1, 3)) add (sim_choose (nth), { LOOK, i }); }
      for (int k = sim_choose (3); k > 0; k--) add (sim_choose (nth), { SLEEP, 1 + sim_choose (20) });
      Threads T, TM; std::vector<std::vector<DexFuture *>> held (nth, std::vector<DexFuture *> (n, NULL));
      for (auto &s : SG) if (s->where == 0) make (s.get ());
      for (auto &s : SG) { Sg *q = s.get (); if (q->where == 1) TM.go ([q] { if (q->id % 2 == 0) { make (q); return; } GMainContext *own = g_main_context_new (); g_main_context_push_thread_default (own); make (q); g_main_context_pop_thread_default (own); g_main_context_unref (own); }); else if (q->where == 2) TM.go_on (pool, [q] { make (q); });
        else if (q->where == 3) dex_unref (dex_scheduler_spawn (pool, 0, [] (gpointer p) -> DexFuture * { Sg *s = (Sg *) p; DexFuture *f = make (s); sim_wake_main ();
            if (s->by < 0) { GError *e = NULL; gint v = dex_await_int (fref (f), &e); SIM_CHECK ("signal:outcome", !e && v == s->signum, "the fiber awaiting signal %d got %d", s->signum, v); SIM_CHECK ("signal:early", raised[s->signum] > 0, "a fiber went on although signal %d was never delivered", s->signum); }
            s->fiber_done = true; dex_unref (f); return NULL; }, q, NULL)); }
      TM.run (); if (!run_until ([&] { for (auto &s : SG) if (!s->made) return false; return true; })) sim_violation ("stuck:fiber", "a fiber that makes a future never started");
      for (auto &s : SG) s->raised_before = 0;
      for (int t = 0; t < nth; t++) for (auto &s : prog[t]) if (s.what == LOOK && !held[t][s.arg]) held[t][s.arg] = fref (SG[s.arg]->f);
      for (int t = 0; t < nth; t++)
        T.go ([&, t] {
          for (auto &s : prog[t])
            switch (s.what)
              {
              case RAISE: deliver (s.arg); break;
              case LATER: raised[s.arg]++; sim_signal_later (s.arg, 1 + (int) (sim_seq () * 7919 % 400)); break;
              case DROP: { Sg *g = SG[s.arg].get (); if (g->dropped) break; g->dropped = true; DexFuture *d = g->dep, *f = g->f; g->dep = g->f = NULL; dex_clear (&d); dex_clear (&f); sim_probe ("dropped"); break; }
              case LOOK: look (SG[s.arg].get (), held[t][s.arg], "read"); break;
              case SLEEP: sim_sleep_us (s.arg * 1000); break;
              }
          for (int i = 0; i < n; i++) if (held[t][i]) dex_unref (held[t][i]);
        });
      T.run ();
      sim_signal_later (0, 0);   // one that was announced and has not hit yet never will
      calm_and_settle ();
      bool again = sim_chance (1, 2);
      if (again) for (int i = 0; i < nsig; i++) deliver (pick[i]);
      sim_quiesce ();
      for (auto &s : SG)
        {
          if (s->f) look (s.get (), s->f, "at rest");
          if (!again) continue;
          if (s->f) SIM_CHECK ("signal:lost", !dex_future_is_pending (s->f), "future %d is pending although signal %d was delivered", s->id, s->signum);
          if (s->dep && (s->cons == 1 || s->cons == 2)) SIM_CHECK ("signal:callback", s->cb.calls == 1, "the callback of signal future %d ran %d times", s->id, s->cb.calls);
          if (s->dep && s->cons == 3) SIM_CHECK ("signal:callback", outcome (s->dep) == want (s.get ()), "the set of signal future %d is %s", s->id, outcome (s->dep).c_str ());
          if (s->where == 3) SIM_CHECK ("stuck:fiber", s->fiber_done, "the fiber awaiting signal %d never went on", s->signum);
        }
      if (!again) // without it those still waiting are woken now, because a fiber may wait
        for (auto &s : SG) if (s->where == 3 && !s->fiber_done) { deliver (s->signum); sim_quiesce (); SIM_CHECK ("stuck:fiber", s->fiber_done, "the fiber awaiting signal %d never went on", s->signum); }
      for (auto &s : SG) { dex_clear (&s->dep); dex_clear (&s->f); }
      sim_quiesce ();
      for (auto &s : SG) if (s->cons == 1 || s->cons == 2) SIM_CHECK ("callback:data-not-released", s->cb.freed == 1, "data of the callback of signal future %d released %d times", s->id, s->cb.freed);
      leak_end ("C25");
      if (round + 1 < rounds)
        {
          // delivered with nobody waiting: leaves no trace for those made later
          for (int i = 0; i < nsig; i++) deliver (pick[i]);
          sim_quiesce ();
        }
    }
  for (auto q : keep) g_source_unref (q);
  if (pool) { dex_unref (pool); }
  sim_quiesce ();
}

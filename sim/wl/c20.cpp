// C20: futures of GCancellables, cancelled through either handle by any thread while they are made, raced, dropped, also from within the cancellation.
#include "wl.h"
namespace {
struct Gc { int id; GCancellable *c; int begun = 0, running = 0; gulong h = 0; bool ever_done = false; };
struct Fu {
  int id, g = -1, where = 0, cons = 0, by = -1, with = -1; bool own = false, drop_in_handler = false, drop_in_callback = false;
  DexFuture *f = NULL, *dep = NULL, *wref = NULL; Cb cb; bool made = false, begun = false, done = false, maybe_early = false, surely_early = false, dep_gone = false;
};
std::vector<std::unique_ptr<Gc>> GC; std::vector<std::unique_ptr<Fu>> FU; int gc_alive;
void gc_gone (gpointer, GObject *) { gc_alive--; }
bool maybe (Fu *f) { return f->begun || (f->g >= 0 && GC[f->g]->begun); }
bool surely (Fu *f) { return f->done || (f->g >= 0 && GC[f->g]->ever_done); }
void look (Fu *f, DexFuture *x, const char *how)
{
  bool sure = f->made && surely (f); std::string got = outcome (x); sim_eval ();
  if (got == "pending") SIM_CHECK ("cancellable:lost", !sure, "future %d is pending although its cancellation has returned (%s)", f->id, how);
  else
    {
      SIM_CHECK ("cancellable:early", maybe (f), "future %d was rejected although nobody cancelled it (%s)", f->id, how);
      SIM_CHECK ("cancellable:outcome", err_key (got) == "err:g-io-error-quark:19", "future %d gave %s (%s)", f->id, got.c_str (), how);
    }
}
void cancel_g (Gc *g)
{
  g->begun++; g->running++;
  g_cancellable_cancel (g->c);
  if (--g->running == 0) g->ever_done = true;
}
void drop_fu (Fu *f) { DexFuture *d = f->dep, *x = f->f; f->dep = NULL; f->f = NULL; f->dep_gone = true; dex_clear (&d); dex_clear (&x); }
void handler (GCancellable *, gpointer d)
{
  Gc *g = (Gc *) d;
  for (auto &f : FU) if (f->drop_in_handler && f->g == g->id && f->f) { sim_probe ("drop_in_handler"); drop_fu (f.get ()); }
}
void make (Fu *f)
{
  DexFuture *x;
  if (f->own) { x = (DexFuture *) dex_cancellable_new (); f->g = -1; }
  else
    {
      bool sure = GC[f->g]->ever_done; x = dex_cancellable_new_from_cancellable (GC[f->g]->c); sim_eval ();
      if (sure) { SIM_CHECK ("cancellable:lost", !dex_future_is_pending (x), "future %d made from a cancelled cancellable is pending", f->id); sim_probe ("already_cancelled"); }
    }
  f->cb.id = f->id; f->cb.fn = [f] (DexFuture *x) -> DexFuture * {
    std::string got = outcome (x);
    SIM_CHECK ("cancellable:outcome", f->cons == 3 || f->cons == 4 ? got != "pending" : err_key (got) == "err:g-io-error-quark:19", "the callback of future %d got %s", f->id, got.c_str ());
    SIM_CHECK ("cancellable:early", maybe (f) || f->cons == 3, "the callback of future %d ran although nobody cancelled it", f->id);
    SIM_CHECK ("cancellable:twice", f->cb.calls == 1, "the callback of future %d ran %d times", f->id, f->cb.calls);
    if (f->drop_in_callback) for (auto &o : FU) if (o->by < 0 && o->f && o->made && !o->drop_in_handler && o.get () != f) { DexFuture *y = o->f; o->f = NULL; dex_unref (y); sim_probe ("drop_in_callback"); break; }
    return NULL; };
  DexFuture *wf = f->wref, *dep = NULL; f->wref = NULL;
  if (!wf && f->cons >= 3) f->cons = 2;
  switch (f->cons)
    {
    case 1: dep = dex_future_finally (fref (x), cb_call, &f->cb, cb_free); break;
    case 2: dep = dex_future_all (fref (x), NULL); break;
    // sets over several futures of one cancellable: the first to complete releases the others while they are being cancelled
    case 3: dep = dex_future_finally (dex_future_first (fref (x), wf, NULL), cb_call, &f->cb, cb_free); wf = NULL; break;
    case 4: dep = dex_future_all_race (fref (x), wf, NULL); wf = NULL; break;
    case 5: dep = dex_future_first (wf, fref (x), NULL); wf = NULL; break;
    }
  dex_clear (&wf);
  f->f = x; f->dep = dep; f->made = true;
}
}
SIM_WORKLOAD (C20)
{
  sim_set_nprocs (2 * sim_range (1, 2)); GC.clear (); FU.clear (); gc_alive = 0;
  int ng = sim_range (1, 2), n = sim_range (1, 5), nth = sim_range (1, 3);
  DexScheduler *pool = sim_chance (1, 2) ? dex_thread_pool_scheduler_new () : NULL;
  leak_begin ();
  for (int i = 0; i < ng; i++)
    {
      auto g = std::make_unique<Gc> (); g->id = i; g->c = g_cancellable_new (); g_object_weak_ref (G_OBJECT (g->c), gc_gone, NULL); gc_alive++;
      if (sim_chance (1, 2)) g->h = g_cancellable_connect (g->c, G_CALLBACK (handler), g.get (), NULL);   // runs before those of the futures
      GC.push_back (std::move (g));
    }
  enum { MAKE, CANCEL_G, CANCEL_F, DROP, LOOK, SLEEP, DROP_FUTURE };
  struct Step { int what, arg; };
  std::vector<std::vector<Step>> prog (nth);
  auto add = [&] (int th, Step s, int from) { auto &v = prog[th]; v.insert (v.begin () + sim_range (from, (int) v.size ()), s); };
  for (int i = 0; i < n; i++)
    {
      auto f = std::make_unique<Fu> (); f->id = i; f->own = sim_chance (1, 5); f->g = f->own ? -1 : sim_choose (ng); f->where = sim_choose (3);
      // 0 main before, 1 by thread, 2 by thread (sets only off the main loop)
      f->cons = f->where ? (sim_chance (1, 2) ? 2 : 0) + (sim_chance (1, 3) ? 2 : 0) : sim_choose (6); if (f->where && f->cons == 4 && sim_chance (1, 2)) f->cons = 5;
      if (i && f->cons >= 3) f->with = sim_choose (i);
      if (sim_chance (1, 2)) f->by = sim_choose (nth); else if (sim_chance (1, 3)) f->drop_in_handler = true;
      f->drop_in_callback = sim_chance (1, 4);
      sim_note ("%s f%d(g%d,on %d,cons %d.%d%s%s)", i ? "," : "", i, f->g, f->where, f->cons, f->with, f->by >= 0 ? ",dropped" : f->drop_in_handler ? ",dropped by handler" : "", f->drop_in_callback ? ",drops" : "");
      FU.push_back (std::move (f));
    }
  std::vector<int> maker (n, -1);
  for (int i = 0; i < n; i++) if (FU[i]->where) { maker[i] = sim_choose (nth); add (maker[i], { MAKE, i }, 0); }
  for (int i = 0; i < ng; i++) for (int k = sim_choose (3); k > 0; k--) add (sim_choose (nth), { CANCEL_G, i }, 0);
  for (int i = 0; i < n; i++)
    {
      Fu *f = FU[i].get ();
      int th = maker[i] >= 0 ? maker[i] : sim_choose (nth), from = 0;
      if (maker[i] >= 0) for (size_t k = 0; k < prog[th].size (); k++) if (prog[th][k].what == MAKE && prog[th][k].arg == i) from = k + 1;
      if (f->where && f->by >= 0) f->by = th;
      // its maker reads and drops it; those made on the main loop are read through references of each thread's own
      if (f->by >= 0) add (f->by, { DROP, i }, f->where ? from : 0);
      if (sim_chance (1, 2) && !f->where) add (sim_choose (nth), { LOOK, i }, 0);
      if (f->own && sim_chance (1, 2) && !f->where) add (sim_choose (nth), { CANCEL_F, i }, 0);
      if (!f->own && sim_chance (1, 5) && !f->where) add (sim_choose (nth), { CANCEL_F, i }, 0);
    }
  for (int k = sim_choose (3); k > 0; k--) add (sim_choose (nth), { SLEEP, 1 + sim_choose (20) }, 0);
  for (auto &f : FU) if (!f->where) { if (f->with >= 0 && FU[f->with]->f) f->wref = fref (FU[f->with]->f); make (f.get ()); }
  for (auto &f : FU) if (f->where && f->with >= 0 && FU[f->with]->f) f->wref = fref (FU[f->with]->f);
  Threads T; std::vector<std::vector<DexFuture *>> held (nth, std::vector<DexFuture *> (n, NULL));
  for (int t = 0; t < nth; t++) for (auto &s : prog[t]) if ((s.what == LOOK || s.what == CANCEL_F) && !held[t][s.arg]) held[t][s.arg] = fref (FU[s.arg]->f);
  for (int t = 0; t < nth; t++)
    {
      // on the main loop, a worker or a thread of its own
      int who = sim_choose (pool ? 3 : 2); if (who == 1) who = 2; else if (who == 2) who = 1;
      T.go_as (who == 2 && !sim_chance (1, 3) ? 0 : who, pool, [&, t] {
        for (auto &s : prog[t])
          {
            Fu *f = s.what == CANCEL_G || s.what == SLEEP ? NULL : FU[s.arg].get ();
            switch (s.what)
              {
              case MAKE: make (f); break;
              case CANCEL_G: cancel_g (GC[s.arg].get ()); break;
              case CANCEL_F: f->begun = true; dex_cancellable_cancel ((DexCancellable *) held[t][s.arg]); f->done = true; break;
              case DROP: if (!f->dep_gone) drop_fu (f); break;
              case LOOK: look (f, held[t][s.arg], "read"); break;
              case SLEEP: sim_sleep_us (s.arg * 1000); break;
              }
          }
        for (int i = 0; i < n; i++) if (held[t][i]) dex_unref (held[t][i]);
      });
    }
  T.run ("stuck:cancel");
  calm_and_settle ();
  for (auto &f : FU)
    {
      if (f->f) look (f.get (), f->f, "at rest");
      bool sure = surely (f.get ());
      if (f->dep && f->cons == 1) SIM_CHECK ("cancellable:callback", f->cb.calls == (sure ? 1 : 0), "the callback of future %d ran %d times", f->id, f->cb.calls);
      if (f->dep && f->cons == 3 && sure) SIM_CHECK ("cancellable:callback", f->cb.calls == 1, "the callback of the set over future %d ran %d times", f->id, f->cb.calls);
      if (f->dep && sure && (f->cons == 2 || f->cons >= 4)) SIM_CHECK ("cancellable:set", !dex_future_is_pending (f->dep), "the set over the cancelled future %d is pending", f->id);
    }
  // those still pending are cancelled at last, or dropped
  bool late = sim_chance (1, 2);
  if (late) for (auto &g : GC) cancel_g (g.get ());
  if (late) { sim_quiesce (); for (auto &f : FU) if (f->f && f->g >= 0) look (f.get (), f->f, "cancelled at last"); }
  bool first = sim_chance (1, 3);   // the cancellables go first: the futures keep what they need
  if (first) for (auto &g : GC) { if (g->h) g_signal_handler_disconnect (g->c, g->h); g->h = 0; g_object_unref (g->c); g->c = NULL; }
  for (auto &f : FU) { dex_clear (&f->dep); dex_clear (&f->f); }
  sim_quiesce ();
  for (auto &g : GC) if (g->c && g->h) { g_signal_handler_disconnect (g->c, g->h); g->h = 0; }
  for (auto &g : GC) if (g->c) SIM_CHECK ("cancellable:handler-left", !g_signal_has_handler_pending (g->c, g_signal_lookup ("cancelled", G_TYPE_CANCELLABLE), 0, TRUE) , "a handler is still connected to cancellable %d after every future of it was dropped", g->id);
  for (auto &f : FU) if (f->cons == 1 || f->cons == 3) SIM_CHECK ("callback:data-not-released", f->cb.freed == 1, "data of the callback of future %d released %d times", f->id, f->cb.freed);
  leak_end ("C20");
  for (auto &g : GC) if (g->c) { if (g->h) g_signal_handler_disconnect (g->c, g->h); g_object_unref (g->c); }
  SIM_CHECK ("leak:cancellables", gc_alive == 0, "%d cancellables were never released", gc_alive);
  if (pool) { dex_unref (pool); }
  sim_quiesce ();
}

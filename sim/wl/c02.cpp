// C02: attaching, completing and dropping dependents of the same futures from several threads.
#include "wl.h"
struct Dep { int on, on2, kind; Cb cb; DexFuture *f = NULL; bool dropped = false, was_complete_at_drop = false; };

SIM_WORKLOAD (C02)
{
  int np = sim_range (1, 2), nth = sim_range (2, 4);
  std::vector<int> who (nth); bool need_pool = false;
  for (auto &w : who) { w = sim_choose (3); need_pool |= w == 1; }
  sim_set_nprocs (4);
  DexScheduler *pool = need_pool ? dex_thread_pool_scheduler_get_default () : NULL;
  leak_begin ();
  std::vector<DexPromise *> p (np); std::vector<Val> pv (np); std::vector<int> completer (np);
  for (int i = 0; i < np; i++) { p[i] = dex_promise_new (); pv[i] = val_draw (100 + i); completer[i] = sim_range (-1, nth - 1); }
  struct Step { int what, arg; };   // 0 attach, 1 complete, 2 drop
  std::vector<std::vector<Step>> prog (nth);
  std::vector<std::unique_ptr<Dep>> deps;
  auto new_dep = [&] (bool blocks) {
    auto d = std::make_unique<Dep> (); d->on = sim_choose (np); d->on2 = sim_choose (np); d->kind = sim_choose (7); if (!blocks && d->kind < 3) d->kind += 3; d->cb.id = (int) deps.size ();
    deps.push_back (std::move (d)); return (int) deps.size () - 1;
  };
  auto attach = [&] (int i) {
    Dep &d = *deps[i];
    DexFuture *a = DEX_FUTURE (p[d.on]), *b = DEX_FUTURE (p[d.on2]);
    d.f = d.kind < 3 ? block_new (d.kind, fref (a), &d.cb) : set_new (d.kind - 3, d.on == d.on2 ? std::vector<DexFuture *> { a } : std::vector<DexFuture *> { a, b });
  };
  int npre = sim_range (0, 3);
  std::vector<int> pre; for (int i = 0; i < npre; i++) pre.push_back (new_dep (true));
  for (int i : pre) attach (i);
  std::vector<int> avail = pre;   // pre-attached ones may be dropped by any one thread
  for (int t = 0; t < nth; t++)
    {
      int n = sim_range (1, 4); std::vector<int> own; bool did[2] = { false, false };
      for (int k = 0; k < n; k++)
        {
          int w = sim_choose (5);
          if (w == 3) for (int i = 0; i < np; i++) if (completer[i] == t && !did[i]) { prog[t].push_back ({ 1, i }); did[i] = true; }
          if (w == 4 && (own.size () || avail.size ()))
            {
              auto &from = own.size () && (avail.empty () || sim_chance (1, 2)) ? own : avail;
              int x = sim_choose ((int) from.size ()); prog[t].push_back ({ 2, from[x] }); from.erase (from.begin () + x);
            }
          if (w < 3) { int i = new_dep (who[t] != 0); own.push_back (i); prog[t].push_back ({ 0, i }); }
        }
      for (int i = 0; i < np; i++) if (completer[i] == t && !did[i]) prog[t].push_back ({ 1, i });
    }
  sim_note ("%d promises, %d threads, %zu dependents (%d attached before):", np, nth, deps.size (), npre);
  for (auto &pr : prog) { sim_note (" %s[", who[&pr - &prog[0]] == 0 ? "thread" : who[&pr - &prog[0]] == 1 ? "worker" : "main"); for (auto &s : pr) sim_note ("%s%d ", s.what == 0 ? "attach" : s.what == 1 ? "complete" : "drop", s.arg); sim_note ("]"); }
  Threads T;
  for (int t = 0; t < nth; t++)
    T.go_as (who[t], pool, [&, t] {
      for (auto &s : prog[t])
        {
          if (s.what == 0) attach (s.arg);
          else if (s.what == 1) val_resolve (p[s.arg], pv[s.arg]);
          else
            {
              Dep &d = *deps[s.arg]; DexFuture *f = d.f; d.f = NULL; d.was_complete_at_drop = !dex_future_is_pending (f); d.dropped = true;
              if (!d.was_complete_at_drop) sim_probe ("dropped_while_pending");
              dex_unref (f);
            }
        }
    });
  T.run ();
  for (int i = 0; i < np; i++) if (completer[i] < 0) val_resolve (p[i], pv[i]);
  calm_and_settle ();
  for (auto &dp : deps)
    {
      Dep &d = *dp; sim_eval ();
      if (d.kind < 3)
        {
          bool err = pv[d.on].kind == K_ERROR; bool due = d.kind == 2 || (d.kind == 0) == !err;
          SIM_CHECK ("notified:twice", d.cb.calls <= 1, "dependent %d (%s) notified %d times", d.cb.id, block_name (d.kind), d.cb.calls);
          SIM_CHECK ("notified:wrong-kind", due || d.cb.calls == 0, "%s callback ran for the other outcome", block_name (d.kind));
          if (!d.dropped) SIM_CHECK ("notified:never", d.cb.calls == (due ? 1 : 0), "dependent %d (%s) was not notified", d.cb.id, block_name (d.kind));
          if (d.cb.calls) SIM_CHECK ("notified:wrong-outcome", d.cb.got == val_repr (pv[d.on]), "notified with %s instead of %s", d.cb.got.c_str (), val_repr (pv[d.on]).c_str ());
        }
      if (!d.dropped) SIM_CHECK ("dependent:pending-forever", !dex_future_is_pending (d.f), "dependent %d (%s) is pending although everything it depends on completed", d.cb.id, d.kind < 3 ? block_name (d.kind) : set_name (d.kind - 3));
      if (!d.dropped && d.kind < 3) SIM_CHECK ("dependent:outcome", outcome (d.f) == val_repr (pv[d.on]), "dependent took %s", outcome (d.f).c_str ());
    }
  for (auto &d : deps) if (d->f) dex_unref (d->f);
  for (auto q : p) dex_unref (q);
  sim_quiesce ();
  for (auto &d : deps) if (d->kind < 3) SIM_CHECK ("callback:data-not-released", d->cb.freed == 1, "data of dependent %d released %d times", d->cb.id, d->cb.freed);
  leak_end ("C02");
  SIM_CHECK ("leak:values", wl_objects_alive == 0, "%d resolved objects leaked", wl_objects_alive);
}

// C21: delayed futures released, completed, discarded and dropped from several threads.
#include "wl.h"
struct Del { int base; DexFuture *f = NULL; Cb cb; DexFuture *dep = NULL; uint64_t release_inv = 0; bool dropped = false; bool ever_read = false; DexFuture *set = NULL; int other = -1; };   // base i < 0: delayed -1-i
SIM_WORKLOAD (C21)
{
  leak_begin ();
  int np = sim_range (1, 3), nd = sim_range (1, 3), nth = sim_range (1, 4);
  struct Base { DexFuture *f; DexPromise *p = NULL; Val v; bool complete_inv = false; int by; };
  std::vector<Base> b (np); std::vector<std::unique_ptr<Del>> d;
  for (int i = 0; i < np; i++)
    {
      b[i].v = val_draw (i + 1); b[i].by = sim_range (-2, nth - 1);
      if (b[i].by == -2) { b[i].f = val_future (b[i].v); b[i].complete_inv = true; }
      else { b[i].p = sim_chance (1, 2) ? dex_promise_new () : dex_promise_new_cancellable (); b[i].f = DEX_FUTURE (b[i].p); }
    }
  sim_note ("%d bases, %d delayed:", np, nd);
  for (int i = 0; i < nd; i++)
    {
      auto x = std::make_unique<Del> (); x->cb.id = i;
      x->base = i > 0 && sim_chance (1, 4) ? -1 - sim_choose (i) : sim_choose (np);
      DexFuture *u = x->base >= 0 ? b[x->base].f : d[-1 - x->base]->f;
      x->f = dex_delayed_new (u);
      if (sim_chance (1, 2)) x->dep = block_new (sim_choose (3), fref (x->f), &x->cb);
      else if (sim_chance (1, 2)) { x->other = sim_choose (np); x->set = set_new (sim_choose (4), { x->f, b[x->other].f }); }
      sim_note (" d%d(%s%d)%s%s", i, x->base >= 0 ? "b" : "d", x->base >= 0 ? x->base : -1 - x->base, x->dep ? "+block" : "", x->set ? "+set" : "");
      SIM_CHECK ("delayed:early", dex_future_is_pending (x->f), "a fresh delayed future is not pending");
      DexFuture *dup = dex_delayed_dup_future ((DexDelayed *) x->f); SIM_CHECK ("delayed:dup", dup == u, "dup_future gave another future"); dex_unref (dup);
      d.push_back (std::move (x));
    }
  enum { COMPLETE, RELEASE, DROP, READ, DUP, DROPSET };
  struct Step { int what, arg; };
  std::vector<std::vector<Step>> prog (nth); std::vector<bool> willdrop (nd);
  auto add = [&] (Step s) { auto &v = prog[sim_choose (nth)]; v.insert (v.begin () + sim_choose ((int) v.size () + 1), s); };
  for (int i = 0; i < np; i++) if (b[i].by >= 0) add ({ COMPLETE, i });
  for (int i = 0; i < nd; i++)
    {
      int rel = sim_choose (4); if (rel == 3) rel = 2;
      for (int k = 0; k < rel; k++) add ({ RELEASE, i });
      if (sim_chance (1, 2)) add ({ READ, i });
      if (sim_chance (1, 3)) add ({ DUP, i });
      if (d[i]->set && sim_chance (1, 2)) add ({ DROPSET, i });
    }
  for (auto &p : prog) { sim_note (" ["); for (auto &s : p) { static const char *n[] = { "complete", "release", "drop", "read", "dup", "dropset" }; sim_note ("%s%d ", n[s.what], s.arg); } sim_note ("]"); }
  // may d[i] have an outcome by now?
  std::function<bool (int)> known = [&] (int i) { if (!d[i]->release_inv) return false; int u = d[i]->base; return u >= 0 ? b[u].complete_inv : known (-1 - u); };
  auto val_of = [&] (int i) { while (d[i]->base < 0) i = -1 - d[i]->base; return val_repr (b[d[i]->base].v); };
  auto look = [&] (int i, const char *when) {
    std::string o = outcome (d[i]->f); sim_eval ();
    if (o == "pending") return o;
    SIM_CHECK ("delayed:early", known (i), "delayed %d has outcome %s although it was not released or the future behind it is pending (%s)", i, o.c_str (), when);
    SIM_CHECK ("delayed:outcome", o == val_of (i), "delayed %d took %s instead of %s (%s)", i, o.c_str (), val_of (i).c_str (), when);
    return o;
  };
  Threads T;
  for (int t = 0; t < nth; t++)
    T.go ([&, t] {
      for (auto &s : prog[t])
        switch (s.what)
          {
          case COMPLETE: b[s.arg].complete_inv = true; val_resolve (b[s.arg].p, b[s.arg].v); break;
          case RELEASE: if (!d[s.arg]->release_inv) d[s.arg]->release_inv = sim_seq (); dex_delayed_release ((DexDelayed *) d[s.arg]->f); break;
          case READ: look (s.arg, "while running"); break;
          case DUP: { bool unreleased = !d[s.arg]->release_inv; DexFuture *x = dex_delayed_dup_future ((DexDelayed *) d[s.arg]->f); if (unreleased && !d[s.arg]->release_inv) { (void) 0; } if (x) { SIM_CHECK ("delayed:dup", x == (d[s.arg]->base >= 0 ? b[d[s.arg]->base].f : d[-1 - d[s.arg]->base]->f), "dup_future gave another future"); dex_unref (x); } break; }
          case DROPSET: { DexFuture *x = d[s.arg]->set; d[s.arg]->set = NULL; dex_unref (x); break; }
          }
    });
  T.run ();
  calm_and_settle ();
  auto check = [&] (const char *when) {
    for (int i = 0; i < nd; i++)
      {
        std::string o = look (i, when);
        SIM_CHECK ("delayed:pending", !known (i) || o != "pending", "delayed %d is pending although it was released and the future behind it is complete (%s)", i, when);
        if (!d[i]->release_inv) { sim_probe ("held_back"); SIM_CHECK ("delayed:early", o == "pending", "unreleased"); }
        if (d[i]->release_inv) { DexFuture *x = dex_delayed_dup_future ((DexDelayed *) d[i]->f); SIM_CHECK ("delayed:dup-after-release", x == NULL, "dup_future gives a future after the release"); }
      }
    for (int i = 0; i < np; i++)
      {
        std::string o = outcome (b[i].f); sim_eval ();
        SIM_CHECK ("delayed:altered-base", o == (b[i].complete_inv ? val_repr (b[i].v) : std::string ("pending")), "the future behind is %s (%s)", o.c_str (), when);
      }
  };
  check ("at rest");
  // some more after everything settled: release the rest, then complete the rest
  bool rel_rest = sim_chance (1, 2), comp_rest = sim_chance (1, 2), order = sim_chance (1, 2);
  for (int ph = 0; ph < 2; ph++)
    {
      if ((ph == 0) == order) { if (rel_rest) for (auto &x : d) { if (!x->release_inv) x->release_inv = sim_seq (); dex_delayed_release ((DexDelayed *) x->f); } }
      else if (comp_rest) for (auto &x : b) if (!x.complete_inv) { x.complete_inv = true; val_resolve (x.p, x.v); }
      sim_quiesce (); check ("afterwards");
    }
  for (auto &x : d) if (x->dep)
    {
      int i = x->cb.id; if (!known (i)) { SIM_CHECK ("delayed:dependent", x->cb.calls == 0, "dependent ran early"); continue; }
      SIM_CHECK ("delayed:dependent", !dex_future_is_pending (x->dep) && x->cb.calls <= 1, "dependent of delayed %d: %d calls, %s", i, x->cb.calls, outcome (x->dep).c_str ());
    }
  std::vector<std::pair<int, DexFuture *>> drops;
  for (auto &x : d) { drops.push_back ({ 0, x->f }); if (x->dep) drops.push_back ({ 0, x->dep }); if (x->set) drops.push_back ({ 0, x->set }); }
  for (auto &x : b) drops.push_back ({ 0, x.f });
  for (size_t k = drops.size (); k > 1; k--) std::swap (drops[k - 1], drops[sim_choose ((int) k)]);
  Threads T2; std::vector<std::vector<DexFuture *>> dp (2); for (auto &x : drops) dp[sim_choose (2)].push_back (x.second);
  for (int t = 0; t < 2; t++) T2.go ([&dp, t] { for (auto f : dp[t]) dex_unref (f); });
  T2.run ();
  sim_quiesce ();
  for (auto &x : d) if (x->dep) SIM_CHECK ("callback:data-not-released", x->cb.freed == 1, "released %d times", x->cb.freed);
  leak_end ("C21");
  SIM_CHECK ("leak:values", wl_objects_alive == 0, "%d objects leaked", wl_objects_alive);
}

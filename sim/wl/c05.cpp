// C05: sets whose members complete from several threads in any order, some never.
#include "wl.h"
struct Mem { DexFuture *f; DexPromise *p = NULL; Val v; int by; bool never = false; };
struct Set { int kind; std::vector<int> m; DexFuture *f = NULL; Cb cb; DexFuture *fin = NULL; };

SIM_WORKLOAD (C05)
{
  leak_begin ();
  int nm = sim_range (1, 5), nsets = sim_range (1, 3), nth = sim_range (1, 4), id = 1;
  bool main_builds_late = sim_chance (1, 2);
  int style = sim_choose (4);   // 0 mixed, 1 all resolve, 2 all reject, 3 mixed with some that never complete
  std::vector<Mem> m (nm);
  for (auto &x : m)
    {
      x.v = val_draw (id++, 1, 2);
      if (style == 1 && x.v.kind == K_ERROR) x.v.kind = K_INT;
      if (style == 2) x.v.kind = K_ERROR;
      x.by = sim_range (-1, nth - 1);
      x.never = style == 3 && sim_chance (1, 3);
      if (x.by < 0 && !x.never) x.f = val_future (x.v);
      else { x.p = dex_promise_new (); x.f = DEX_FUTURE (x.p); if (x.by < 0) x.by = 0; }
    }
  std::vector<std::unique_ptr<Set>> sets;
  for (int i = 0; i < nsets; i++)
    {
      auto s = std::make_unique<Set> (); s->kind = sim_choose (4);
      int n = sim_range (1, nm); if (sim_chance (1, 12)) n = 9 + sim_choose (16);
      // members in a random order; a future may appear twice in the larger ones
      std::vector<int> idx; for (int k = 0; k < nm; k++) idx.push_back (k);
      for (size_t k = idx.size (); k > 1; k--) std::swap (idx[k - 1], idx[sim_choose ((int) k)]);
      for (int k = 0; k < n; k++) s->m.push_back (k < nm ? idx[k] : sim_choose (nm));
      s->cb.id = i;
      sets.push_back (std::move (s));
    }
  std::vector<std::vector<int>> prog (nth);
  for (int i = 0; i < nm; i++) if (m[i].p && !m[i].never) { auto &v = prog[m[i].by]; v.insert (v.begin () + sim_choose ((int) v.size () + 1), i); }
  auto build = [&] { for (auto &s : sets) { std::vector<DexFuture *> v; for (int k : s->m) v.push_back (m[k].f); s->f = set_new (s->kind, v); s->fin = dex_future_finally (fref (s->f), cb_call, &s->cb, cb_free); } };
  sim_note ("%d members:", nm); for (auto &x : m) sim_note (" %s%s", x.never ? "never " : val_repr (x.v).c_str (), x.p ? "" : "(done)");
  for (auto &s : sets) { sim_note ("; %s(", set_name (s->kind)); for (int k : s->m) sim_note ("%d ", k); sim_note (")"); }
  if (!main_builds_late) build ();
  Threads T;
  for (int t = 0; t < nth; t++) T.go ([&, t] { for (int i : prog[t]) val_resolve (m[i].p, m[i].v); });
  if (main_builds_late) build ();
  T.run ();
  calm_and_settle ();
  for (auto &s : sets)
    {
      int nres = 0, nrej = 0, npend = 0; std::set<std::string> outs, res, rej;
      for (int k : s->m)
        {
          if (m[k].never) { npend++; continue; }
          std::string r = val_repr (m[k].v); outs.insert (r);
          if (is_error (r)) { nrej++; rej.insert (r); } else { nres++; res.insert (r); }
        }
      bool decided = s->kind == 0 ? npend == 0 : s->kind == 1 ? nres + nrej > 0 : s->kind == 2 ? nres > 0 || npend == 0 : nrej > 0 || npend == 0;
      std::string o = outcome (s->f); const char *nm = set_name (s->kind);
      sim_eval ();
      SIM_CHECK ("set:pending", !decided || o != "pending", "%s is pending although its members decided it", nm);
      SIM_CHECK ("set:early", decided || o == "pending", "%s completed with %s although its members have not decided it", nm, o.c_str ());
      if (decided)
        {
          if (nres && nrej) sim_probe ("mixed_outcomes");
          switch (s->kind)
            {
            case 0:
              SIM_CHECK ("set:all", !(nrej == 0) || !is_error (o), "all: every member resolved but the set took %s", o.c_str ());
              SIM_CHECK ("set:all", !(nres == 0) || is_error (o), "all: every member rejected but the set took %s", o.c_str ());
              break;
            case 1: SIM_CHECK ("set:first", outs.count (o), "first took %s, which is no member's outcome", o.c_str ()); break;
            case 2:
              if (nres) SIM_CHECK ("set:any", res.count (o), "any took %s although a member resolved", o.c_str ());
              else SIM_CHECK ("set:any", is_error (o), "any took %s although all members rejected", o.c_str ());
              break;
            case 3:
              if (nrej) SIM_CHECK ("set:all_race", rej.count (o), "all_race took %s although a member rejected", o.c_str ());
              else SIM_CHECK ("set:all_race", !is_error (o), "all_race took %s although all members resolved", o.c_str ());
              break;
            }
        }
      SIM_CHECK ("set:notified", s->cb.calls == (decided ? 1 : 0), "dependent of the set ran %d times", s->cb.calls);
      if (decided) SIM_CHECK ("set:dependent", s->cb.got == o, "dependent saw %s, the set is %s", s->cb.got.c_str (), o.c_str ());
      DexFutureSet *fs = (DexFutureSet *) s->f;
      SIM_CHECK ("set:size", dex_future_set_get_size (fs) == s->m.size (), "size %u of %zu", dex_future_set_get_size (fs), s->m.size ());
      for (size_t k = 0; k < s->m.size (); k++)
        {
          SIM_CHECK ("set:member", dex_future_set_get_future_at (fs, k) == m[s->m[k]].f, "wrong member at %zu", k);
          GError *e = NULL; const GValue *v = dex_future_set_get_value_at (fs, k, &e);
          std::string g = outcome_of (v, e);
          if (m[s->m[k]].never) SIM_CHECK ("set:member-value", is_dex_error (g, DEX_ERROR_PENDING), "pending member reads %s", g.c_str ());
          else SIM_CHECK ("set:member-value", g == val_repr (m[s->m[k]].v), "member %zu reads %s", k, g.c_str ());
        }
    }
  for (auto &s : sets) { dex_unref (s->fin); dex_unref (s->f); }
  for (auto &x : m) { if (x.never) val_resolve (x.p, x.v); dex_unref (x.f); }
  sim_quiesce ();
  leak_end ("C05");
  SIM_CHECK ("leak:values", wl_objects_alive == 0, "%d resolved objects leaked", wl_objects_alive);
}

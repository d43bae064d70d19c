// C03: chains of then/catch/finally and loops against a small recursive model.
#include "wl.h"
struct Ret { int kind; Val v; int prom = -1; };   // 0 nothing, 1 completed future, 2 future completed later, 3 the argument itself
struct Node { int kind; std::vector<Ret> script; Cb cb; };

SIM_WORKLOAD (C03)
{
  leak_begin ();
  int nchains = sim_range (1, 2), nth = sim_range (1, 3);
  std::vector<DexPromise *> proms; std::vector<Val> pvals; int id = 1;
  auto new_prom = [&] () { proms.push_back (dex_promise_new ()); pvals.push_back (val_draw (id++, 2, 5)); return (int) proms.size () - 1; };
  struct Chain { int base; std::vector<std::unique_ptr<Node>> nodes; DexFuture *f = NULL; };
  std::vector<Chain> ch (nchains);
  for (auto &c : ch)
    {
      c.base = new_prom ();
      int n = sim_range (1, 4);
      for (int i = 0; i < n; i++)
        {
          auto nd = std::make_unique<Node> (); nd->kind = sim_choose (6); nd->cb.id = i;
          int nret = nd->kind >= 3 ? sim_range (1, 4) : 1;
          for (int k = 0; k < nret; k++)
            {
              Ret r; r.kind = sim_choose (4); r.v = val_draw (id++, 2, 5);
              if (r.kind == 3 && nd->kind >= 3) r.kind = 1;   // a loop on its own argument never ends
              if (r.kind == 2) { r.prom = new_prom (); r.v = pvals[r.prom]; }
              nd->script.push_back (r);
            }
          Node *np = nd.get ();
          nd->cb.fn = [np, &proms] (DexFuture *f) -> DexFuture * {
            int k = np->cb.calls - 1;
            if (k >= (int) np->script.size ()) return NULL;
            Ret &r = np->script[k];
            if (r.kind == 0) return NULL;
            if (r.kind == 1) return val_future (r.v);
            if (r.kind == 2) return fref (proms[r.prom]);
            return fref (f);
          };
          c.nodes.push_back (std::move (nd));
        }
    }
  // who completes which promise, in which order
  std::vector<std::vector<int>> prog (nth);
  std::vector<int> order (proms.size ()); for (size_t i = 0; i < order.size (); i++) order[i] = (int) i;
  for (size_t i = order.size (); i > 1; i--) std::swap (order[i - 1], order[sim_choose ((int) i)]);
  for (int i : order) prog[sim_choose (nth)].push_back (i);
  int from_main = sim_choose (2);   // chains built before or while the threads run
  auto build = [&] { for (auto &c : ch) { DexFuture *f = fref (proms[c.base]); for (auto &n : c.nodes) f = block_new (n->kind, f, &n->cb); c.f = f; } };
  for (auto &c : ch) { sim_note ("chain p%d=%s", c.base, val_repr (pvals[c.base]).c_str ()); for (auto &n : c.nodes) { sim_note (" %s(", block_name (n->kind)); for (auto &r : n->script) sim_note ("%s ", r.kind == 0 ? "NULL" : r.kind == 1 ? val_repr (r.v).c_str () : r.kind == 2 ? ("p" + std::to_string (r.prom)).c_str () : "arg"); sim_note (")"); } sim_note ("; "); }
  if (!from_main) build ();
  Threads T;
  for (int t = 0; t < nth; t++) T.go ([&, t] { for (int i : prog[t]) val_resolve (proms[i], pvals[i]); });
  if (from_main) build ();
  T.run ();
  calm_and_settle ();
  for (auto &c : ch)
    {
      std::string o = val_repr (pvals[c.base]); int ci = 0;
      for (auto &n : c.nodes)
        {
          int calls = 0; bool loop = n->kind >= 3; int k3 = n->kind % 3;
          for (;;)
            {
              bool handles = k3 == 2 || (k3 == 0) == !is_error (o);
              if (!handles || (!loop && calls)) break;
              Ret r; r.kind = 0; if (calls < (int) n->script.size ()) r = n->script[calls];
              calls++;
              if (r.kind == 0) break;
              if (r.kind != 3) o = val_repr (r.v);
              if (!loop) break;
            }
          sim_eval ();
          SIM_CHECK ("chain:calls", n->cb.calls == calls, "%s callback %d ran %d times, the model says %d", block_name (n->kind), ci, n->cb.calls, calls);
          if (calls > 1) sim_probe ("loop_reran");
          ci++;
        }
      SIM_CHECK ("chain:pending", outcome (c.f) != "pending", "the chain never completed");
      SIM_CHECK ("chain:outcome", outcome (c.f) == o, "the chain took %s, the model says %s", outcome (c.f).c_str (), o.c_str ());
    }
  for (auto &c : ch) dex_unref (c.f);
  for (auto p : proms) dex_unref (p);
  sim_quiesce ();
  for (auto &c : ch) for (auto &n : c.nodes) SIM_CHECK ("callback:data-not-released", n->cb.freed == 1, "callback data released %d times", n->cb.freed);
  leak_end ("C03");
  SIM_CHECK ("leak:values", wl_objects_alive == 0, "%d resolved objects leaked", wl_objects_alive);
}

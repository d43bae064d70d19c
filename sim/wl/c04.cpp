// C04: callbacks made in every context, completed from every other; where they run and when their data is released.
#include "wl.h"
struct Ctx { DexScheduler *s; bool fiber; int lo, hi; const char *name; };
struct B4 {
  int id, ctx, kind, src; bool src_block; int ret, n_loop = 0; Cb cb; DexFuture *f = NULL; int drop_by = -1; bool dropped = false; DexFuture *srcf = NULL;
  std::vector<DexPromise *> made; bool depth = false;
};
struct C4 { std::vector<Ctx> ctx; std::vector<std::unique_ptr<B4>> b; std::vector<DexPromise *> p; std::vector<DexPromise *> later; bool stop = false; int busy = 0; };
static C4 *W4;
struct Job4 { std::function<void ()> fn; bool *done; };
static void job4 (gpointer p) { Job4 *j = (Job4 *) p; j->fn (); *j->done = true; sim_wake_main (); delete j; }
static DexFuture *fiber4 (gpointer p) { job4 (p); return NULL; }
static void on_ctx (int c, std::function<void ()> fn)
{
  Ctx &x = W4->ctx[c];
  if (c == 0) { fn (); return; }
  bool done = false; Job4 *j = new Job4 { fn, &done };
  if (x.fiber) dex_unref (dex_scheduler_spawn (x.s, 0, fiber4, j, NULL)); else dex_scheduler_push (x.s, job4, j);
  if (!run_until ([&] { return done; })) sim_violation ("stuck:push", "a job for %s never ran", x.name);
}
static void make_block (B4 *b)
{
  DexFuture *s = b->src_block ? W4->b[b->src]->f : DEX_FUTURE (W4->p[b->src]);
  if (!s) s = DEX_FUTURE (W4->p[0]);
  b->srcf = fref (s);
  b->cb.id = b->id;
  b->cb.fn = [b] (DexFuture *f) -> DexFuture * {
    Ctx &x = W4->ctx[b->ctx]; int me = sim_self (); sim_eval ();
    SIM_CHECK ("callback:wrong-thread", me >= x.lo && me < x.hi, "callback %d (%s, made on %s) ran on thread %d", b->id, block_name (b->kind), x.name, me);
    if (b->kind < 3) SIM_CHECK ("callback:twice", b->cb.calls == 1, "callback %d ran %d times", b->id, b->cb.calls);
    sim_point ();
    SIM_CHECK ("callback:released-while-running", b->cb.freed == 0, "the data of callback %d was released while it ran", b->id);
    if (b->kind >= 3 && b->cb.calls > b->n_loop) return NULL;
    switch (b->ret)
      {
      case 0: return NULL;
      case 1: return b->id % 2 ? dex_future_new_for_int (b->id) : dex_future_new_for_error (val_error (b->id));
      default: { DexPromise *p = dex_promise_new (); DexFuture *r = fref (p); W4->later.push_back (p); return r; }
      }
  };
  DexFuture *bf = block_new (b->kind, fref (s), &b->cb);
  static const int kinds[] = { DEX_BLOCK_KIND_THEN, DEX_BLOCK_KIND_CATCH, DEX_BLOCK_KIND_FINALLY };
  int k = dex_block_get_kind (DEX_BLOCK (bf)); SIM_CHECK ("callback:kind", k == (kinds[b->kind % 3] | (b->kind < 3 ? 0 : DEX_BLOCK_KIND_LOOP)), "callback %d (%s) is of kind %d", b->id, block_name (b->kind), k);
  SIM_CHECK ("callback:scheduler", dex_block_get_scheduler (DEX_BLOCK (bf)) == dex_scheduler_get_thread_default (), "callback %d has another scheduler than the one it was made on", b->id);
  b->f = bf;   // from here on it may be dropped by others
}
SIM_WORKLOAD (C04)
{
  C4 w; W4 = &w; leak_begin ();
  sim_set_nprocs (2 * sim_range (1, 2));
  int me = sim_self (); DexScheduler *pools[2] = { NULL, NULL }; int npool = sim_range (1, 2);
  w.ctx.push_back ({ main_sched (), false, me, me + 1, "main" }); w.ctx.push_back ({ main_sched (), true, me, me + 1, "main fiber" });
  static const char *pn[] = { "pool A", "pool B" }, *fn[] = { "pool A fiber", "pool B fiber" };
  for (int i = 0; i < npool; i++)
    {
      int lo = sim_thread_total (); pools[i] = dex_thread_pool_scheduler_new (); int hi = sim_thread_total ();
      w.ctx.push_back ({ pools[i], false, lo, hi, pn[i] }); w.ctx.push_back ({ pools[i], true, lo, hi, fn[i] });
    }
  int np = sim_range (1, 3), nb = sim_range (1, 7), nth = sim_range (1, 3);
  for (int i = 0; i < np; i++) w.p.push_back (sim_chance (1, 4) ? dex_promise_new_cancellable () : dex_promise_new ());
  bool deep = sim_chance (1, 4);   // a long chain made in one place, so that completing it recurses
  int deep_ctx = sim_choose ((int) w.ctx.size ());
  if (deep) nb = sim_range (6, 14);
  for (int i = 0; i < nb; i++)
    {
      auto b = std::make_unique<B4> (); b->id = i; b->ctx = deep && sim_chance (9, 10) ? deep_ctx : sim_choose ((int) w.ctx.size ()); b->kind = deep ? 2 : sim_choose (6);
      b->src_block = i > 0 && (deep || sim_chance (1, 2)); b->src = b->src_block ? (deep ? i - 1 : sim_choose (i)) : sim_choose (np);
      b->ret = deep ? 0 : sim_choose (3); b->n_loop = b->ret ? sim_choose (3) : 0; if (sim_chance (1, 4)) b->drop_by = sim_choose (nth);
      sim_note ("%sb%d=%s(%s%d)@%s ret%d%s", i ? ", " : "", i, block_name (b->kind), b->src_block ? "b" : "p", b->src, w.ctx[b->ctx].name, b->ret, b->drop_by >= 0 ? " dropped" : "");
      w.b.push_back (std::move (b));
    }
  struct Step { int what, arg; };   // 0 complete promise, 1 drop block, 2 complete what callbacks returned
  std::vector<std::vector<Step>> prog (nth); std::vector<int> who (nth); std::vector<Val> vals; std::vector<bool> completed (np);
  auto add = [&] (int t, Step s) { auto &v = prog[t]; v.insert (v.begin () + sim_choose ((int) v.size () + 1), s); };
  for (int i = 0; i < np; i++) { vals.push_back (val_draw (i + 1)); if (sim_chance (5, 6)) add (sim_choose (nth), { 0, i }); }
  for (int k = sim_choose (4); k > 0; k--) add (sim_choose (nth), { 2, 0 });
  for (auto &b : w.b) if (b->drop_by >= 0) add (b->drop_by, { 1, b->id });
  for (int t = 0; t < nth; t++) who[t] = sim_choose (4);
  auto later = [&] { if (w.later.empty ()) return false; DexPromise *p = w.later.back (); w.later.pop_back (); if (w.later.size () % 3) dex_promise_reject (p, val_error (77)); else dex_promise_resolve_int (p, 7); dex_unref (p); return true; };
  Threads T;
  auto start = [&] {
    for (int t = 0; t < nth; t++)
      {
        auto body = [&, t] {
          for (auto &s : prog[t])
            switch (s.what)
              {
              case 0: completed[s.arg] = true; val_resolve (w.p[s.arg], vals[s.arg]); break;
              case 1: { bool needed = false; for (auto &k : w.b) if (k->src_block && k->src == s.arg && !k->srcf) needed = true; if (needed) break; }
                if (DexFuture *f = w.b[s.arg]->f) { w.b[s.arg]->f = NULL; w.b[s.arg]->dropped = true; dex_unref (f); } break;
              case 2: later (); break;
              }
        };
        if (who[t] == 1 && npool) T.go_on (pools[0], body); else if (who[t] == 2 && npool > 1) T.go_on (pools[1], body); else if (who[t] == 3) T.go_on (main_sched (), body); else T.go (body);
      }
  };
  bool concurrent = sim_chance (1, 2); if (concurrent) start ();
  for (auto &b : w.b) { B4 *q = b.get (); on_ctx (b->ctx, [q] { make_block (q); }); }
  if (!concurrent) start ();
  T.run ();
  calm_and_settle ();
  for (int i = 0; i < np; i++) if (!completed[i]) { if (sim_chance (1, 2)) { completed[i] = true; val_resolve (w.p[i], vals[i]); } }
  bool finish = sim_chance (3, 4);
  while (finish && !w.later.empty ()) { while (later ()) ; sim_quiesce (); }
  sim_quiesce ();
  for (auto &b : w.b)
    {
      std::string so = outcome (b->srcf); bool kept = b->f != NULL;
      if (b->kind < 3) SIM_CHECK ("callback:twice", b->cb.calls <= 1, "callback %d ran %d times", b->id, b->cb.calls);
      if (so == "pending") { SIM_CHECK ("callback:early", b->cb.calls == 0, "callback %d ran although the future it waits for is pending", b->id); continue; }
      bool handles = b->kind % 3 == 2 || (b->kind % 3 == 0) != is_error (so);
      if (!handles && b->kind < 3) SIM_CHECK ("callback:wrong-kind", b->cb.calls == 0, "%s ran for %s", block_name (b->kind), so.c_str ());
      if (kept && handles) SIM_CHECK ("callback:lost", b->cb.calls >= 1, "callback %d (made on %s) never ran although its future completed with %s", b->id, w.ctx[b->ctx].name, so.c_str ());
    }
  Threads T2; std::vector<std::vector<DexFuture *>> dp (3);
  for (auto &b : w.b) { dp[sim_choose (3)].push_back (b->srcf); if (b->f) dp[sim_choose (3)].push_back (b->f); }
  for (auto p : w.p) dp[sim_choose (3)].push_back (DEX_FUTURE (p));
  for (int t = 0; t < 3; t++) T2.go ([&dp, t] { for (auto f : dp[t]) dex_unref (f); });
  T2.run (); sim_quiesce ();
  while (!w.later.empty ()) { dex_unref (w.later.back ()); w.later.pop_back (); sim_quiesce (); }
  for (auto &b : w.b) SIM_CHECK ("callback:data-not-released", b->cb.freed == 1, "data of callback %d (ran %d times) released %d times", b->id, b->cb.calls, b->cb.freed);
  for (int i = 0; i < npool; i++) dex_unref (pools[i]);
  sim_quiesce (); leak_end ("C04");
}

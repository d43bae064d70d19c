// C10: work pushed to the main scheduler and to thread pools runs exactly once, on a thread of its scheduler.
#include "wl.h"
struct Pool { DexScheduler *s; int lo, hi; };
struct Item { int id, sched, runs = 0, tid = -1, kids = 0, burst = 0, stay = 0; int kid_sched[4]; bool tracked = true; };
struct C10 {
  std::vector<Pool> pools;      // [0] is the main scheduler
  std::vector<std::unique_ptr<Item>> items; int pushed = 0, done = 0; long small_runs = 0; int small_pushed = 0;
};
static C10 *W;
static int on_sched (int sched, int tid) { return tid >= W->pools[sched].lo && tid < W->pools[sched].hi; }
struct Small { int runs = 0, sched; };
static void run_small (gpointer p)
{
  Small *s = (Small *) p;
  SIM_CHECK ("push:twice", s->runs == 0, "an item of a burst ran twice");
  s->runs++; W->small_runs++;
  SIM_CHECK ("push:wrong-thread", on_sched (s->sched, sim_self ()), "an item of a burst pushed to scheduler %d ran on thread %d", s->sched, sim_self ());
}
static std::vector<Small *> smalls;
static void push_item (Item *it);
static void run_item (gpointer p)
{
  Item *it = (Item *) p;
  SIM_CHECK ("push:twice", it->runs == 0, "item %d ran twice", it->id);
  it->runs++; it->tid = sim_self (); sim_eval ();
  SIM_CHECK ("push:wrong-thread", on_sched (it->sched, it->tid), "item %d pushed to scheduler %d ran on thread %d, which is not a thread of it", it->id, it->sched, it->tid);
  // where it runs is what the schedulers say
  SIM_CHECK ("push:context", dex_scheduler_get_main_context (W->pools[it->sched].s) == (it->sched ? g_main_context_get_thread_default () : g_main_context_default ()), "on a thread of scheduler %d, the main context of that scheduler is another than the thread's", it->sched);
  DexScheduler *here = dex_scheduler_ref_thread_default (); SIM_CHECK ("push:context", here != NULL && here == dex_scheduler_get_thread_default () && (it->sched == 0) == (here == W->pools[0].s), "a thread of scheduler %d is told another scheduler", it->sched); dex_unref (here);
  if (it->stay) sim_sleep_us (it->stay); else sim_point ();
  for (int k = 0; k < it->burst; k++)
    {
      Small *s = new Small; s->sched = it->sched; smalls.push_back (s); W->small_pushed++;
      dex_scheduler_push (W->pools[it->sched].s, run_small, s);
    }
  for (int k = 0; k < it->kids; k++)
    {
      auto c = std::make_unique<Item> (); c->id = (int) W->items.size (); c->sched = it->kid_sched[k];
      Item *q = c.get (); W->items.push_back (std::move (c)); push_item (q);
    }
  W->done++;
}
// every worker is kept busy with short work of its own, so that they pop and steal from each other all the time
struct Storm { int left, width, sched; };
static void run_storm (gpointer p)
{
  Storm *st = (Storm *) p; W->small_runs++;
  SIM_CHECK ("push:wrong-thread", on_sched (st->sched, sim_self ()), "an item pushed to scheduler %d ran on thread %d", st->sched, sim_self ());
  int n = st->left > 0 ? st->width : 0; st->left--;
  for (int k = 0; k < n; k++)
    {
      Small *s = new Small; s->sched = st->sched; smalls.push_back (s); W->small_pushed++;
      dex_scheduler_push (W->pools[st->sched].s, run_small, s);
    }
  if (n) { W->small_pushed++; dex_scheduler_push (W->pools[st->sched].s, run_storm, st); }
}
// a worker whose loop is woken again and again, so that it looks for work to steal
struct Spin { int n; GMainContext *ctx = NULL; };
static void run_spin (gpointer p) { ((Spin *) p)->ctx = g_main_context_ref (g_main_context_get_thread_default ()); W->small_runs++; }
// raids: one worker keeps its queue going while all others are awake and steal from it
struct Raid { int sched, rounds, width, big; std::vector<GMainContext *> ctx; std::vector<int> tids; bool over = false; int gate = 0; };
static Raid *RD;
static void run_meet (gpointer)
{
  Raid *r = RD; W->small_runs++; sim_eval ();
  SIM_CHECK ("push:wrong-thread", on_sched (r->sched, sim_self ()), "an item pushed to scheduler %d ran on thread %d", r->sched, sim_self ());
  r->ctx.push_back (g_main_context_ref (g_main_context_get_thread_default ())); r->tids.push_back (sim_self ());
  while (!r->gate) sim_sleep_us (3);    // until the others have one, too
}
static void run_raid (gpointer p)
{
  Raid *r = (Raid *) p; W->small_runs++;
  SIM_CHECK ("push:wrong-thread", on_sched (r->sched, sim_self ()), "an item pushed to scheduler %d ran on thread %d", r->sched, sim_self ());
  if (r->rounds-- <= 0) { r->over = true; return; }
  int n = r->big && r->rounds % 4 == 0 ? r->big : r->width;
  // the raid goes on after the first or after all others
  bool last = r->rounds % 2;
  if (!last) { W->small_pushed++; dex_scheduler_push (W->pools[r->sched].s, run_raid, r); }
  for (int k = 0; k < n; k++)
    {
      Small *s = new Small; s->sched = r->sched; smalls.push_back (s); W->small_pushed++;
      dex_scheduler_push (W->pools[r->sched].s, run_small, s);
    }
  if (last) { W->small_pushed++; dex_scheduler_push (W->pools[r->sched].s, run_raid, r); }
}
static void raids (void)
{
  C10 w; W = &w; leak_begin (); Raid r; RD = &r;
  int nw = sim_range (2, 3); sim_set_nprocs (2 * nw);
  w.pools.push_back ({ main_sched (), 0, 1 });
  Pool p; p.lo = sim_thread_total (); p.s = dex_thread_pool_scheduler_new (); p.hi = sim_thread_total (); w.pools.push_back (p);
  r.sched = 1; r.width = sim_range (1, 3); r.big = sim_chance (1, 2) ? (sim_chance (1, 2) ? sim_range (253, 262) : sim_range (150, 560)) : 0; r.rounds = r.big ? sim_range (1, 8) : sim_range (5, 60); int wakes = 3000, pause = sim_range (1, 12);
  sim_note ("a raid on %d workers, %d rounds of %d/%d", p.hi - p.lo, r.rounds, r.width, r.big); sim_probe (r.big ? "raid_big" : "raid");
  // every worker takes one item that waits for the others
  for (int i = p.lo; i < p.hi; i++) { w.small_pushed++; dex_scheduler_push (p.s, run_meet, NULL); }
  for (int i = 0; i < 300 && (int) r.ctx.size () < p.hi - p.lo; i++) sim_sleep_us (2);
  r.gate = 1;
  std::vector<GMainContext *> ctx = r.ctx; std::set<int> tids (r.tids.begin (), r.tids.end ());
  SIM_CHECK ("push:idle-worker", ctx.size () == tids.size (), "%zu items that wait for each other ran on %zu workers", ctx.size (), tids.size ());
  if ((int) ctx.size () == p.hi - p.lo) sim_probe ("all_workers_met");
  w.small_pushed++; dex_scheduler_push (p.s, run_raid, &r);
  Threads T;
  for (GMainContext *c : ctx) T.go ([&r, c, wakes, pause] { for (int i = 0; i < wakes && !r.over; i++) { g_main_context_wakeup (c); for (int k = 0; k < pause; k++) sim_point (); } });
  T.run (); sim_quiesce ();
  sim_eval (); SIM_CHECK ("push:lost", w.small_runs == w.small_pushed, "%ld of %d items ran", w.small_runs, w.small_pushed);
  std::set<int> ran; (void) ran;
  for (GMainContext *c : r.ctx) g_main_context_unref (c);
  dex_unref (p.s); sim_quiesce (); leak_end ("raid");
}
static void push_item (Item *it) { W->pushed++; dex_scheduler_push (W->pools[it->sched].s, run_item, it); }

static Pool mkpool () { Pool p; p.lo = sim_thread_total (); p.s = dex_thread_pool_scheduler_new (); p.hi = sim_thread_total (); return p; }
// a pool does not need the main loop: its fibers, timeouts, I/O and channels go on while the main thread does something else
struct Solo { int id, kind, arg; bool done = false; int kid = 0; DexChannel *c = NULL; DexPromise *p = NULL; int file = -1; };
static int solo_left;
static DexFuture *solo_kid (gpointer p) { Solo *s = (Solo *) p; if (s->arg & 1) dex_await (dex_timeout_new_usec (s->arg), NULL); else sim_point (); s->kid++; return dex_future_new_for_int (s->id); }
static DexFuture *solo_cb (DexFuture *, gpointer p) { ((Solo *) p)->kid++; return dex_future_new_for_int (7); }
static DexFuture *solo_body (gpointer p)
{
  Solo *s = (Solo *) p; GError *e = NULL; int64_t t0 = sim_now_us (); sim_eval ();
  switch (s->kind)
    {
    case 0: dex_await (dex_timeout_new_usec (s->arg), &e); SIM_CHECK ("solo:outcome", g_error_matches (e, DEX_ERROR, DEX_ERROR_TIMED_OUT) && sim_now_us () - t0 >= s->arg, "a timeout of %d us ended after %lld us", s->arg, (long long) (sim_now_us () - t0)); break;
    case 1: { uint8_t *b = (uint8_t *) calloc (1, 16); gint64 n = dex_await_int64 (dex_aio_read (NULL, s->file, b, 16, 0), &e); SIM_CHECK ("solo:outcome", n == 16 && !e, "a read gave %lld", (long long) n); free (b); break; }
    case 2: { int v = dex_await_int (dex_scheduler_spawn (dex_scheduler_get_thread_default (), 0, solo_kid, s, NULL), &e); SIM_CHECK ("solo:outcome", v == s->id && !e && s->kid == 1, "a fiber gave %d", v); break; }
    case 3: dex_await (dex_channel_send (s->c, dex_future_new_for_int (s->id)), &e); SIM_CHECK ("solo:outcome", !e, "a send failed"); break;
    case 4: { int v = dex_await_int (dex_channel_receive (s->c), &e); SIM_CHECK ("solo:outcome", v > 0 && !e, "a receive gave %d", v); break; }
    case 5: { int v = dex_await_int (fref (s->p), &e); SIM_CHECK ("solo:outcome", v == 5 && !e, "a promise gave %d", v); break; }
    case 6: dex_scheduler_push (dex_scheduler_get_thread_default (), [] (gpointer p) { dex_promise_resolve_int (((Solo *) p)->p, 5); }, s); break;
    case 7: { int v = dex_await_int (dex_future_finally (dex_timeout_new_usec (s->arg), solo_cb, s, NULL), &e); SIM_CHECK ("solo:outcome", v == 7 && !e && s->kid == 1, "a callback gave %d", v); break; }
    case 8: dex_await (dex_future_first (dex_timeout_new_usec (s->arg), fref (s->p), NULL), &e); break;
    }
  g_clear_error (&e); s->done = true; solo_left--; return dex_future_new_true ();
}
static void solo (void)
{
  leak_begin (); sim_set_nprocs (2 * sim_range (1, 3)); int n = sim_range (1, 6); sim_note ("%d pairs of fibers while the main loop stands still:", n); sim_probe ("main_loop_stands_still");
  sim_expect_log ("destroyed while timer was active");
  DexScheduler *pool = dex_thread_pool_scheduler_new (); std::vector<std::unique_ptr<Solo>> S; std::vector<DexFuture *> fs; int file = sim_file_new (64);
  for (int i = 0; i < n; i++)
    {
      int k = sim_choose (6); static const int a[] = { 0, 1, 2, 3, 5, 7 }, b[] = { 8, 1, 7, 4, 6, 2 };
      DexChannel *c = dex_channel_new (sim_choose (2)); DexPromise *p = dex_promise_new ();
      for (int kind : { a[k], b[k] }) { auto s = std::make_unique<Solo> (); s->id = i + 1; s->kind = kind; s->arg = sim_choose (4) * 77 + 1; s->file = file; s->c = (DexChannel *) dex_ref (c); s->p = (DexPromise *) dex_ref (p); sim_note (" %d", kind); S.push_back (std::move (s)); }
      dex_unref (c); dex_unref (p);
    }
  solo_left = (int) S.size ();
  for (auto &s : S) fs.push_back (dex_scheduler_spawn (pool, 0, solo_body, s.get (), NULL));
  sim_calm ();
  for (int k = 0; k < 2000 && solo_left > 0; k++) sim_sleep_us (1000);   // and not one turn of the main loop
  for (auto &s : S) SIM_CHECK ("solo:stuck", s->done, "a fiber of a pool (kind %d) goes on only when the main loop turns", s->kind);
  sim_quiesce ();
  for (auto f : fs) { SIM_CHECK ("solo:outcome", dex_future_is_resolved (f), "a fiber gave %s", outcome (f).c_str ()); dex_unref (f); }
  for (auto &s : S) { dex_unref (s->c); dex_unref (s->p); }
  dex_unref (pool); sim_quiesce (); leak_end ("main loop stands still");
}
SIM_WORKLOAD (C10)
{
  if (sim_chance (1, 4)) { raids (); return; }
  if (sim_chance (1, 8)) { solo (); return; }
  C10 w; W = &w; leak_begin ();
  sim_set_nprocs (2 * sim_range (1, 4));
  w.pools.push_back ({ main_sched (), 0, 1 });
  int np = sim_chance (1, 3) ? 2 : 1;
  for (int i = 0; i < np; i++) w.pools.push_back (mkpool ());
  for (int i = 1; i <= np; i++) SIM_CHECK ("pool:workers", w.pools[i].hi > w.pools[i].lo && w.pools[i].s, "a pool without threads");
  int npush = sim_range (1, 3); bool burst = sim_chance (1, 12);
  sim_note ("%d pools x %d workers, %d pushers:", np, w.pools[1].hi - w.pools[1].lo, npush + 1);
  std::vector<std::vector<Item *>> prog (npush + 1);
  for (auto &p : prog)
    {
      int n = sim_range (0, 6);
      for (int k = 0; k < n; k++)
        {
          auto it = std::make_unique<Item> (); it->id = (int) w.items.size (); it->sched = sim_choose (np + 1);
          it->kids = sim_chance (1, 3) ? sim_range (1, 4) : 0; for (int j = 0; j < it->kids; j++) it->kid_sched[j] = sim_chance (2, 3) ? it->sched : sim_choose (np + 1);
          if (sim_chance (1, 5)) it->stay = 1 + sim_choose (3) * 100;
          if (burst && it->sched && sim_chance (1, 3)) { it->burst = sim_range (250, 600); burst = false; sim_probe ("burst"); }
          sim_note (" %d>%d%s%s", it->id, it->sched, it->kids ? "+" : "", it->burst ? "!" : "");
          p.push_back (it.get ()); w.items.push_back (std::move (it));
        }
      sim_note (";");
    }
  std::vector<std::unique_ptr<Storm>> storms;
  if (sim_chance (1, 3))
    for (int i = 0, n = sim_range (1, 4); i < n; i++)
      {
        auto st = std::make_unique<Storm> (); st->left = sim_range (1, 12); st->width = sim_range (1, 4); st->sched = 1 + sim_choose (np); sim_note (" storm %dx%d>%d", st->left, st->width, st->sched);
        W->small_pushed++; dex_scheduler_push (w.pools[st->sched].s, run_storm, st.get ()); storms.push_back (std::move (st));
      }
  std::vector<std::unique_ptr<Spin>> spins;
  if (storms.size ()) for (int i = 0, n = sim_choose (4); i < n; i++) { auto sp = std::make_unique<Spin> (); sp->n = sim_range (1, 60); W->small_pushed++; sim_note (" spin %d", sp->n); dex_scheduler_push (w.pools[1 + sim_choose (np)].s, run_spin, sp.get ()); spins.push_back (std::move (sp)); }
  if (storms.size ()) sim_probe ("storm");
  Threads T;
  for (auto &sp : spins) { Spin *q = sp.get (); T.go ([q] { for (int i = 0; i < q->n; i++) { if (q->ctx) g_main_context_wakeup (q->ctx); sim_point (); } }); }
  for (int t = 0; t < npush; t++) T.go ([&prog, t] { for (Item *it : prog[t]) push_item (it); });
  for (Item *it : prog[npush]) { push_item (it); if (sim_chance (1, 3)) g_main_context_iteration (NULL, FALSE); }
  T.run ();
  if (sim_chance (1, 2)) { sim_quiesce (); } else { calm_and_settle (); }
  auto check = [&] {
    for (auto &it : w.items) SIM_CHECK ("push:lost", it->runs == 1, "item %d pushed to scheduler %d ran %d times although the system is idle", it->id, it->sched, it->runs);
    SIM_CHECK ("push:lost", w.small_runs == w.small_pushed, "%ld of %d items of the burst ran", w.small_runs, w.small_pushed); sim_eval ();
  };
  check ();
  // the system still works after it went to sleep
  for (int i = 0; i <= np; i++) { auto it = std::make_unique<Item> (); it->id = (int) w.items.size (); it->sched = i; Item *q = it.get (); w.items.push_back (std::move (it)); push_item (q); }
  sim_quiesce (); check ();
  std::set<int> used; for (auto &it : w.items) if (it->sched) used.insert (it->tid);
  if (used.size () > 1) sim_probe ("several_workers");
  for (auto &sp : spins) g_main_context_unref (sp->ctx);
  for (int i = 1; i <= np; i++) { SIM_CHECK ("push:context", dex_scheduler_get_main_context (w.pools[i].s) == g_main_context_default (), "on the main thread, the main context of a pool is not the application's"); dex_unref (w.pools[i].s); }
  sim_quiesce (); leak_end ("C10");
}

// C23: a random graph of everything, built, completed and dropped by threads, pool workers, main-loop jobs and fibers.
#include "wl.h"
namespace {
struct Ref { DexFuture *f; bool pure, fin; };   // pure: no fiber and no channel below it; fin: certain to complete once the harness is done
enum Op { NEW_SET, NEW_BLOCK, NEW_TIMEOUT, NEW_PROMISE, NEW_DONE, DROP, COMPLETE, DISOWN, READ, SEND, RECEIVE, RECEIVE_ALL, CLOSE, DROP_CHANNEL, RELEASE, DROP_DELAYED, CANCEL, SPAWN, AWAIT, AIO, SEM_WAIT, SEM_POST, WEAK, MEMBER, SLEEP, DUP, NEW_DELAYED, NOPS };
const int weight[NOPS] = { 8, 8, 3, 3, 2, 14, 6, 2, 3, 4, 4, 1, 1, 1, 2, 1, 2, 5, 12, 2, 1, 1, 2, 2, 2, 3, 2 };
struct Step { int op; unsigned a, b; };
struct World;
struct Actor { World *w; int id, where; bool sched, done = false; std::vector<Ref> held; std::vector<DexChannel *> ch; std::vector<DexDelayed *> del; std::vector<Step> prog; };  // where: 0 plain, 1 pool, 2 main, 3 fiber
struct Pr { DexPromise *p; Val v; bool taken = false, fin; };
struct World {
  std::vector<Pr> prom; std::vector<GCancellable *> canc; std::vector<std::unique_ptr<Cb>> cbs; std::vector<std::unique_ptr<Actor>> actors; std::vector<std::vector<Step>> fprog;
  std::vector<ShimWeak *> weak; std::vector<char *> bufs; DexScheduler *pool = NULL; void *sem = NULL; int fd = -1; size_t sem_waits = 0; int objs = 0; unsigned nextf = 0; int fibers = 0; std::string d;
};
World *W;
DexFuture *fiber_main (gpointer p);
void free_actor (Actor *a)
{
  for (auto &r : a->held) dex_unref (r.f);
  for (auto c : a->ch) dex_unref (c);
  for (auto q : a->del) dex_unref (q);
  a->held.clear (); a->ch.clear (); a->del.clear ();
}
Cb *new_cb (void) { W->cbs.push_back (std::make_unique<Cb> ()); Cb *c = W->cbs.back ().get (); c->id = (int) W->cbs.size (); return c; }
void add (Actor *a, DexFuture *f, bool pure, bool fin) { a->held.push_back ({ f, pure, fin }); }
void step (Actor *a, Step s)
{
  if (sim_verbose ()) sim_trace ("a%d op %d %u %u held %zu", a->id, s.op, s.a, s.b, a->held.size ());
  auto &h = a->held; size_t n = h.size (); World &w = *W;
  auto pick = [&] (unsigned x) -> Ref & { return h[x % n]; };
  switch (s.op)
    {
    case NEW_SET:
      {
        if (!n) break;
        std::vector<DexFuture *> m; bool pure = true, fin = true; unsigned k = 1 + s.a % 3, x = s.b;
        for (unsigned i = 0; i < k; i++, x = x * 31 + 7) { Ref &r = pick (x >> 3); if (std::find (m.begin (), m.end (), r.f) != m.end ()) continue; m.push_back (r.f); pure &= r.pure; fin &= r.fin; }
        DexFuture *f;
        switch (s.a / 3 % 4) { case 0: f = dex_future_allv (m.data (), m.size ()); break; case 1: f = dex_future_firstv (m.data (), m.size ()); break; case 2: f = dex_future_anyv (m.data (), m.size ()); break; default: f = dex_future_all_racev (m.data (), m.size ()); }
        add (a, f, pure, fin); break;
      }
    case NEW_BLOCK:
      {
        if (!n || !a->sched) break;
        Ref r = pick (s.a), r2 = pick (s.b); Cb *c = new_cb (); bool ret = s.b / 7 % 2 == 0 && r2.f != r.f; DexFuture *x = r2.f;
        if (ret)
          {
            // the callback hands on another future that the data keeps alive
            struct Keep { DexFuture *f; ~Keep () { dex_unref (f); } }; auto k = std::make_shared<Keep> (); k->f = fref (x);
            c->fn = [k, c] (DexFuture *) -> DexFuture * { return c->calls > 2 ? NULL : fref (k->f); };
          }
        DexFuture *f = block_new (s.a / 5 % (ret && !r2.fin ? 3 : 6), fref (r.f), c);
        add (a, f, r.pure && (!ret || r2.pure), r.fin && (!ret || r2.fin)); break;
      }
    case NEW_TIMEOUT: add (a, s.a % 4 ? dex_timeout_new_usec (s.b % 20000) : dex_timeout_new_msec (s.b % 40), true, false); break;   // stays pending once discarded
    case NEW_PROMISE: { DexPromise *p = s.a % 2 ? dex_promise_new () : dex_promise_new_cancellable (); if (s.b % 2) val_resolve (p, { (int) (s.b % (K_NVALUES + 1)), (int) (s.b % 100) }); add (a, DEX_FUTURE (p), true, s.b % 2); break; }
    case NEW_DONE: add (a, s.a % 6 ? val_future ({ (int) (s.a % (K_NVALUES + 1)), (int) (s.b % 100) }) : dex_future_new_infinite (), true, s.a % 6 != 0); break;
    case DROP: { if (!n) break; unsigned i = s.a % n; DexFuture *f = h[i].f; h.erase (h.begin () + i); dex_unref (f); break; }
    case DUP: { if (!n) break; Ref r = pick (s.a); dex_ref (r.f); h.push_back (r); break; }
    case COMPLETE: { if (w.prom.empty ()) break; Pr &p = w.prom[s.a % w.prom.size ()]; if (!p.fin || p.taken) break; p.taken = true; val_resolve (p.p, p.v); break; }
    case DISOWN: { if (!n || !a->sched) break; unsigned i = s.a % n; if (!h[i].fin) break; DexFuture *f = h[i].f; h.erase (h.begin () + i); dex_future_disown (f); break; }
    case READ: { if (!n) break; Ref r = pick (s.a); std::string o = outcome (r.f); SIM_CHECK ("status", o == "pending" || !dex_future_is_pending (r.f), "pending again"); sim_eval (); break; }
    case SEND:
      {
        if (a->ch.empty () || !n) break;
        Ref r = pick (s.a); if (!r.pure || !r.fin) break;
        DexFuture *f = dex_channel_send (a->ch[s.b % a->ch.size ()], fref (r.f)); add (a, f, false, true); break;
      }
    case RECEIVE: if (a->ch.size ()) add (a, dex_channel_receive (a->ch[s.b % a->ch.size ()]), false, true); break;
    case RECEIVE_ALL: if (a->ch.size ()) add (a, dex_channel_receive_all (a->ch[s.b % a->ch.size ()]), false, true); break;
    case CLOSE: if (a->ch.size ()) { if (s.a % 2) dex_channel_close_send (a->ch[s.b % a->ch.size ()]); else dex_channel_close_receive (a->ch[s.b % a->ch.size ()]); } break;
    case DROP_CHANNEL: if (a->ch.size ()) { DexChannel *c = a->ch.back (); a->ch.pop_back (); dex_unref (c); } break;
    case RELEASE: if (a->del.size ()) dex_delayed_release (a->del[s.a % a->del.size ()]); break;
    case DROP_DELAYED: if (a->del.size ()) { DexDelayed *q = a->del.back (); a->del.pop_back (); dex_unref (q); } break;
    case NEW_DELAYED: { if (!n) break; Ref r = pick (s.a); if (!r.fin) break; DexFuture *q = dex_delayed_new (r.f); if (s.b % 3 == 0) { add (a, q, r.pure, false); } else { dex_delayed_release (DEX_DELAYED (q)); add (a, q, r.pure, true); } break; }
    case CANCEL: if (w.canc.size ()) { GCancellable *c = w.canc[s.a % w.canc.size ()]; if (s.b % 3 == 0) add (a, dex_cancellable_new_from_cancellable (c), true, true); else g_cancellable_cancel (c); } break;
    case SPAWN:
      {
        if (w.nextf >= w.fprog.size () || !a->sched) break;
        auto fa = std::make_unique<Actor> (); Actor *f = fa.get (); f->w = W; f->id = 100 + (int) w.nextf; f->where = 3; f->sched = true; f->prog = w.fprog[w.nextf++]; w.fibers++;
        unsigned x = s.a; for (int i = 0; i < 3 && n; i++, x = x * 31 + 7) { Ref r = pick (x >> 3); dex_ref (r.f); f->held.push_back (r); }
        for (auto c : a->ch) if (x++ % 2) f->ch.push_back ((DexChannel *) dex_ref (c));
        w.actors.push_back (std::move (fa));
        // its future goes only to whoever spawned it: nothing that exists already can await it
        add (a, dex_scheduler_spawn (s.b % 2 && w.pool ? w.pool : s.b % 4 ? main_sched () : NULL, 0, fiber_main, f, NULL), false, true); break;
      }
    case AWAIT: { if (a->where != 3) break; if (s.b % 8 == 0) { dex_await (dex_timeout_new_usec (s.a % 20000), NULL); break; } if (!n) break; unsigned i = s.a % n; Ref r = h[i]; if (!r.fin) break; h.erase (h.begin () + i); GError *e = NULL; dex_await (r.f, &e); g_clear_error (&e); sim_probe ("awaited"); break; }
    case AIO: { if (!a->sched || w.fd < 0) break; char *b = (char *) malloc (64); w.bufs.push_back (b); memset (b, 7, 64); DexFuture *f = s.a % 2 ? dex_aio_read (NULL, w.fd, b, 64, (s.b % 8) * 64) : dex_aio_write (NULL, w.fd, b, 64, (s.b % 8) * 64); add (a, f, true, true); break; }
    case SEM_WAIT: if (a->sched && w.sem) { w.sem_waits++; add (a, shim_semaphore_wait (w.sem), true, true); } break;
    case SEM_POST: if (w.sem) shim_semaphore_post (w.sem); break;
    case WEAK: if (w.weak.size ()) { DexFuture *f = (DexFuture *) shim_weak_get (w.weak[s.a % w.weak.size ()]); if (f) { sim_probe ("weak_alive"); add (a, f, false, false); } else sim_probe ("weak_gone"); } break;
    case MEMBER: if (n) { Ref r = pick (s.a); if (!DEX_IS_FUTURE_SET (r.f)) break; DexFutureSet *fs = DEX_FUTURE_SET (r.f); guint k = dex_future_set_get_size (fs); DexFuture *m = dex_future_set_get_future_at (fs, s.b % k); if (m) h.push_back ({ fref (m), r.pure, r.fin }); } break;
    case SLEEP: if (a->where == 0) sim_sleep_us (1 + s.a % 15000); else sim_point (); break;
    }
}
void run_actor (Actor *a) { for (auto s : a->prog) step (a, s); free_actor (a); a->done = true; }
DexFuture *fiber_main (gpointer p)
{
  Actor *a = (Actor *) p; run_actor (a);
  switch (a->id % 3) { case 0: return NULL; case 1: return dex_future_new_for_int (a->id); default: return dex_future_new_reject (wl_quark (), a->id, "x"); }
}
}
SIM_WORKLOAD (C23)
{
  sim_set_nprocs (2 * sim_range (1, 2)); sim_expect_log ("destroyed while timer was active");
  leak_begin (); World w; W = &w; w.objs = wl_objects_alive;
  bool want_pool = sim_chance (3, 4);
  if (want_pool) w.pool = dex_thread_pool_scheduler_new ();
  if (sim_chance (1, 4)) w.sem = shim_semaphore_new ();
  if (sim_chance (1, 3)) { w.fd = sim_file_new (1024); sim_fault_rate (F_IO_ERROR, .1); sim_fault_rate (F_IO_SHORT, .1); sim_fault_rate (F_IO_DELAY, .3); sim_fault_rate (F_IO_REORDER, .2); }
  int np = sim_range (0, 4), na = sim_range (1, 5), nc = sim_choose (3), nca = sim_choose (2), nd = sim_choose (3), nf = sim_choose (5), len = sim_range (3, 20);
  Actor setup; setup.w = W; setup.where = 2; setup.sched = true; setup.id = 0;
  for (int i = 0; i < np; i++) { Pr p; p.v = val_draw (i + 1); p.fin = sim_chance (3, 4); p.p = sim_chance (1, 2) ? dex_promise_new_cancellable () : dex_promise_new (); add (&setup, DEX_FUTURE (fref (p.p)), true, p.fin); w.prom.push_back (p); }
  for (int i = 0; i < nca; i++) w.canc.push_back (g_cancellable_new ());
  for (int i = 0; i < nca; i++) add (&setup, dex_cancellable_new_from_cancellable (w.canc[i]), true, true);
  for (int i = 0; i < nc; i++) setup.ch.push_back (dex_channel_new (sim_choose (4)));
  for (int i = 0; i < nd; i++) { DexFuture *in = setup.held.size () && sim_chance (2, 3) ? setup.held[sim_choose ((int) setup.held.size ())].f : NULL; bool fin = true; if (in) for (auto &r : setup.held) if (r.f == in) fin = r.fin; DexFuture *x = in ? fref (in) : dex_future_new_for_int (5), *q = dex_delayed_new (x); dex_unref (x); setup.del.push_back ((DexDelayed *) dex_ref (q)); add (&setup, q, true, fin); }
  auto draw = [&] (int where) { Step s; int tot = 0; for (int i = 0; i < NOPS; i++) tot += weight[i]; for (;;) { int x = sim_choose (tot), o = 0; while (x >= weight[o]) x -= weight[o++]; if (o == AWAIT && where != 3) continue; if ((o == NEW_BLOCK || o == SPAWN || o == AIO) && where == 0) continue; s.op = o; break; } s.a = (unsigned) sim_choose (1 << 20); s.b = (unsigned) sim_choose (1 << 20); return s; };
  // the graph before the threads start
  for (int k = sim_choose (14); k > 0; k--) { Step s = draw (2); if (s.op != DROP && s.op != SPAWN && s.op != DROP_CHANNEL && s.op != DROP_DELAYED) { sim_note ("%d,", s.op); step (&setup, s); } }
  for (auto &r : setup.held) if (sim_chance (1, 4)) w.weak.push_back (shim_weak_new (r.f));
  for (int i = 0; i < nf; i++) { std::vector<Step> p; for (int k = sim_range (1, len); k > 0; k--) p.push_back (draw (3)); w.fprog.push_back (p); }
  for (int k = sim_choose (3); k > 0; k--) { Step s { SPAWN, (unsigned) sim_choose (1 << 20), (unsigned) sim_choose (1 << 20) }; step (&setup, s); }
  std::vector<Actor *> act;
  for (int i = 0; i < na; i++)
    {
      auto a = std::make_unique<Actor> (); a->w = W; a->id = i + 1; a->where = sim_choose (3); if (a->where == 1 && !w.pool) a->where = 0; a->sched = a->where != 0;
      for (auto &r : setup.held) if (sim_chance (1, 2)) { dex_ref (r.f); a->held.push_back (r); }
      for (auto c : setup.ch) if (sim_chance (1, 2)) a->ch.push_back ((DexChannel *) dex_ref (c));
      for (auto q : setup.del) if (sim_chance (1, 2)) a->del.push_back ((DexDelayed *) dex_ref (q));
      for (int k = sim_range (1, len); k > 0; k--) a->prog.push_back (draw (a->where));
      sim_note (" a%d@%d:", a->id, a->where); for (auto &s : a->prog) sim_note ("%d,", s.op);
      act.push_back (a.get ()); w.actors.push_back (std::move (a));
    }
  if (sim_chance (2, 3)) { for (auto &r : setup.held) dex_unref (r.f); setup.held.clear (); }   // only the threads hold it
  Threads T;
  for (auto a : act) T.go_as (a->where, w.pool, [a] { run_actor (a); });
  T.run ();
  // nobody acts any more apart from the fibers: the rest completes, in whatever state it is
  bool first_drop = sim_chance (1, 2);
  if (first_drop) { for (auto &r : setup.held) dex_unref (r.f); setup.held.clear (); }
  for (auto &p : w.prom) if (p.fin && !p.taken) { p.taken = true; val_resolve (p.p, p.v); }
  for (auto c : w.canc) g_cancellable_cancel (c);
  for (auto q : setup.del) dex_delayed_release (q);
  auto closing = [&] { for (auto c : setup.ch) { dex_channel_close_send (c); dex_channel_close_receive (c); } size_t m = w.sem_waits; if (w.sem && m) shim_semaphore_post_many (w.sem, (unsigned) m); };
  closing ();
  calm_and_settle ();
  for (size_t m = ~(size_t) 0; m != w.sem_waits;) { m = w.sem_waits; closing (); sim_quiesce (); }   // fibers may wait anew
  for (auto &a : w.actors) SIM_CHECK ("stuck:fiber", a->done, "fiber %d never came to its end", a->id);
  for (auto &r : setup.held) if (r.fin) { SIM_CHECK ("stuck:future", !dex_future_is_pending (r.f), "a future is pending although everything below it is complete"); sim_eval (); }
  free_actor (&setup);
  for (auto &p : w.prom) dex_unref (p.p);
  for (auto c : w.canc) g_object_unref (c);
  sim_quiesce ();
  for (auto q : w.weak) { void *o = shim_weak_get (q); if (o) { sim_probe ("weak_at_end"); dex_unref (o); } shim_weak_clear (q); }
  for (auto &c : w.cbs) { SIM_CHECK ("callback:data-not-released", c->freed == 1, "callback data released %d times", c->freed); SIM_CHECK ("callback:after-free", !c->call_after_free, "a callback ran with released data"); sim_eval (); }
  if (w.sem) dex_unref (w.sem);
  if (w.pool) dex_unref (w.pool);
  sim_quiesce ();
  SIM_CHECK ("leak:values", wl_objects_alive == w.objs, "%d values are still alive", wl_objects_alive - w.objs);
  leak_end ("C23");
  if (w.fd >= 0) close (w.fd);
  for (auto b : w.bufs) free (b);
}

// C19: DexAsyncResult over futures of every kind, made and awaited on the main loop, workers, fibers and threads with a main context of their own.
#include "wl.h"
namespace {
struct Ar {
  int id, where = 0, kind = 0, early = 0, by = -1, cby = -1, form = 0; Val v, w; bool has_cb = true, has_src = true, canc = false, hang = false, cancelled_first = false, keep = false, named = false; int prio = 0;
  DexAsyncResult *r = NULL; DexPromise *p = NULL; GCancellable *c = NULL; GObject *src = NULL; GThread *owner = NULL;
  bool inv = false, done = false, cinv = false, awaited = false; int calls = 0; std::string got; int r_gone = 0, src_gone = 0; GMainContext *own_ctx = NULL; bool in_cb = false;
  DexCancellable *probe = NULL;
};
std::vector<std::unique_ptr<Ar>> AR;
void r_gone (gpointer d, GObject *) { Ar *a = (Ar *) d; a->r_gone++; if (a->in_cb) sim_violation ("result:released-early", "result %d was released while its callback runs", a->id); }
void s_gone (gpointer d, GObject *) { Ar *a = (Ar *) d; a->src_gone++; if (a->in_cb || (a->has_cb && !a->calls && a->awaited)) sim_violation ("result:released-early", "the object of result %d was released before its callback returned", a->id); }
std::string propagate (Ar *a, DexAsyncResult *r)
{
  GError *e = NULL; std::string s; char b[64];
  switch (a->w.kind)
    {
    case K_INT: case K_UINT: case K_INT64: case K_UINT64: case K_LONG: case K_ULONG:
      { gssize n = dex_async_result_propagate_int (r, &e); Val v = a->w; (void) v; s = std::string ("n:") + std::to_string ((int64_t) n); break; }
    case K_DOUBLE: case K_FLOAT: { double d = dex_async_result_propagate_double (r, &e); snprintf (b, sizeof b, "d:%.2f", d); s = b; break; }
    case K_BOOL: s = dex_async_result_propagate_boolean (r, &e) ? "b:1" : "b:0"; break;
    case K_OBJECT: { GObject *o = (GObject *) dex_async_result_propagate_pointer (r, &e); s = "o:" + (o ? std::to_string (GPOINTER_TO_INT (g_object_get_data (o, "id"))) : std::string ("null")); if (o) g_object_unref (o); break; }
    case K_VARIANT: { GVariant *o = (GVariant *) dex_async_result_propagate_pointer (r, &e); char *t = o ? g_variant_print (o, TRUE) : g_strdup ("null"); s = std::string ("v:") + t; g_free (t); if (o) g_variant_unref (o); break; }
    case K_BOXED: { gpointer o = dex_async_result_propagate_pointer (r, &e); s = "x:" + std::to_string (val_box_id (o)); if (o) g_boxed_free (val_box_type (), o); break; }
    case K_POINTER: s = "p:" + std::to_string ((uintptr_t) dex_async_result_propagate_pointer (r, &e)); break;
    default: switch (a->id % 4) { case 0: dex_async_result_propagate_int (r, &e); break; case 1: dex_async_result_propagate_double (r, &e); break; case 2: dex_async_result_propagate_boolean (r, &e); break; case 3: (void) !dex_async_result_propagate_pointer (r, &e); } s = "nothing";
    }
  if (e) s = error_repr (e);
  g_clear_error (&e); return s;
}
std::string want (Ar *a)
{
  char b[64]; int64_t id = a->w.id;
  switch (a->w.kind)
    {
    case K_INT: case K_UINT: return "n:" + std::to_string (id);
    case K_INT64: return "n:" + std::to_string (id << 33); case K_UINT64: return "n:" + std::to_string (id << 34); case K_LONG: return "n:" + std::to_string (id << 35); case K_ULONG: return "n:" + std::to_string (id << 36);
    case K_DOUBLE: snprintf (b, sizeof b, "d:%.2f", id + .25); return b; case K_FLOAT: snprintf (b, sizeof b, "d:%.2f", id + .5); return b;
    case K_BOOL: return id & 1 ? "b:1" : "b:0"; case K_OBJECT: return "o:" + std::to_string (id);
    case K_VARIANT: return "v:('v" + std::to_string (id) + "', " + std::to_string (id) + ")";
    case K_BOXED: return "x:" + std::to_string (id); case K_POINTER: return "p:" + std::to_string (id * 16);
    default: return val_repr (a->w);
    }
}
void check (Ar *a, const std::string &got, const char *how)
{
  sim_eval ();
  if (a->cinv && err_key (got) == "err:g-io-error-quark:19") { sim_probe ("result_cancelled"); return; }
  SIM_CHECK ("result:outcome", got == want (a), "result %d gave %s instead of %s (%s)", a->id, got.c_str (), want (a).c_str (), how);
  SIM_CHECK ("result:early", a->inv, "result %d called back before its future completed (%s)", a->id, how);
}
void ready (GObject *src, GAsyncResult *res, gpointer data)
{
  Ar *a = (Ar *) data; sim_eval ();
  SIM_CHECK ("result:twice", ++a->calls == 1, "result %d called back %d times", a->id, a->calls);
  SIM_CHECK ("result:wrong-thread", g_thread_self () == a->owner, "result %d called back on another thread than its owner's", a->id);
  SIM_CHECK ("result:early", a->inv || a->cinv, "result %d called back before its future completed", a->id);
  SIM_CHECK ("result:object", src == a->src && (!a->has_src || !a->src_gone), "result %d called back with another object", a->id);
  SIM_CHECK ("result:object", DEX_IS_ASYNC_RESULT (res) && !a->r_gone, "result %d called back with another result", a->id);
  if (a->named) SIM_CHECK ("result:name", !g_strcmp0 (dex_async_result_get_name (DEX_ASYNC_RESULT (res)), "the name"), "result %d lost its name", a->id);
  a->in_cb = true;
  DexFuture *f = dex_async_result_dup_future (DEX_ASYNC_RESULT (res)); SIM_CHECK ("result:no-future", f != NULL, "result %d has no future when it calls back", a->id);
  std::string o = outcome (f);
  a->got = propagate (a, DEX_ASYNC_RESULT (res)); check (a, a->got, "callback");
  SIM_CHECK ("result:future", is_error (o) == is_error (a->got), "the future of result %d gave %s and the result %s", a->id, o.c_str (), a->got.c_str ());
  GObject *s2 = g_async_result_get_source_object (res); SIM_CHECK ("result:object", s2 == src, "result %d has another source object", a->id); if (s2) g_object_unref (s2);
  sim_point (); a->in_cb = false;
  dex_unref (f);
}
void make (Ar *a)
{
  a->owner = g_thread_self ();
  if (a->has_src) { a->src = (GObject *) g_object_new (G_TYPE_OBJECT, NULL); g_object_weak_ref (a->src, s_gone, a); } else a->src_gone = 1;
  a->r = dex_async_result_new (a->src, a->c, a->has_cb ? ready : NULL, a);
  g_object_weak_ref (G_OBJECT (a->r), r_gone, a);
  if (a->prio) dex_async_result_set_priority (a->r, a->prio);
  if (a->named) { if (a->id & 1) dex_async_result_set_name (a->r, "the name"); else dex_async_result_set_static_name (a->r, "the name"); }
}
DexFuture *pass (DexFuture *, gpointer) { return NULL; }
void await (Ar *a)
{
  GError *e = NULL; DexFuture *f = fref (a->p);
  if (a->form == 1) f = dex_future_finally (f, pass, NULL, NULL); else if (a->form == 2) f = dex_future_all_race (f, NULL);
  std::string s = propagate (a, a->r); SIM_CHECK ("result:outcome", is_dex_error (s, DEX_ERROR_PENDING), "result %d gave %s before it awaits anything", a->id, s.c_str ());
  g_clear_error (&e);
  DexAsyncResult *r = a->r; GObject *src = a->src; bool keep = a->keep;
  a->awaited = true;
  dex_async_result_await (r, f);
  if (!keep) { g_object_unref (r); if (src) g_object_unref (src); }   // it keeps what it needs
}
// several results on one loop, complete before it turns: called back by their priorities, and in order among equals
struct Pr { int prio, made; };
std::vector<Pr> PRIO_ORDER;
void prio_ready (GObject *, GAsyncResult *res, gpointer d) { Pr *p = (Pr *) d; PRIO_ORDER.push_back (*p); (void) !dex_async_result_propagate_boolean (DEX_ASYNC_RESULT (res), NULL); }
void prio_run (void)
{
  static const int pr[] = { -100, 0, 1, 5, 200, 300 };
  int n = sim_range (2, 5); std::vector<Pr> all; PRIO_ORDER.clear (); for (int i = 0; i < n; i++) all.push_back ({ pr[sim_choose (6)], i });
  for (auto &p : all)
    {
      DexAsyncResult *r = dex_async_result_new (NULL, NULL, prio_ready, &p); if (p.prio) dex_async_result_set_priority (r, p.prio);
      dex_async_result_await (r, sim_chance (1, 4) ? dex_future_new_reject (wl_quark (), 1, "x") : dex_future_new_true ()); g_object_unref (r);
    }
  SIM_CHECK ("result:early", PRIO_ORDER.empty (), "a result called back while it was being awaited");
  sim_quiesce (); sim_eval ();
  SIM_CHECK ("result:no-callback", (int) PRIO_ORDER.size () == n, "%zu of %d results called back", PRIO_ORDER.size (), n);
  for (size_t i = 1; i < PRIO_ORDER.size (); i++)
    {
      Pr a = PRIO_ORDER[i - 1], b = PRIO_ORDER[i];
      SIM_CHECK ("result:priority", a.prio < b.prio || (a.prio == b.prio && a.made < b.made), "result %d of priority %d called back before result %d of priority %d", a.made, a.prio, b.made, b.prio);
    }
}
}
SIM_WORKLOAD (C19)
{
  if (sim_chance (1, 16)) { leak_begin (); prio_run (); leak_end ("priorities"); return; }
  sim_set_nprocs (2 * sim_range (1, 2)); AR.clear ();
  int n = sim_range (1, 4), nth = sim_range (1, 3);
  DexScheduler *pool = sim_chance (3, 4) ? dex_thread_pool_scheduler_new () : NULL;
  leak_begin ();
  for (int i = 0; i < n; i++)
    {
      auto a = std::make_unique<Ar> (); a->id = i + 1; a->v = val_draw (i + 1, 1, 4); if (a->v.kind == K_STRING || a->v.kind == K_ENUM || a->v.kind == K_FLAGS || a->v.kind == K_DEX) a->v.kind = K_INT;
      a->where = sim_choose (pool ? 6 : 2);   // 0 main, 1 fiber on main, 2 worker, 3 fiber on the pool, 4 made on main and awaited by the pool, 5 made by a thread with its own context, awaited by the pool
      if (!pool && sim_chance (1, 4)) a->where = 6;   // the same, awaited on the main loop
      a->has_cb = !sim_chance (1, 6) || a->where >= 5; a->has_src = !sim_chance (1, 5); a->canc = sim_chance (1, 3); a->keep = sim_chance (1, 3) || !a->has_cb; a->named = sim_chance (1, 2); a->prio = sim_chance (1, 3) ? 5 : 0;
      a->form = sim_choose (3); a->w = a->v; if (a->form == 2 && a->v.kind != K_ERROR) a->w = Val { K_BOOL, a->v.id | 1 };
      a->by = sim_choose (nth); a->early = sim_chance (1, 4); if (a->canc && sim_chance (1, 2)) a->cby = sim_choose (nth);
      sim_note ("%s r%d(on %d,%s%s%s%s%s%s)", i ? "," : "", a->id, a->where, a->v.kind == K_ERROR ? "error" : "value", a->has_cb ? "" : ",no callback", a->early ? ",complete" : "", a->canc ? ",cancellable" : "", a->cby >= 0 ? ",cancelled" : "", a->keep ? ",kept" : "");
      // cancelled is all it ever gets
      if (a->cby >= 0 && sim_chance (1, 3)) { a->hang = true; a->early = 0; a->cancelled_first = sim_chance (1, 2); }
      if (a->hang) sim_note ("%s", a->cancelled_first ? " cancelled before it awaits" : " cancelled only");
      a->p = dex_promise_new (); if (a->canc) a->c = g_cancellable_new ();
      if (a->cancelled_first) { a->cinv = true; a->cby = -1; g_cancellable_cancel (a->c); sim_probe ("cancelled_before_await"); }
      AR.push_back (std::move (a));
    }
  enum { DONE, CANCEL, SLEEP };
  struct Step { int what, arg; };
  std::vector<std::vector<Step>> prog (nth);
  auto add = [&] (int th, Step s) { auto &v = prog[th]; v.insert (v.begin () + sim_range (0, (int) v.size ()), s); };
  for (int i = 0; i < n; i++) { if (!AR[i]->early && !AR[i]->hang) add (AR[i]->by, { DONE, i }); if (AR[i]->cby >= 0) add (AR[i]->cby, { CANCEL, i }); }
  for (int k = sim_choose (3); k > 0; k--) add (sim_choose (nth), { SLEEP, 1 + sim_choose (20) });
  for (auto &a : AR) if (a->early) { a->inv = a->done = true; val_resolve (a->p, a->v); }
  Threads T, TO; bool stop = false;
  // made elsewhere first
  for (auto &ap : AR)
    {
      Ar *a = ap.get ();
      if (a->where == 4) make (a);
      if (a->where >= 5)
        {
          a->own_ctx = g_main_context_new ();
          struct Own { Ar *a; bool *stop; };
          bool *st = &stop;
          TO.go ([a, st] {
            g_main_context_push_thread_default (a->own_ctx); make (a); a->in_cb = false; a->early = 2;
            sim_wake_main ();
            while (!a->calls && !*st) g_main_context_iteration (a->own_ctx, TRUE);
            g_main_context_pop_thread_default (a->own_ctx);
          });
        }
    }
  if (!run_until ([&] { for (auto &a : AR) if (a->where >= 5 && a->early != 2) return false; return true; })) sim_violation ("stuck:thread", "a thread that makes a result never started");
  for (int t = 0; t < nth; t++)
    T.go ([&, t] {
      for (auto &s : prog[t])
        switch (s.what)
          {
          case DONE: AR[s.arg]->inv = true; val_resolve (AR[s.arg]->p, AR[s.arg]->v); AR[s.arg]->done = true; break;
          case CANCEL: AR[s.arg]->cinv = true; g_cancellable_cancel (AR[s.arg]->c); break;
          case SLEEP: sim_sleep_us (s.arg * 1000); break;
          }
    });
  for (auto &ap : AR)
    {
      Ar *a = ap.get ();
      auto both = [] (gpointer p) { Ar *a = (Ar *) p; if (!a->r) make (a); await (a); };
      typedef void (*PF) (gpointer);
      switch (a->where)
        {
        case 0: case 6: both (a); break;
        case 2: case 4: case 5: dex_scheduler_push (pool, (PF) both, a); break;
        default: dex_unref (dex_scheduler_spawn (a->where == 1 ? main_sched () : pool, 0, [] (gpointer p) -> DexFuture * { Ar *a = (Ar *) p; if (!a->r) make (a); await (a); return dex_future_new_true (); }, a, NULL));
        }
    }
  T.run ();
  sim_calm (); sim_quiesce ();
  for (auto &ap : AR)
    {
      Ar *a = ap.get (); sim_eval ();
      if (a->has_cb) SIM_CHECK ("result:no-callback", a->calls == 1, "result %d called back %d times although its future is complete", a->id, a->calls);
      else check (a, propagate (a, a->r), "at rest");
      if (a->hang && a->has_cb) SIM_CHECK ("result:cancelled", err_key (a->got) == "err:g-io-error-quark:19", "result %d gave %s although it was cancelled and its future never completes", a->id, a->got.c_str ());
      if (a->keep) { g_object_unref (a->r); if (a->src) g_object_unref (a->src); }
    }
  stop = true; for (auto &a : AR) if (a->own_ctx) g_main_context_wakeup (a->own_ctx);
  TO.run ();
  sim_quiesce ();
  for (auto &a : AR)
    {
      SIM_CHECK ("result:leaked", a->r_gone == 1, "result %d was never released", a->id);
      if (a->has_src) SIM_CHECK ("result:leaked", a->src_gone == 1, "the object of result %d was released %d times", a->id, a->src_gone);
      dex_unref (a->p); if (a->c) { SIM_CHECK ("result:leaked", G_OBJECT (a->c)->ref_count == 1, "the cancellable of result %d has %d references left", a->id, G_OBJECT (a->c)->ref_count); g_object_unref (a->c); } if (a->own_ctx) g_main_context_unref (a->own_ctx);
    }
  leak_end ("C19");
  SIM_CHECK ("leak:values", wl_objects_alive == 0, "%d values leaked", wl_objects_alive);
  if (pool) { dex_unref (pool); }
  sim_quiesce ();
}

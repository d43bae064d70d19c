// C08, C09: fibers on the main loop and on pools, awaiting promises, timeouts, sets, delayed futures and each other.
#include "wl.h"
enum { A_AWAIT, A_COMPLETE, A_FIBER, A_SLEEP, A_DONE, A_SET, A_SPAWN, A_MISMATCH, A_NUM };
struct Act { int what, arg, arg2; };
struct Fb {
  int id, sched, ret, ret_arg; size_t stack; std::vector<Act> acts; bool closed = false, cancellable = false; int close_no = 1000;
  DexFuture *f = NULL, *dep = NULL; Cb cb; bool spawned = false, dropped = false; int started = 0, finished = 0, freed = 0, tid = -1, at = -1; int spawner = -1;
  bool cancel_inv = false, cancel_seen = false, roomy = false;
};
struct Pr { DexPromise *p; Val v; bool inv = false, done = false; int by = -1; };
struct Sch { DexScheduler *s; int lo, hi; };
static std::vector<Sch> SC; static std::vector<std::unique_ptr<Fb>> FB; static std::vector<Pr> PR;
static void spawn_fb (Fb *f);
static std::string fb_expect (Fb *f)
{
  switch (f->ret)
    {
    case 0: return DEXERR (DEX_ERROR_FIBER_EXITED);
    case 1: return val_repr (Val { K_INT, 1000 + f->id });
    case 2: return val_repr (PR[f->ret_arg].v);
    case 3: return fb_expect (FB[f->ret_arg].get ());
    default: return val_repr (Val { K_ERROR, 1000 + f->id });
    }
}
static bool fb_matches (Fb *f, const std::string &o) { if (f->ret == 0) return is_dex_error (o, DEX_ERROR_FIBER_EXITED); if (f->ret == 3) return fb_matches (FB[f->ret_arg].get (), o); return o == fb_expect (f); }
static bool pr_known (int i) { return PR[i].inv; }
static void complete_pr (int i) { if (PR[i].inv) return; PR[i].inv = true; val_resolve (PR[i].p, PR[i].v); PR[i].done = true; }
// awaits in the way that fits the kind of value, and gives what was received
static std::string await_val (DexFuture *f, int kind, int id)
{
  GError *e = NULL; char b[64];
  std::string bad = "err";
#define NUM(name, T, repr) { auto v = dex_await_##name (f, &e); if (e) break; return std::string (T) + repr; }
  switch (kind)
    {
    case K_INT: NUM (int, "gint:", std::to_string (v));
    case K_UINT: NUM (uint, "guint:", std::to_string (v));
    case K_INT64: NUM (int64, "gint64:", std::to_string (v));
    case K_UINT64: NUM (uint64, "guint64:", std::to_string (v));
    case K_DOUBLE: NUM (double, "gdouble:", std::to_string (v));
    case K_FLOAT: NUM (float, "gfloat:", std::to_string (v));
    case K_BOOL: { gboolean v = dex_await_boolean (f, &e); if (e) break; return std::string ("gboolean:") + std::to_string (v); }
    case K_STRING: { char *s = dex_await_string (f, &e); if (e) break; std::string r = std::string ("gchararray:") + (s ? s : "(null)"); g_free (s); return r; }
    case K_VARIANT: { GVariant *v = dex_await_variant (f, &e); if (e) break; char *s = v ? g_variant_print (v, TRUE) : g_strdup ("(null)"); std::string r = std::string ("GVariant:") + s; g_free (s); if (v) g_variant_unref (v); return r; }
    case K_OBJECT: { GObject *o = (GObject *) dex_await_object (f, &e); if (e) break; std::string r = std::string ("GObject:") + (o ? std::to_string (GPOINTER_TO_INT (g_object_get_data (o, "id"))) : "(null)"); if (o) g_object_unref (o); return r; }
    case K_POINTER: { gpointer v = dex_await_pointer (f, &e); if (e) break; return "gpointer:" + std::to_string ((uintptr_t) v); }
    case K_BOXED: { gpointer v = dex_await_boxed (f, &e); if (e) break; std::string r = "SimBox:" + std::to_string (val_box_id (v)); if (v) g_boxed_free (val_box_type (), v); return r; }
    case K_ENUM: NUM (enum, "SimEnumV:", std::to_string (v));
    case K_FLAGS: NUM (flags, "SimFlagsV:", std::to_string (v));
    default:
      {
        // no typed variant: keep a reference and read the future
        dex_ref (f); gboolean ok = dex_await (f, &e); std::string r = e ? error_repr (e) : outcome (f);
        SIM_CHECK ("fiber:await-result", ok == (e == NULL), "dex_await() gave %d but %s error", ok, e ? "an" : "no");
        g_clear_error (&e); dex_unref (f); return r;
      }
    }
  (void) b; (void) id; (void) bad;
  if (!e) return "no value and no error";
  std::string r = error_repr (e); g_error_free (e); return r;
}
struct Canary { volatile uint64_t a[24]; };
static void __attribute__ ((noinline)) canary_set (Canary *c, uint64_t x) { for (int i = 0; i < 24; i++) c->a[i] = x * 0x9E3779B97F4A7C15ull + i; }
static bool __attribute__ ((noinline)) canary_ok (Canary *c, uint64_t x) { for (int i = 0; i < 24; i++) if (c->a[i] != x * 0x9E3779B97F4A7C15ull + i) return false; return true; }
static void after_await (Fb *f, const std::string &got, const std::string &want, bool known, const char *what)
{
  sim_eval ();
  SIM_CHECK ("fiber:thread", sim_self () == f->tid, "fiber %d went on on thread %d, it was on %d", f->id, sim_self (), f->tid);
  if (f->cancel_inv && is_dex_error (got, DEX_ERROR_FIBER_CANCELLED)) { sim_probe ("await_cancelled"); f->cancel_seen = true; return; }
  SIM_CHECK ("fiber:early", known, "fiber %d went on from waiting for %s although it is not complete (got %s)", f->id, what, got.c_str ());
  SIM_CHECK ("fiber:outcome", got == want || (!want.empty () && want[0] == '?' ), "fiber %d waiting for %s received %s instead of %s", f->id, what, got.c_str (), want.c_str ());
}
static DexFuture *fb_body (gpointer data);
// the main thread may still be about to note the future of a fiber it spawned
static void wait_published (Fb *o) { while (!o->f) sim_sleep_us (5); }
// some levels down the stack
static void __attribute__ ((noinline)) fb_act (Fb *f, const Act &a, int depth)
{
  Canary c; uint64_t key = f->id * 1000 + depth * 10 + a.what; canary_set (&c, key);
  if (depth > 0) { fb_act (f, a, depth - 1); SIM_CHECK ("fiber:stack", canary_ok (&c, key), "local variables of fiber %d changed", f->id); return; }
  char w[40];
  if (f->cancel_seen)   // once cancelled, always cancelled: this would never end otherwise
    {
      DexPromise *never = dex_promise_new (); sim_probe ("await_again_when_cancelled");
      std::string got = await_val (fref (never), -1, 0); sim_eval ();
      SIM_CHECK ("fiber:cancelled-again", is_dex_error (got, DEX_ERROR_FIBER_CANCELLED), "a cancelled fiber waiting for a promise that nobody completes received %s", got.c_str ()); dex_unref (never);
    }
  switch (a.what)
    {
    case A_AWAIT: { snprintf (w, sizeof w, "promise %d", a.arg); std::string got = await_val (fref (PR[a.arg].p), PR[a.arg].v.kind == K_ERROR ? K_INT : PR[a.arg].v.kind, a.arg); after_await (f, got, val_repr (PR[a.arg].v), pr_known (a.arg), w); break; }
    case A_COMPLETE: complete_pr (a.arg); break;
    case A_FIBER:
      {
        Fb *o = FB[a.arg].get (); wait_published (o); snprintf (w, sizeof w, "fiber %d", a.arg);
        std::string got = await_val (fref (o->f), -1, 0); sim_eval ();
        SIM_CHECK ("fiber:thread", sim_self () == f->tid, "fiber %d went on on thread %d, it was on %d", f->id, sim_self (), f->tid);
        if (f->cancel_inv && is_dex_error (got, DEX_ERROR_FIBER_CANCELLED)) { f->cancel_seen = true; break; }
        SIM_CHECK ("fiber:early", o->finished == 1, "fiber %d has an outcome before it returned", o->id);
        SIM_CHECK ("fiber:outcome", fb_matches (o, got), "awaiting fiber %d gave %s instead of %s", o->id, got.c_str (), fb_expect (o).c_str ());
        break;
      }
    case A_SLEEP:
      {
        int64_t t0 = sim_now_us (); std::string got = await_val (dex_timeout_new_usec (a.arg), -1, 0);
        SIM_CHECK ("fiber:thread", sim_self () == f->tid, "fiber %d went on on another thread", f->id);
        if (f->cancel_inv && is_dex_error (got, DEX_ERROR_FIBER_CANCELLED)) { f->cancel_seen = true; break; }
        SIM_CHECK ("fiber:outcome", is_dex_error (got, DEX_ERROR_TIMED_OUT), "a timeout gave %s", got.c_str ());
        SIM_CHECK ("fiber:early", sim_now_us () - t0 >= a.arg, "a timeout of %d us ended after %lld us", a.arg, (long long) (sim_now_us () - t0)); break;
      }
    case A_DONE: { Val v { (f->id * 7 + f->at * 5) % (K_NVALUES + 1), f->id + 1 }; std::string got = await_val (val_future (v), v.kind == K_DEX || v.kind == K_LONG || v.kind == K_ULONG ? K_OBJECT : v.kind, 0);
        if (v.kind == K_DEX || v.kind == K_LONG || v.kind == K_ULONG) { SIM_CHECK ("fiber:outcome", is_dex_error (got, DEX_ERROR_TYPE_MISMATCH) || f->cancel_inv, "awaiting %s as an object gave %s", val_repr (v).c_str (), got.c_str ()); break; }
        after_await (f, got, val_repr (v), true, "a completed future"); break; }
    case A_SET:
      {
        DexFuture *s = dex_future_all_race (fref (PR[a.arg].p), fref (PR[a.arg2].p), NULL); std::string got = await_val (s, -1, 0);
        SIM_CHECK ("fiber:thread", sim_self () == f->tid, "fiber %d went on on another thread", f->id);
        if (f->cancel_inv && is_dex_error (got, DEX_ERROR_FIBER_CANCELLED)) { f->cancel_seen = true; break; }
        SIM_CHECK ("fiber:early", pr_known (a.arg) && pr_known (a.arg2) ? true : (pr_known (a.arg) && PR[a.arg].v.kind == K_ERROR) || (pr_known (a.arg2) && PR[a.arg2].v.kind == K_ERROR), "a set is complete too early (%s)", got.c_str ()); break;
      }
    case A_SPAWN: FB[a.arg]->spawner = f->id; spawn_fb (FB[a.arg].get ()); break;
    case A_MISMATCH:
      {
        std::string got = await_val (fref (PR[a.arg].p), PR[a.arg].v.kind == K_STRING ? K_INT : K_STRING, 0); sim_eval ();
        if (f->cancel_inv && is_dex_error (got, DEX_ERROR_FIBER_CANCELLED)) { f->cancel_seen = true; break; }
        if (PR[a.arg].v.kind == K_ERROR) SIM_CHECK ("fiber:outcome", got == val_repr (PR[a.arg].v), "got %s", got.c_str ());
        else SIM_CHECK ("fiber:outcome", is_dex_error (got, DEX_ERROR_TYPE_MISMATCH), "awaiting a %s as another type gave %s", val_repr (PR[a.arg].v).c_str (), got.c_str ());
        break;
      }
    }
  SIM_CHECK ("fiber:stack", canary_ok (&c, key), "local variables of fiber %d changed", f->id);
}
// most of a fiber's stack is filled while it waits
static size_t stack_wanted (size_t n) { return n == 0 ? 65536 : n < 16384 ? 16384 : n; }
static void check_room (size_t wanted, size_t room, int id)
{
  sim_eval ();
  SIM_CHECK ("fiber:stack-size", room + 2048 >= stack_wanted (wanted), "fiber %d was spawned with a stack of %zu bytes but has %zu", id, wanted, room);
  SIM_CHECK ("fiber:guard", room <= 2 * wanted + 256 * 1024, "the stack of fiber %d (%zu bytes) has no end: %zu bytes below it belong to something else", id, wanted, room);
}
static void __attribute__ ((noinline)) with_room (size_t room, uint64_t key, const std::function<void ()> &fn)
{
  if (room < 40 * 1024) { fn (); return; }
  size_t n = (room - 32 * 1024) / 8; volatile uint64_t *a = (volatile uint64_t *) __builtin_alloca (n * 8);
  for (size_t i = 0; i < n; i += 64) a[i] = key + i;
  fn ();
  sim_eval ();
  for (size_t i = 0; i < n; i += 64) SIM_CHECK ("fiber:stack", a[i] == key + i, "local variables %zu bytes down the stack of a fiber changed while it waited", (n - i) * 8);
}
static DexFuture *fb_body (gpointer data)
{
  Fb *f = (Fb *) data; Canary c; canary_set (&c, f->id); size_t room = 0;
  if (f->roomy) check_room (f->stack, room = sim_below (__builtin_frame_address (0)), f->id);
  SIM_CHECK ("fiber:data-released-early", f->freed == 0, "the data of fiber %d was released before it ran", f->id);
  SIM_CHECK ("fiber:twice", f->started == 0, "fiber %d was started twice", f->id);
  f->started++; f->tid = sim_self ();
  SIM_CHECK ("fiber:scheduler", f->tid >= SC[f->sched].lo && f->tid < SC[f->sched].hi, "fiber %d spawned on scheduler %d runs on thread %d", f->id, f->sched, f->tid);
  for (auto &a : f->acts)
    {
      f->at++;
      if (f->roomy && f->at % 2) with_room (room, f->id * 7919 + f->at, [&] { fb_act (f, a, 0); });
      else fb_act (f, a, f->stack > 100000 ? f->id % 12 : f->id % 3);
      SIM_CHECK ("fiber:stack", canary_ok (&c, f->id), "local variables of fiber %d changed", f->id);
      SIM_CHECK ("fiber:data-released-early", f->freed == 0, "the data of fiber %d was released before it returned", f->id);
    }
  f->finished++;
  switch (f->ret)
    {
    case 0: return NULL;
    case 1: return dex_future_new_for_int (1000 + f->id);
    case 2: return fref (PR[f->ret_arg].p);
    case 3: wait_published (FB[f->ret_arg].get ()); return fref (FB[f->ret_arg]->f);
    default: return dex_future_new_for_error (val_error (1000 + f->id));
    }
}
static void fb_freed (gpointer data)
{
  Fb *f = (Fb *) data; f->freed++;
  SIM_CHECK ("fiber:data-released-twice", f->freed == 1, "the data of fiber %d was released %d times", f->id, f->freed);
  SIM_CHECK ("fiber:data-released-early", f->finished == 1, "the data of fiber %d was released before it returned", f->id);
}
static void spawn_fb (Fb *f)
{
  DexFuture *x = dex_scheduler_spawn (f->sched == 0 && f->id % 2 ? NULL : SC[f->sched].s, f->stack, fb_body, f, fb_freed);
  f->f = x; f->spawned = true;
}
static void fb_look (Fb *f, const char *when)
{
  if (!f->f) return;
  std::string o = outcome (f->f); sim_eval ();
  if (o == "pending") return;
  SIM_CHECK ("fiber:early", f->finished == 1, "the future of fiber %d has outcome %s before the function returned (%s)", f->id, o.c_str (), when);
  if (f->cancel_inv && is_dex_error (o, DEX_ERROR_FIBER_CANCELLED)) return;
  SIM_CHECK ("fiber:outcome", fb_matches (f, o), "fiber %d returned %s but its future has %s (%s)", f->id, fb_expect (f).c_str (), o.c_str (), when);
  std::function<bool (Fb *)> known = [&] (Fb *x) { return x->ret == 2 ? pr_known (x->ret_arg) : x->ret == 3 ? FB[x->ret_arg]->finished == 1 && known (FB[x->ret_arg].get ()) : true; };
  SIM_CHECK ("fiber:early", known (f), "the future of fiber %d is complete although what it returned is pending", f->id);
}
static void fibers (bool c09)
{
  sim_expect_log ("destroyed while timer was active"); SC.clear (); FB.clear (); PR.clear (); leak_begin ();
  sim_set_nprocs (2 * sim_range (1, 2)); int me = sim_self ();
  SC.push_back ({ main_sched (), me, me + 1 });
  int npool = sim_choose (3);
  for (int i = 0; i < npool; i++) { int lo = sim_thread_total (); DexScheduler *s = dex_thread_pool_scheduler_new (); SC.push_back ({ s, lo, sim_thread_total () }); }
  int nf = sim_range (1, 6), np = sim_range (1, 5), nth = sim_range (1, 3);
  for (int i = 0; i < np; i++) { Pr p; p.p = sim_chance (1, 3) ? dex_promise_new_cancellable () : dex_promise_new (); p.v = val_draw (i + 1, 1, 4); PR.push_back (p); }
  bool one_sched = sim_chance (1, 3); int os = sim_choose ((int) SC.size ());
  static const size_t stacks[] = { 0, 0, 0, 1, 16384, 65536, 131072, 300001 };
  for (int i = 0; i < nf; i++)
    {
      auto f = std::make_unique<Fb> (); f->id = i; f->sched = one_sched ? os : sim_choose ((int) SC.size ()); f->stack = stacks[sim_choose (8)];
      f->cancellable = sim_chance (1, 6); f->cb.id = i; f->roomy = sim_chance (1, 3);
      FB.push_back (std::move (f));
    }
  // a global order in which everything can happen: each wait refers to something earlier
  std::vector<bool> owned (np); std::vector<int> order;
  for (int i = 0; i < np; i++) if (sim_chance (1, 2)) { PR[i].by = -1; owned[i] = true; order.push_back (i); }   // completed from outside
  std::vector<int> spawned; for (int i = 0; i < nf; i++) if (i == 0 || sim_chance (2, 3)) { spawned.push_back (i); FB[i]->spawner = -1; } else FB[i]->spawner = -2;
  int na = sim_range (1, 14);
  for (int k = 0; k < na; k++)
    {
      Fb *f = FB[spawned[sim_choose ((int) spawned.size ())]].get (); if (f->closed) continue;
      switch (sim_choose (8))
        {
        case 0: case 1: case 2: if (!order.empty ()) f->acts.push_back ({ A_AWAIT, order[sim_choose ((int) order.size ())], 0 }); break;
        case 3: { int i = sim_choose (np); if (!owned[i] && !f->cancellable) { owned[i] = true; order.push_back (i); PR[i].by = f->id; f->acts.push_back ({ A_COMPLETE, i, 0 }); } break; }
        case 4: { int j = sim_choose (nf); if (FB[j]->closed && !FB[j]->cancellable && j != f->id) f->acts.push_back ({ A_FIBER, j, 0 }); else f->acts.push_back ({ A_DONE, 0, 0 }); break; }
        case 5: f->acts.push_back ({ A_SLEEP, sim_choose (4) * 30, 0 }); break;
        case 6: if (order.size () > 1) f->acts.push_back ({ sim_chance (1, 2) ? A_SET : A_MISMATCH, order[0], order[order.size () - 1] }); break;
        case 7:
          {
            if (sim_chance (1, 2)) { for (int j = 0; j < nf; j++) if (FB[j]->spawner == -2) { FB[j]->spawner = f->id; spawned.push_back (j); f->acts.push_back ({ A_SPAWN, j, 0 }); break; } }
            else { f->closed = true; f->close_no = k; }
            break;
          }
        }
    }
  for (auto &f : FB) if (f->spawner == -2) { f->spawner = -1; spawned.push_back (f->id); }
  for (int i = 0; i < np; i++) if (!owned[i]) PR[i].by = -1;
  for (auto &f : FB)
    {
      f->ret = sim_choose (5); if (f->ret == 2) { f->ret_arg = sim_choose (np); if (f->closed && PR[f->ret_arg].by != -1) f->ret = 1; }
      if (f->ret == 3) { int j = sim_choose (nf); bool ok = FB[j]->closed && !FB[j]->cancellable && FB[j]->spawner == -1 && j < f->id && FB[j]->ret != 3 && FB[j]->close_no < f->close_no; if (ok) f->ret_arg = j; else f->ret = 1; }
      sim_note (" f%d@%d%s(", f->id, f->sched, f->cancellable ? "c" : ""); static const char *n[] = { "await", "complete", "fiber", "sleep", "done", "set", "spawn", "mismatch" };
      for (auto &a : f->acts) sim_note ("%s%d ", n[a.what], a.arg); sim_note ("ret%d)", f->ret);
    }
  // A_FIBER and ret 3 refer to futures that must exist before the waiting fiber runs: those are spawned first
  std::vector<int> first, rest; for (int i = 0; i < nf; i++) if (FB[i]->spawner == -1) (FB[i]->closed ? first : rest).push_back (i);
  std::sort (first.begin (), first.end (), [] (int a, int b) { return FB[a]->close_no < FB[b]->close_no; });
  for (auto &f : FB) { auto &v = f->acts; v.erase (std::remove_if (v.begin (), v.end (), [&] (const Act &a) { return a.what == A_FIBER && FB[a.arg]->spawner != -1; }), v.end ()); }
  enum { COMPLETE, SPAWN, LOOK, DROP, CANCEL };
  struct Step { int what, arg; };
  std::vector<std::vector<Step>> prog (nth);
  auto add = [&] (int t, Step s) { auto &v = prog[t]; v.insert (v.begin () + sim_choose ((int) v.size () + 1), s); };
  for (int i = 0; i < np; i++) if (PR[i].by == -1) add (sim_choose (nth), { COMPLETE, i });
  std::vector<bool> awaited (nf); for (auto &f : FB) { for (auto &a : f->acts) if (a.what == A_FIBER) awaited[a.arg] = true; if (f->ret == 3) awaited[f->ret_arg] = true; }
  for (int i : rest) add (sim_choose (nth), { SPAWN, i });
  for (int i = 0; i < nf; i++) { if (sim_chance (1, 2)) add (sim_choose (nth), { LOOK, i }); if (!awaited[i] && sim_chance (1, 3)) add (sim_choose (nth), { DROP, i }); else if (FB[i]->cancellable) add (sim_choose (nth), { CANCEL, i }); }
  for (int i : first) { spawn_fb (FB[i].get ()); if (sim_chance (1, 3)) FB[i]->dep = block_new (2, fref (FB[i]->f), &FB[i]->cb); }
  Threads T;
  for (int t = 0; t < nth; t++)
    T.go ([&, t] {
      for (auto &s : prog[t])
        {
          Fb *f = s.what == COMPLETE ? NULL : FB[s.arg].get ();
          switch (s.what)
            {
            case COMPLETE: complete_pr (s.arg); break;
            case SPAWN: spawn_fb (f); break;
            case LOOK: if (f->f) { DexFuture *x = f->f; (void) x; fb_look (f, "while running"); } break;
            case DROP: f->dropped = true; break;     // when the thread is done
            case CANCEL:   // the only consumer of the fiber goes away
              if (f->f) { DexFuture *s2 = dex_future_all (fref (f->f), NULL); f->cancel_inv = true; dex_unref (s2); sim_probe ("fiber_cancelled"); }
              break;
            }
        }
    });
  if (sim_chance (1, 4))   // not on a fiber: nothing can wait here
    {
      bool known = PR[0].done; std::string got = await_val (fref (PR[0].p), -1, 0); sim_eval ();
      SIM_CHECK ("fiber:no-fiber", is_dex_error (got, DEX_ERROR_NO_FIBER) ? !known : pr_known (0) && got == val_repr (PR[0].v), "awaiting a %s future outside of a fiber gave %s", known ? "complete" : "pending", got.c_str ());
    }
  T.run ();
  // dropping the future of a fiber does not stop the fiber
  for (auto &f : FB) if (f->dropped && f->f && !f->dep) { DexFuture *x = f->f; f->f = NULL; dex_unref (x); }
  calm_and_settle ();
  for (auto &f : FB)
    {
      SIM_CHECK ("fiber:never-ran", f->started == 1, "fiber %d (scheduler %d) never started", f->id, f->sched);
      SIM_CHECK ("stuck:fiber", f->finished == 1, "fiber %d never goes on after step %d of %zu although everything it waits for is complete", f->id, f->at, f->acts.size ());
      SIM_CHECK ("fiber:data-not-released", f->freed == 1, "the data of fiber %d was released %d times", f->id, f->freed);
      fb_look (f.get (), "at rest");
      if (f->f) SIM_CHECK ("fiber:pending", !dex_future_is_pending (f->f), "the future of fiber %d is pending although the fiber returned", f->id);
      if (f->dep) SIM_CHECK ("fiber:dependent", f->cb.calls == 1, "the callback waiting for fiber %d ran %d times", f->id, f->cb.calls);
    }
  for (auto &f : FB) { dex_clear (&f->dep); dex_clear (&f->f); }
  for (auto &p : PR) dex_unref (p.p);
  sim_quiesce ();
  for (size_t i = 1; i < SC.size (); i++) dex_unref (SC[i].s);
  sim_quiesce (); leak_end ("fibers");
  SIM_CHECK ("leak:values", wl_objects_alive == 0, "%d values leaked", wl_objects_alive);
}
// many fibers at a time, with stacks of all sizes that are used to their end, round after round
struct Big { int id; size_t stack; int waits; DexFuture *gate; int done = 0; };
static DexFuture *big_body (gpointer data)
{
  Big *b = (Big *) data; size_t room = sim_below (__builtin_frame_address (0)); check_room (b->stack, room, b->id);
  with_room (room, b->id * 7919, [&] {
    for (int i = 0; i < b->waits; i++)
      { GError *e = NULL; if (i % 2 == 0) dex_await (fref (b->gate), &e); else dex_await (dex_timeout_new_usec (b->id % 4 * 20), &e); g_clear_error (&e); }
  });
  b->done++; return dex_future_new_for_int (b->id);
}
static void burst (void)
{
  leak_begin (); sim_set_nprocs (2 * sim_range (1, 2)); int maps0 = sim_map_count ();
  DexScheduler *pool = sim_chance (1, 2) ? dex_thread_pool_scheduler_new () : NULL; int rounds = sim_range (1, 3), total = 0;
  static const size_t sizes[] = { 0, 1, 16384, 20000, 65536, 131072, 131073, 200000, 262144, 300001, 1 << 20, 36863, 204799 };
  bool mixed = sim_chance (2, 3); size_t one = sizes[sim_choose (13)];
  for (int r = 0; r < rounds; r++)
    {
      int n = sim_range (1, 24); std::vector<Big> B (n); std::vector<DexFuture *> fs; DexPromise *gate = dex_promise_new ();
      for (int i = 0; i < n; i++) { B[i].id = i + 1; B[i].stack = mixed ? sizes[sim_choose (13)] : one; B[i].waits = sim_choose (3); B[i].gate = (DexFuture *) gate; }
      sim_note ("%d fibers with stacks of %s on %s; ", n, mixed ? "all sizes" : std::to_string (one).c_str (), pool ? "a pool" : "the main loop");
      for (int i = 0; i < n; i++) fs.push_back (dex_scheduler_spawn (pool && i % 4 ? pool : NULL, B[i].stack, big_body, &B[i], NULL));
      if (sim_chance (1, 2)) sim_quiesce ();
      dex_promise_resolve_int (gate, 1); calm_and_settle (); total += n;
      for (int i = 0; i < n; i++)
        {
          SIM_CHECK ("stuck:fiber", B[i].done == 1, "fiber %d ran to its end %d times", i, B[i].done);
          std::string o = outcome (fs[i]); SIM_CHECK ("fiber:outcome", o == "gint:" + std::to_string (i + 1), "fiber %d has the outcome %s", i, o.c_str ()); dex_unref (fs[i]);
        }
      dex_unref (gate);
    }
  if (pool) dex_unref (pool);
  sim_quiesce (); leak_end ("many fibers"); sim_eval ();
  // stacks may be kept for later, but not without bound
  int left = sim_map_count () - maps0; sim_probe (left ? "stacks_kept" : "no_stacks_kept");
  SIM_CHECK ("leak:stacks", left <= 20, "%d stacks are still mapped after all %d fibers have ended", left, total);
}
// pairs of fibers that keep waking each other: the other sources of their threads get their turns all the same
namespace {
const int ROUNDS = 40;
struct Pong { int id; DexPromise *p[2][ROUNDS]; int rounds = 0, fired_at = -1, work_at = -1, tid[2] = { -1, -1 }, done = 0; bool enough = false; };
struct Player { Pong *g; int side; };
DexFuture *play (gpointer data)
{
  Player *pl = (Player *) data; Pong *g = pl->g; int me = pl->side; g->tid[me] = sim_self ();
  for (int r = 0; r < ROUNDS; r++)
    {
      SIM_CHECK ("fiber:thread", g->tid[me] == sim_self (), "a fiber of pair %d went on on another thread", g->id);
      if (me == 0) g->rounds = r;
      if (me == 0 && r == 2)
        {
          GSource *q = g_idle_source_new (); g_source_set_priority (q, G_PRIORITY_DEFAULT);
          g_source_set_callback (q, [] (gpointer d) -> gboolean { Pong *g = (Pong *) d; g->fired_at = g->rounds; return G_SOURCE_REMOVE; }, g, NULL);
          g_source_attach (q, g_main_context_get_thread_default ()); g_source_unref (q);
          if (dex_scheduler_get_thread_default () == main_sched ()) dex_scheduler_push (main_sched (), [] (gpointer d) { Pong *g = (Pong *) d; g->work_at = g->rounds; }, g);
          else g->work_at = 0;
        }
      if (me == 1) { DexFuture *f = fref (g->p[0][r]); GError *e = NULL; dex_await (f, &e); g_clear_error (&e); }
      dex_promise_resolve_int (g->p[me][r], r);
      if (me == 0) { DexFuture *f = fref (g->p[1][r]); GError *e = NULL; dex_await (f, &e); g_clear_error (&e); }
      sim_eval ();
      if (me == 0 && r > 30 && g->tid[0] == g->tid[1])
        {
          SIM_CHECK ("fiber:starved", g->fired_at >= 0, "fibers waking each other ran %d times while a source of their thread that was ready never got a turn", r);
          SIM_CHECK ("fiber:starved", g->work_at >= 0, "fibers waking each other ran %d times while work pushed to their thread never got a turn", r);
        }
    }
  g->done++; return NULL;
}
void pingpong (void)
{
  leak_begin (); sim_set_nprocs (2 * sim_range (1, 2));
  DexScheduler *pool = sim_chance (1, 2) ? dex_thread_pool_scheduler_new () : NULL;
  int n = sim_range (1, 3); std::vector<std::unique_ptr<Pong>> G; std::vector<std::unique_ptr<Player>> P; std::vector<DexFuture *> fs;
  sim_note ("%d pairs of fibers waking each other on %s", n, pool ? "a pool" : "the main loop");
  for (int i = 0; i < n; i++)
    {
      auto g = std::make_unique<Pong> (); g->id = i; for (int s = 0; s < 2; s++) for (int r = 0; r < ROUNDS; r++) g->p[s][r] = dex_promise_new ();
      int first = sim_choose (2);
      for (int k = 0; k < 2; k++) { P.push_back (std::make_unique<Player> (Player { g.get (), k ^ first })); fs.push_back (dex_scheduler_spawn (pool, 0, play, P.back ().get (), NULL)); }
      G.push_back (std::move (g));
    }
  calm_and_settle ();
  for (auto &g : G)
    {
      SIM_CHECK ("stuck:fiber", g->done == 2, "the fibers of pair %d stopped in round %d although nothing else can happen", g->id, g->rounds);
      SIM_CHECK ("fiber:starved", g->fired_at >= 0 && g->work_at >= 0, "a source of the fibers' thread never ran");
      if (g->tid[0] == g->tid[1]) sim_probe ("pair_on_one_thread");
      for (int s = 0; s < 2; s++) for (int r = 0; r < ROUNDS; r++) dex_unref (g->p[s][r]);
    }
  for (DexFuture *f : fs) dex_unref (f);
  if (pool) dex_unref (pool);
  sim_quiesce (); leak_end ("fibers waking each other");
}
}
SIM_WORKLOAD (C08) { if (sim_chance (1, 12)) pingpong (); else if (sim_chance (1, 12)) burst (); else fibers (false); }
SIM_WORKLOAD (C09) { if (sim_chance (1, 12)) burst (); else fibers (true); }

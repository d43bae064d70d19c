// C01: racing resolve / reject / return from several threads, racing readers.
#include "wl.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
struct Attempt { Val v; uint64_t inv, ret; };
struct Read { std::string o; uint64_t inv, ret; };
struct Obj { DexFuture *f; DexFuture *dep; bool pair; std::vector<Attempt> at; std::vector<Read> rd; };

static void do_read (Obj &o)
{
  Read r; r.inv = sim_seq ();
  switch (sim_self () % 2)
    {
    case 0: r.o = outcome (o.f); break;
    default:
      {
        // the individual predicates must never contradict an outcome seen earlier by the same thread
        bool p1 = dex_future_is_pending (o.f), res = dex_future_is_resolved (o.f), rej = dex_future_is_rejected (o.f);
        DexFutureStatus st = dex_future_get_status (o.f);
        SIM_CHECK ("status:reverted", !(res && rej) && !(!p1 && st == DEX_FUTURE_STATUS_PENDING), "is_pending=%d is_resolved=%d is_rejected=%d status=%d", p1, res, rej, st);
        SIM_CHECK ("status:reverted", !(res && st != DEX_FUTURE_STATUS_RESOLVED) && !(rej && st != DEX_FUTURE_STATUS_REJECTED), "status changed after completion");
        GError *e = NULL; const GValue *v = dex_future_get_value (o.f, &e);
        bool pend = !v && e && g_error_matches (e, dex_error_quark (), DEX_ERROR_PENDING);
        SIM_CHECK ("status:reverted", !(st != DEX_FUTURE_STATUS_PENDING && pend), "completed, then reported as pending");
        SIM_CHECK ("status:value-and-status-disagree", !(st == DEX_FUTURE_STATUS_RESOLVED && !v) && !(st == DEX_FUTURE_STATUS_REJECTED && v), "status %d with value %p", st, (void *) v);
        r.o = pend ? "pending" : outcome_of (v, e);
        if (pend) g_clear_error (&e);
      }
    }
  r.ret = sim_seq ();
  if (o.rd.size () % 4 == 1) { dex_future_set_static_name (o.f, "the name"); SIM_CHECK ("future:name", !g_strcmp0 (dex_future_get_name (o.f), "the name"), "a future lost its name"); }
  o.rd.push_back (r);
  sim_event (std::hash<std::string> () (r.o));
}
static void pair_return (DexAsyncPair *p, Val v)
{
  switch (v.kind)
    {
    case K_INT64: case K_INT: case K_LONG: dex_async_pair_return_int64 (p, (int64_t) v.id << 33); break;
    case K_UINT64: case K_UINT: case K_ULONG: dex_async_pair_return_uint64 (p, (uint64_t) v.id << 34); break;
    case K_BOOL: dex_async_pair_return_boolean (p, v.id & 1); break;
    case K_STRING: case K_DOUBLE: case K_POINTER: dex_async_pair_return_string (p, g_strdup_printf ("string %d", v.id)); break;
    case K_OBJECT: case K_FLOAT: dex_async_pair_return_object (p, val_object (v.id)); break;
    case K_VARIANT: case K_FLAGS: case K_DEX: dex_async_pair_return_variant (p, val_variant (v.id)); break;
    case K_BOXED: case K_ENUM: dex_async_pair_return_boxed (p, val_box_type (), val_box (v.id)); break;
    default: dex_async_pair_return_error (p, val_error (v.id));
    }
}
static std::string pair_repr (Val v)
{
  switch (v.kind)
    {
    case K_INT64: case K_INT: case K_LONG: v.kind = K_INT64; break;
    case K_UINT64: case K_UINT: case K_ULONG: v.kind = K_UINT64; break;
    case K_STRING: case K_DOUBLE: case K_POINTER: v.kind = K_STRING; break;
    case K_OBJECT: case K_FLOAT: v.kind = K_OBJECT; break;
    case K_VARIANT: case K_FLAGS: case K_DEX: v.kind = K_VARIANT; break;
    case K_BOXED: case K_ENUM: v.kind = K_BOXED; break;
    }
  return val_repr (v);
}
struct Held { GAsyncReadyCallback cb; gpointer data; };
static std::vector<Held> held;
static void hold_async (gpointer, GCancellable *, GAsyncReadyCallback cb, gpointer data) { held.push_back ({ cb, data }); }
static gint64 hold_finish (gpointer, GAsyncResult *, GError **) { return 77; }

// a descriptor as the result: whoever takes it first owns it, and only one can
struct FdW { DexFuture *f; int got = -2, id; ino_t ino = 0; std::vector<int> *open_fds; };
static DexFuture *fd_fiber (gpointer data)
{
  FdW *w = (FdW *) data; GError *e = NULL;
  int fd = dex_await_fd (w->f, &e); sim_eval ();
  SIM_CHECK ("fd:error", !e, "awaiting a descriptor gave %s", e ? e->message : "");
  w->got = fd;
  if (fd >= 0)
    {
      for (int x : *w->open_fds) SIM_CHECK ("fd:two-owners", x != fd, "descriptor %d was given to two awaiting fibers", fd);
      w->open_fds->push_back (fd);
      struct stat st; SIM_CHECK ("fd:invalid", fstat (fd, &st) == 0, "descriptor %d is not open", fd); w->ino = st.st_ino;
    }
  sim_wake_main ();
  return NULL;
}
static int count_fds (void) { int n = 0; for (int i = 0; i < 256; i++) n += fcntl (i, F_GETFD) >= 0; return n; }
static void fd_run (void)
{
  sim_set_nprocs (2 * sim_range (1, 2)); DexScheduler *pool = dex_thread_pool_scheduler_new (); sim_quiesce ();
  int before = count_fds (), nres = sim_range (1, 3), naw = sim_range (0, 4); DexPromise *p = dex_promise_new ();
  std::vector<int> fds (nres), open_fds; std::vector<ino_t> ino (nres); std::vector<std::unique_ptr<FdW>> ws; std::vector<DexFuture *> fib;
  for (int i = 0; i < nres; i++) { fds[i] = memfd_create ("x", 0); struct stat st; fstat (fds[i], &st); ino[i] = st.st_ino; }
  bool early = sim_chance (1, 2); if (early) dex_promise_resolve_fd (p, fds[0]);
  for (int i = 0; i < naw; i++)
    {
      auto w = std::make_unique<FdW> (); w->f = fref (p); w->id = i; w->open_fds = &open_fds;
      fib.push_back (dex_scheduler_spawn (sim_chance (3, 4) ? pool : main_sched (), 0, fd_fiber, w.get (), NULL)); ws.push_back (std::move (w));
    }
  sim_note ("%d descriptors, %d awaiting, early %d", nres, naw, early);
  Threads T; for (int i = 0; i < nres; i++) T.go ([&, i] { dex_promise_resolve_fd (p, fds[i]); });
  T.run (); calm_and_settle ();
  int owners = 0; ino_t won = 0;
  for (auto &w : ws)
    {
      SIM_CHECK ("stuck:fiber", w->got != -2, "fiber %d never got the descriptor", w->id);
      if (w->got >= 0) { owners++; won = w->ino; }
    }
  if (naw) SIM_CHECK ("fd:owners", owners == 1, "%d of %d awaiting fibers own the descriptor", owners, naw);
  if (naw) { bool ok = false; for (auto i : ino) ok |= i == won; SIM_CHECK ("outcome:invented", ok && (!early || won == ino[0]), "the descriptor is not the one the promise was resolved with"); }
  if (naw > 1) sim_probe ("fd_several_awaiting");
  for (int x : open_fds) close (x);
  for (auto f : fib) dex_unref (f);
  dex_unref (p); sim_quiesce ();
  for (int x : fds) { SIM_CHECK ("fd:closed", fcntl (x, F_GETFD) >= 0, "the descriptor given to the promise was closed"); close (x); }
  int after = count_fds (); SIM_CHECK ("fd:leak", after == before, "%d descriptors open before, %d after", before, after);
  dex_unref (pool); sim_quiesce ();
}
// futures that are made complete
static void immediate (void)
{
  for (int i = 0; i < 3; i++)
    {
      Val v = val_draw (900 + i); DexFuture *f = val_future (v); std::string got = outcome (f); sim_eval ();
      SIM_CHECK ("outcome:immediate", got == val_repr (v), "a future made for %s gave %s", val_repr (v).c_str (), got.c_str ());
      got = outcome (f); SIM_CHECK ("outcome:changed", got == val_repr (v), "a future made for %s gave %s", val_repr (v).c_str (), got.c_str ());
      dex_unref (f);
    }
  static const int es[] = { ENOENT, EACCES, EBADF, EPIPE }; int e = es[sim_choose (4)];
  DexFuture *f = dex_future_new_for_errno (e); GError *err = NULL; dex_future_get_value (f, &err);
  SIM_CHECK ("outcome:immediate", g_error_matches (err, G_IO_ERROR, g_io_error_from_errno (e)), "a future for errno %d gave %s", e, err ? err->message : "no error");
  g_clear_error (&err); dex_unref (f);
}
SIM_WORKLOAD (C01)
{
  leak_begin ();
  if (sim_chance (1, 6)) immediate ();
  if (sim_chance (1, 12)) { fd_run (); leak_end ("C01"); return; }
  int nobj = sim_range (1, 2), nth = sim_range (2, 4);
  std::vector<Obj> objs (nobj);
  static DexAsyncPairInfo info; info.async = (gpointer) hold_async; info.finish = (gpointer) hold_finish; info.return_type = G_TYPE_INT64;
  int nid = 1; GObject *inst = val_object (0);
  for (auto &o : objs)
    {
      int kind = sim_choose (4);
      o.pair = kind == 3;
      if (o.pair) { o.f = dex_async_pair_new (inst, &info); }
      else if (kind == 2) o.f = DEX_FUTURE (dex_promise_new_cancellable ());
      else o.f = DEX_FUTURE (dex_promise_new ());
      o.dep = sim_chance (1, 3) ? dex_future_first (fref (o.f), NULL) : NULL;
      o.at.reserve (64);
    }
  struct Step { int obj, what; Val v; };
  std::vector<std::vector<Step>> prog (nth);
  for (int t = 0; t < nth; t++)
    {
      int n = sim_range (1, 4);
      for (int k = 0; k < n; k++)
        {
          Step s; s.obj = sim_choose (nobj); s.what = sim_choose (2); s.v = val_draw (nid); nid++;
          prog[t].push_back (s);
        }
    }
  sim_note ("%d futures, %d threads:", nobj, nth);
  for (int t = 0; t < nth; t++) { sim_note (" ["); for (auto &s : prog[t]) sim_note ("%s%d(%s) ", s.what ? "set" : "read", s.obj, s.what ? val_repr (s.v).c_str () : ""); sim_note ("]"); }
  Threads T;
  for (int t = 0; t < nth; t++)
    T.go ([&, t] {
      for (auto &s : prog[t])
        {
          Obj &o = objs[s.obj];
          if (s.what == 0) { do_read (o); continue; }
          size_t i = o.at.size (); o.at.push_back ({ s.v, sim_seq (), 0 });
          if (o.pair) pair_return (DEX_ASYNC_PAIR (o.f), s.v); else val_resolve (DEX_PROMISE (o.f), s.v);
          o.at[i].ret = sim_seq ();
        }
    });
  T.run ();
  for (auto &o : objs)
    {
      do_read (o); do_read (o);
      if (o.at.empty ()) { SIM_CHECK ("outcome:invented", outcome (o.f) == "pending", "never completed but reads %s", outcome (o.f).c_str ()); }
      std::string fin;
      for (auto &r : o.rd)
        {
          sim_eval ();
          if (r.o == "pending")
            { for (auto &a : o.at) SIM_CHECK ("outcome:late", a.ret > r.inv, "read pending although a completion had already returned"); continue; }
          if (fin.empty ()) fin = r.o;
          SIM_CHECK ("outcome:changed", fin == r.o, "readers saw different outcomes: %s and %s", fin.c_str (), r.o.c_str ());
        }
      if (o.at.empty ()) continue;
      SIM_CHECK ("outcome:missing", !fin.empty (), "completed but still pending");
      // some attempt explains the outcome: same value, not started after another had returned, nor after a read that saw it
      uint64_t first_ret = ~0ull, first_seen = ~0ull; bool ok = false, known = false;
      for (auto &a : o.at) first_ret = std::min (first_ret, a.ret);
      for (auto &r : o.rd) if (r.o != "pending") first_seen = std::min (first_seen, r.ret);
      for (auto &a : o.at)
        if ((o.pair ? pair_repr (a.v) : val_repr (a.v)) == fin) { known = true; if (a.inv < first_ret && a.inv < first_seen) ok = true; }
      SIM_CHECK ("outcome:invented", known, "outcome %s is none of the attempted ones", fin.c_str ());
      SIM_CHECK ("outcome:not-first", ok, "outcome %s was attempted only after another completion had returned", fin.c_str ());
      if (o.at.size () > 1) sim_probe ("several_completions_of_one_future");
      if (o.dep) { SIM_CHECK ("outcome:dependent", outcome (o.dep) == fin, "the dependent took %s, not %s", outcome (o.dep).c_str (), fin.c_str ()); dex_unref (o.dep); }
    }
  // the operations behind the pairs report at last: too late to change anything
  GTask *task = g_task_new (inst, NULL, NULL, NULL);
  std::vector<std::string> before; for (auto &o : objs) before.push_back (outcome (o.f));
  for (auto &h : held) h.cb (inst, G_ASYNC_RESULT (task), h.data);
  for (size_t i = 0; i < objs.size (); i++) SIM_CHECK ("outcome:changed", before[i] == "pending" || before[i] == outcome (objs[i].f), "a late report changed the outcome from %s to %s", before[i].c_str (), outcome (objs[i].f).c_str ());
  g_object_unref (task); g_object_unref (inst);
  for (auto &o : objs) { if (o.dep && o.at.empty ()) dex_unref (o.dep); dex_unref (o.f); }
  calm_and_settle ();
  leak_end ("C01");
  SIM_CHECK ("leak:values", wl_objects_alive == 0, "%d resolved objects leaked", wl_objects_alive);
}

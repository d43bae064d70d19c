// C17: asynchronous I/O against a model file: every operation is performed exactly once, and its future reports what the kernel did.
#include "wl.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <errno.h>
enum { FD_BAD = -1, FD_PIPE = -2 };
struct IoOp {
  int id, write, file, issuer; int64_t off; uint64_t len, alloc; uint8_t *buf; bool huge = false, drop = false, await = false, issued = false;
  int fd = -1; DexFuture *f = NULL; Cb cb; bool has_cb = false, nest = false, on_main = false; DexFuture *raw = NULL;
};
static int nesting;
static std::vector<std::unique_ptr<IoOp>> *OPS;
static int pat (uint64_t i) { return (uint8_t) (i * 131 + (i >> 8) * 7 + 3); }
static const uint64_t HUGE_LEN = 1ull << 32;
// what the kernel's log says about this operation: -1 nothing, else index; more than one is a violation
static int log_of (IoOp *o)
{
  int found = -1;
  for (int i = 0; i < sim_io_count (); i++)
    if (sim_io_get (i)->buf == o->buf)
      { SIM_CHECK ("io:performed-twice", found < 0, "operation %d was given to the kernel twice", o->id); found = i; }
  return found;
}
static std::string want (IoOp *o)   // after completion
{
  if (o->file == FD_BAD) return "err:" + std::string (g_quark_to_string (G_IO_ERROR)) + ":" + std::to_string (g_io_error_from_errno (EBADF));
  int i = log_of (o);
  SIM_CHECK ("io:complete-before-performed", i >= 0 && sim_io_get (i)->res != INT64_MIN, "operation %d completed although the kernel has not performed it", o->id);
  int64_t r = sim_io_get (i)->res;
  if (r < 0) return "err:" + std::string (g_quark_to_string (G_IO_ERROR)) + ":" + std::to_string (g_io_error_from_errno ((int) -r));
  return "gint64:" + std::to_string (r);
}
static void check_outcome (IoOp *o, const std::string &got)
{
  if (o->file == FD_PIPE) return;   // judged at the end
  std::string w = want (o); sim_eval ();
  SIM_CHECK ("io:outcome", (is_error (got) ? err_key (got) : got) == w, "operation %d (%s of %llu bytes at %lld): the kernel did %s, the future says %s", o->id, o->write ? "write" : "read", (unsigned long long) o->len, (long long) o->off, w.c_str (), got.c_str ());
}
// A callback that runs the main loop itself: what the main context serves must go on completing meanwhile.
static void run_nested ()
{
  if (nesting >= 2 || !g_main_context_is_owner (NULL)) return;
  nesting++; sim_probe ("nested_main_loop");
  std::vector<IoOp *> waiting;
  for (auto &o : *OPS) if (o->raw && o->on_main && o->file != FD_PIPE && dex_future_is_pending (o->raw)) waiting.push_back (o.get ());
  if (waiting.size ()) sim_probe ("nested_with_pending");
  sim_quiesce ();
  for (IoOp *o : waiting) { sim_eval (); SIM_CHECK ("io:nested-starved", !dex_future_is_pending (o->raw), "operation %d is not completed by a main loop that is run from the callback of another operation", o->id); }
  nesting--;
}
static void issue (IoOp *o, DexAioContext *ctx, bool can_cb)
{
  o->issued = true;
  DexFuture *f = o->write ? dex_aio_write (ctx, o->fd, o->buf, o->len, o->off) : dex_aio_read (ctx, o->fd, o->buf, o->len, o->off);
  if (o->drop) { dex_unref (f); return; }
  o->f = f;
  if (o->has_cb && can_cb)
    {
      o->raw = fref (f);
      o->cb.id = o->id; o->cb.fn = [o] (DexFuture *) -> DexFuture * { check_outcome (o, o->cb.got); if (o->nest) run_nested (); return NULL; };
      o->f = dex_future_finally (f, cb_call, &o->cb, cb_free);
    }
  else o->has_cb = false;
}
typedef std::vector<IoOp *> Prog;
static void run_prog (Prog *p, DexAioContext *ctx, bool can_cb, bool fiber)
{
  for (IoOp *o : *p)
    {
      issue (o, ctx, can_cb);
      if (fiber && o->await && o->f)
        {
          GError *e = NULL; DexFuture *f = fref (o->f);
          gint64 r = dex_await_int64 (f, &e);
          std::string got = e ? error_repr (e) : "gint64:" + std::to_string (r);
          SIM_CHECK ("io:await", got == outcome (o->f), "operation %d: await gave %s, the future %s", o->id, got.c_str (), outcome (o->f).c_str ());
          check_outcome (o, got); g_clear_error (&e);
        }
      else if (sim_chance (1, 4)) sim_point ();
    }
}
struct Fib { Prog *p; };
static DexFuture *fib (gpointer d) { run_prog (((Fib *) d)->p, NULL, true, true); return dex_future_new_for_boolean (TRUE); }
SIM_WORKLOAD (C17)
{
  leak_begin (); nesting = 0;
  std::vector<std::unique_ptr<IoOp>> ops; OPS = &ops;
  bool use_pool = sim_chance (2, 3);
  sim_set_nprocs (2 * sim_range (1, 2));
  DexScheduler *pool = use_pool ? dex_thread_pool_scheduler_new () : NULL;
  int nf = sim_range (1, 3); std::vector<int> fd (nf); std::vector<std::vector<uint8_t>> model (nf);
  for (int i = 0; i < nf; i++)
    {
      uint64_t sz = sim_chance (1, 6) ? 0 : sim_range (1, 600); fd[i] = sim_file_new (sz);
      model[i].resize (sz); for (uint64_t k = 0; k < sz; k++) model[i][k] = pat (k);
    }
  int n = sim_chance (1, 6) ? sim_range (40, 110) : sim_range (1, 14), npipe = sim_chance (1, 4) ? sim_range (1, 2) : 0;
  int pipes[2][2]; for (int i = 0; i < npipe; i++) if (pipe (pipes[i])) sim_violation ("harness:pipe", "pipe");
  // issuers: 0 main, 1 pool job, 2 fiber on main, 3 fiber on pool, 4 plain thread with the main context, 5 pool job with the main context
  std::vector<std::pair<int, Prog>> progs; int np = sim_range (1, 4);
  for (int i = 0; i < np; i++) { int k = sim_choose (6); if (!use_pool && (k == 1 || k == 3 || k == 5)) k -= 1; progs.push_back ({ k, {} }); }
  std::vector<void *> maps; int maxops = n; int dropper = sim_chance (1, 3), cbs = sim_choose (3), nest = sim_chance (1, 3), hugeop = sim_chance (1, 8) ? sim_choose (n) : -1;
  for (int i = 0; i < maxops; i++)
    {
      auto o = std::make_unique<IoOp> (); o->id = i; o->write = sim_chance (1, 2);
      o->file = sim_chance (1, 20) ? (int) FD_BAD : sim_choose (nf);
      o->len = sim_chance (1, 12) ? 0 : sim_range (1, 64); o->off = sim_chance (1, 10) ? -1 : sim_range (0, 700);
      if (i == hugeop && o->file >= 0) { o->write = 0; o->huge = true; o->len = HUGE_LEN + (sim_chance (1, 2) ? 0 : sim_range (1, 20)); sim_probe ("huge_count"); }
      if (i < npipe && !o->huge) { o->file = FD_PIPE; o->write = 0; o->len = 8; o->off = -1; }
      o->fd = o->file == FD_BAD ? 9999 : o->file == FD_PIPE ? pipes[i][0] : fd[o->file];
      if (o->file == FD_BAD && o->off < 0) o->off = 0;
      if (o->huge) { o->buf = (uint8_t *) mmap (NULL, o->len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); o->alloc = 4096; if (o->buf == MAP_FAILED) { sim_note ("no mmap"); return; } memset (o->buf, 0xee, 4096); }
      else { o->alloc = o->len + 16; o->buf = (uint8_t *) malloc (o->alloc); for (uint64_t k = 0; k < o->alloc; k++) o->buf[k] = o->write ? (uint8_t) (k * 17 + i * 29 + 1) : 0xee; }
      o->drop = dropper && o->file != FD_PIPE && sim_chance (1, 3); o->has_cb = cbs && sim_chance (cbs, 2); o->nest = nest && sim_chance (1, 4); o->await = sim_chance (1, 2) && o->file != FD_PIPE;
      int w = sim_choose (np); o->issuer = progs[w].first; o->on_main = o->issuer != 1 && o->issuer != 3; progs[w].second.push_back (o.get ()); ops.push_back (std::move (o));
    }
  sim_note ("%d ops on %d files, %d pipes, %d programs:", maxops, nf, npipe, np); for (auto &p : progs) sim_note (" %zu/%d", p.second.size (), p.first);
  static const double rates[] = { 0, 0, 0.1, 0.4 };
  for (int k : { F_IO_ERROR, F_IO_SHORT, F_IO_DELAY, F_EINTR, F_SUBMIT }) sim_fault_rate (k, rates[sim_choose (4)]);
  Threads T; std::vector<DexFuture *> fibers; DexAioContext *mctx = (DexAioContext *) shim_main_aio_context ();
  std::vector<std::unique_ptr<Fib>> fs;
  for (auto &pp : progs)
    {
      Prog *p = &pp.second;
      switch (pp.first)
        {
        case 0: break;
        case 1: T.go_on (pool, [p] { run_prog (p, NULL, true, false); }); break;
        case 2: case 3: fs.push_back (std::make_unique<Fib> (Fib { p })); fibers.push_back (dex_scheduler_spawn (pp.first == 2 ? main_sched () : pool, 0, fib, fs.back ().get (), NULL)); break;
        case 4: T.go ([p, mctx] { run_prog (p, mctx, false, false); }); break;
        case 5: T.go_on (pool, [p, mctx] { run_prog (p, mctx, true, false); }); break;
        }
    }
  for (auto &pp : progs) if (pp.first == 0) run_prog (&pp.second, NULL, true, false);
  T.run ();
  if (npipe && sim_chance (1, 2)) sim_quiesce ();
  for (int i = 0; i < npipe; i++) if (write (pipes[i][1], "ABCDEFGH", 8) != 8) sim_violation ("harness:pipe", "write");
  sim_calm (); sim_quiesce ();
  for (DexFuture *f : fibers) { SIM_CHECK ("io:fiber-stuck", outcome (f) == "gboolean:1", "a fiber doing I/O: %s although nothing else can happen", outcome (f).c_str ()); dex_unref (f); }
  // replay the kernel's log, in the order the operations were performed, on the model files
  std::vector<std::pair<int, IoOp *>> order; int extra = sim_io_count ();
  for (auto &o : ops)
    {
      SIM_CHECK ("io:not-issued", o->issued, "operation %d was never issued", o->id);
      if (o->f) SIM_CHECK ("io:pending-forever", outcome (o->f) != "pending", "operation %d (%s of %llu bytes at %lld, issuer %d) never completed although nothing else can happen", o->id, o->write ? "write" : "read", (unsigned long long) o->len, (long long) o->off, o->issuer);
      if (o->has_cb && !o->drop) SIM_CHECK ("io:callback", o->cb.calls == 1, "the callback of operation %d was called %d times", o->id, o->cb.calls);
      if (o->file == FD_PIPE)
        {
          std::string g = outcome (o->f); bool eintr = err_key (g) == "err:" + std::string (g_quark_to_string (G_IO_ERROR)) + ":" + std::to_string (g_io_error_from_errno (EINTR));
          SIM_CHECK ("io:outcome", eintr || (g == "gint64:8" && !memcmp (o->buf, "ABCDEFGH", 8)), "pipe read %d: %s '%.8s'", o->id, g.c_str (), o->buf);
          continue;
        }
      if (o->f) check_outcome (o.get (), outcome (o->f));
      if (o->file == FD_BAD) continue;
      int l = log_of (o.get ());
      SIM_CHECK ("io:lost", l >= 0 && sim_io_get (l)->res != INT64_MIN, "operation %d was never performed", o->id); extra--;
      const SimIo *io = sim_io_get (l);
      SIM_CHECK ("io:wrong-operation", io->write == o->write && io->fd == o->fd && (int64_t) io->off == o->off && (io->len == o->len || (o->huge && io->len > 0 && io->len <= o->len)),
                 "operation %d: asked %s fd %d %llu bytes at %lld, the kernel got %s fd %d %llu bytes at %lld", o->id, o->write ? "write" : "read", o->fd, (unsigned long long) o->len, (long long) o->off, io->write ? "write" : "read", io->fd, (unsigned long long) io->len, (long long) io->off);
      order.push_back ({ io->done_seq, o.get () });
    }
  SIM_CHECK ("io:extra", extra == 0, "%d operations performed that nobody asked for", extra);
  std::sort (order.begin (), order.end ());
  std::vector<uint64_t> pos (nf, 0);
  for (auto &x : order)
    {
      IoOp *o = x.second; int64_t r = sim_io_get (log_of (o))->res; auto &m = model[o->file];
      uint64_t at = o->off < 0 ? pos[o->file] : (uint64_t) o->off; uint64_t nb = r > 0 ? r : 0;
      if (o->off < 0) pos[o->file] += nb;
      sim_eval ();
      if (o->write) { if (m.size () < at + nb && nb) m.resize (at + nb); for (uint64_t k = 0; k < nb; k++) m[at + k] = o->buf[k]; }
      else
        {
          SIM_CHECK ("io:read-beyond-end", nb == 0 || at + nb <= m.size (), "operation %d read %llu bytes at %llu of a file of %zu", o->id, (unsigned long long) nb, (unsigned long long) at, m.size ());
          SIM_CHECK ("io:false-eof", r != 0 || o->len == 0 || at >= m.size (), "operation %d read nothing at %llu of a file of %zu bytes", o->id, (unsigned long long) at, m.size ());
          for (uint64_t k = 0; k < nb; k++) SIM_CHECK ("io:data", o->buf[k] == m[at + k], "operation %d: byte %llu is %d, not %d", o->id, (unsigned long long) k, o->buf[k], m[at + k]);
          for (uint64_t k = nb; k < o->alloc; k++) SIM_CHECK ("io:buffer-beyond-result", o->buf[k] == 0xee, "operation %d: byte %llu of the buffer changed although %llu were read", o->id, (unsigned long long) k, (unsigned long long) nb);
        }
    }
  for (int i = 0; i < nf; i++)
    {
      std::vector<uint8_t> b (2048, 0); long r = syscall (SYS_pread64, fd[i], b.data (), b.size (), 0);
      SIM_CHECK ("io:file", r == (long) model[i].size () && !memcmp (b.data (), model[i].data (), r), "file %d differs from the model (%ld bytes, expected %zu)", i, r, model[i].size ()); sim_eval ();
    }
  for (auto &o : ops) { if (o->f) dex_unref (o->f); if (o->raw) dex_unref (o->raw); if (o->has_cb && !o->drop) SIM_CHECK ("io:data-released", o->cb.freed == 1, "data of the callback of operation %d released %d times", o->id, o->cb.freed); }
  if (pool) dex_unref (pool);
  sim_quiesce ();
  SIM_CHECK ("leak:io", sim_track_live_type ("DexUringFuture") + sim_track_live_type ("DexPosixAioFuture") == 0, "%d I/O futures leaked", sim_track_live_type ("DexUringFuture") + sim_track_live_type ("DexPosixAioFuture"));
  leak_end ("I/O");
  for (auto &o : ops) { if (o->huge) munmap (o->buf, o->len); else free (o->buf); }
}

// C15: a counting semaphore with waiters on the main loop and on pool workers, posters and closers anywhere.
#include "wl.h"
struct W15 { int id, who, again = 0, post = 0; bool on_reject = false; Cb cb; DexFuture *f = NULL; bool got = false, rejected = false; };
struct C15 { void *sem; long posts_started = 0, posts = 0, succ = 0, rej = 0, late = 0; bool close_started = false, closed = false; std::vector<std::unique_ptr<W15>> w; };
static C15 *S;
static void post (int n) { S->posts_started += n; if (n == 1 && sim_chance (1, 2)) shim_semaphore_post (S->sem); else shim_semaphore_post_many (S->sem, n); S->posts += n; }
static W15 *new_wait (int who, int again) { auto w = std::make_unique<W15> (); w->id = (int) S->w.size (); w->who = who; w->again = again; w->post = sim_chance (1, 6); w->on_reject = sim_chance (1, 3); W15 *r = w.get (); S->w.push_back (std::move (w)); return r; }
static void wait_on (W15 *w)
{
  w->cb.id = w->id;
  w->cb.fn = [w] (DexFuture *) -> DexFuture * {
    sim_eval ();
    if (!is_error (w->cb.got))
      {
        w->got = true; S->succ++;
        SIM_CHECK ("semaphore:success-without-post", S->succ <= S->posts_started, "%ld waits succeeded although only %ld posts were made", S->succ, S->posts_started);
      }
    else
      {
        w->rejected = true; S->rej++;
        SIM_CHECK ("semaphore:rejected", S->close_started && is_dex_error (w->cb.got, DEX_ERROR_SEMAPHORE_CLOSED), "wait %d: %s", w->id, w->cb.got.c_str ());
      }
    if (w->post) { w->post = 0; if (!S->closed) post (1); }
    if (w->again > 0 && (w->got || w->on_reject) && !S->closed) wait_on (new_wait (w->who, w->again - 1));
    return NULL;
  };
  DexFuture *f = shim_semaphore_wait (S->sem);
  w->f = dex_future_finally (f, cb_call, &w->cb, cb_free);
}
static int settled (void) { int n = 0; for (auto &w : S->w) n += w->got || w->rejected; return n; }
static void check_counts (const char *when)
{
  long total = (long) S->w.size (); sim_eval ();
  SIM_CHECK ("semaphore:lost-post", S->succ == std::min (S->posts, total), "%s: %ld posts and %ld waits, but %ld waits succeeded", when, S->posts, total, S->succ);
}
SIM_WORKLOAD (C15)
{
  leak_begin (); C15 s; S = &s;
  sim_set_nprocs (2 * sim_range (1, 2));
  DexScheduler *pool = sim_chance (3, 4) ? dex_thread_pool_scheduler_new () : NULL;
  s.sem = shim_semaphore_new (); if (sim_chance (1, 4)) post (sim_chance (1, 6) ? 65534 + sim_range (1, 4) : sim_range (1, 4));
  bool crowd = sim_chance (1, 8);
  int rounds = sim_range (1, 3);
  auto who = [&] (bool plain) { for (;;) { int k = sim_choose (3); if (k == 1 && !pool) continue; if (k == 0 && !plain) continue; return k; } };
  std::string d;
  for (int r = 0; r < rounds; r++)
    {
      Threads T; int na = sim_range (1, 4);
      for (int a = 0; a < na; a++)
        {
          bool poster = sim_chance (1, 2); int n = crowd ? sim_range (6, 30) : sim_range (1, 5), k = who (poster), kind = sim_choose (3), again = sim_chance (1, 4) ? sim_range (1, 3) : 0;
          d += poster ? " P" : " W"; d += std::to_string (n) + "@" + std::to_string (k);
          T.go_as (k, pool, [=] {
            if (poster) { if (kind == 0) post (n); else for (int i = 0; i < n; i++) { post (1); if (kind == 2) sim_point (); } }
            else for (int i = 0; i < n; i++) wait_on (new_wait (k, again));
          });
        }
      T.run (); sim_quiesce (); check_counts ("idle");
    }
  int end = sim_choose (3);
  if (sim_uring () && !sim_chance (1, 12)) while (settled () < (int) s.w.size ()) { post (1); sim_quiesce (); check_counts ("draining"); }   // see the known finding
  long waiting = (long) s.w.size () - settled ();
  sim_note ("%s; %ld posts, %zu waits, %ld left, end %d", d.c_str (), s.posts, s.w.size (), waiting, end);
  if (end == 0)
    {
      while (settled () < (int) s.w.size ()) { post (1); sim_quiesce (); check_counts ("draining"); }
      s.closed = true; dex_unref (s.sem); sim_quiesce ();
    }
  else if (end == 1)
    {
      // close, with posts and waits going on at the same time
      Threads T; int na = sim_range (0, 3); s.close_started = true; int closer = who (true);
      for (int a = 0; a < na; a++)
        {
          bool poster = sim_chance (1, 2); int n = sim_range (1, 4), k = who (poster);
          T.go_as (k, pool, [=] { for (int i = 0; i < n; i++) if (poster) post (1); else wait_on (new_wait (k, 0)); });
        }
      T.go_as (closer, pool, [] { shim_semaphore_close (S->sem); });
      T.run (); sim_quiesce (); sim_probe ("closed");
      if (sim_chance (1, 2))
        {
          W15 *w = new_wait (2, 0); wait_on (w); sim_quiesce ();
          SIM_CHECK ("semaphore:closed-succeeds", w->rejected, "a wait begun after the semaphore was closed %s", w->got ? "succeeded" : "is pending");
        }
      for (auto &w : s.w) SIM_CHECK ("semaphore:not-released", w->got || w->rejected, "%s: wait %d is still pending after the semaphore was closed", sim_uring () ? "eventfd" : "queue", w->id);
      s.closed = true; dex_unref (s.sem); sim_quiesce ();
    }
  else
    {
      s.close_started = s.closed = true; if (waiting) sim_probe ("dropped_with_waiters");
      if (sim_chance (1, 2)) { Threads T; T.go_as (who (true), pool, [] { dex_unref (S->sem); }); T.run (); } else dex_unref (s.sem);
      sim_quiesce ();
      for (auto &w : s.w) SIM_CHECK ("semaphore:not-released", w->got || w->rejected, "%s: wait %d is still pending after the semaphore was dropped", sim_uring () ? "eventfd" : "queue", w->id);
    }
  SIM_CHECK ("semaphore:success-without-post", s.succ <= s.posts, "%ld waits succeeded with %ld posts", s.succ, s.posts);
  for (auto &w : s.w)
    {
      SIM_CHECK ("semaphore:callback", w->cb.calls == 1 && w->cb.freed == 1, "callback of wait %d: called %d times, data released %d times", w->id, w->cb.calls, w->cb.freed);
      dex_unref (w->f);
    }
  if (pool) dex_unref (pool);
  sim_quiesce (); leak_end ("semaphore");
}

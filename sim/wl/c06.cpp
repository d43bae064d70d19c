// C06: cancellable operations whose consumers are dropped and completed from several threads.
#include "wl.h"
struct Node6 { int kind; std::vector<int> in; std::vector<int> parents; DexFuture *f = NULL; bool handle = true; Cb cb; };   // kind 0..2 block, 3..6 set, 7 received from a channel
struct Op6 { DexPromise *p; Val v; bool complete_invoked = false; int by = -1; std::vector<int> consumers; int cancelled = 0; GCancellable *c; };
struct World6 {
  std::vector<std::unique_ptr<Op6>> ops; std::vector<std::unique_ptr<Node6>> nodes;   // an input i < 0 is op -1-i
  // possible outcomes now: 1 resolved, 2 rejected
  int mask (int x)
  {
    if (x < 0) { Op6 &o = *ops[-1 - x]; return o.complete_invoked ? (o.v.kind == K_ERROR ? 2 : 1) : 0; }
    Node6 &n = *nodes[x];
    if (n.kind < 3 || n.kind == 7) return mask (n.in[0]);
    int all = 1, uni = 0; for (int i : n.in) { int m = mask (i); if (!m) all = 0; uni |= m; }
    switch (n.kind - 3)
      {
      case 0: return !all ? 0 : uni;
      case 1: return uni;
      case 2: return (uni & 1) | (all ? 3 : 0);
      default: return (uni & 2) | (all ? 3 : 0);
      }
  }
  // certainly complete, once nothing is in motion
  bool done (int x)
  {
    if (x < 0) return ops[-1 - x]->complete_invoked;
    Node6 &n = *nodes[x];
    if (n.kind < 3 || n.kind == 7) return done (n.in[0]);
    bool all = true, any = false, res = false, rej = false;
    for (int i : n.in) { bool d = done (i); all &= d; any |= d; res |= d && mask (i) == 1; rej |= d && mask (i) == 2; }
    return all || (n.kind == 4 && any) || (n.kind == 5 && res) || (n.kind == 6 && rej);
  }
  bool wanted (int x)   // somebody certainly still wants it
  {
    if (!nodes[x]->f) return false;   // not attached yet
    if (nodes[x]->handle) return true;
    for (int p : nodes[x]->parents) if (wanted (p) && !mask (p)) return true;
    return false;
  }
  bool alive (int x)
  {
    if (nodes[x]->handle) return true;
    for (int p : nodes[x]->parents) if (alive (p) && ((nodes[p]->kind >= 3 && nodes[p]->kind != 7) || !done (p))) return true;
    return false;
  }
};
static const char *node_name (int k) { return k < 3 ? block_name (k) : k == 7 ? "receive" : set_name (k - 3); }
// sent through a channel, before or after somebody asked for it
static DexFuture *passed_on (DexFuture *f)
{
  DexChannel *c = dex_channel_new (0); DexFuture *r, *ack;
  if (sim_chance (1, 2)) { r = dex_channel_receive (c); ack = dex_channel_send (c, fref (f)); } else { ack = dex_channel_send (c, fref (f)); r = dex_channel_receive (c); }
  dex_unref (ack); dex_unref (c); sim_probe ("received_from_channel");
  return r;
}
static World6 *W;
static void on_cancelled (GCancellable *c, gpointer data)
{
  int i = GPOINTER_TO_INT (data); Op6 &o = *W->ops[i];
  o.cancelled++; sim_eval ();
  for (int x : o.consumers)
    if (W->wanted (x) && !W->mask (x))
      sim_violation ("cancel:live-consumer", "operation %d cancelled although consumer %d (%s) is alive and still waits for it", i, x, node_name (W->nodes[x]->kind));
}
SIM_WORKLOAD (C06)
{
  leak_begin ();
  World6 w; W = &w;
  int nops = sim_range (1, 3), nn = sim_range (1, 5), nth = sim_range (1, 4); bool two_pass = sim_chance (1, 3);
  for (int i = 0; i < nops; i++)
    {
      auto o = std::make_unique<Op6> (); o->p = dex_promise_new_cancellable (); o->v = val_draw (i + 1); o->by = sim_chance (1, 3) ? sim_choose (nth) : -1;
      o->c = dex_promise_get_cancellable (o->p);
      g_object_ref (o->c);
      g_signal_connect (o->c, "cancelled", G_CALLBACK (on_cancelled), GINT_TO_POINTER (i));
      w.ops.push_back (std::move (o));
    }
  bool early = sim_chance (1, 4);   // one operation is complete before anything is attached
  if (early) { w.ops[0]->by = -1; w.ops[0]->complete_invoked = true; val_resolve (w.ops[0]->p, w.ops[0]->v); }
  for (int i = 0; i < nn; i++)
    {
      auto n = std::make_unique<Node6> (); n->kind = sim_choose (8); n->cb.id = i;
      auto pick = [&] { return i > 0 && sim_chance (1, 3) ? sim_choose (i) : -1 - sim_choose (nops); };
      int cnt = n->kind < 3 || n->kind == 7 ? 1 : sim_range (1, 3);
      for (int k = 0; k < cnt; k++) { int x = pick (); if (std::find (n->in.begin (), n->in.end (), x) == n->in.end ()) n->in.push_back (x); }
      for (int x : n->in) if (x < 0) w.ops[-1 - x]->consumers.push_back (i); else w.nodes[x]->parents.push_back (i);
      w.nodes.push_back (std::move (n));
    }
  // who drops which handle; "held" handles stay until after the check
  std::vector<std::vector<int>> prog (nth); std::vector<bool> held (nn), pre (nn);
  for (int i = 0; i < nn; i++)
    {
      int d = sim_range (0, 5);
      if (w.nodes[i]->parents.size () && d < 2) pre[i] = true;          // only its consumers hold it
      else if (d == 5) held[i] = true;
      else { auto &v = prog[sim_choose (nth)]; v.insert (v.begin () + sim_choose ((int) v.size () + 1), i); }
    }
  for (int i = 0; i < nops; i++) if (w.ops[i]->by >= 0) { auto &v = prog[w.ops[i]->by]; v.insert (v.begin () + sim_choose ((int) v.size () + 1), -1 - i); }
  sim_note ("%d operations;", nops);
  for (int i = 0; i < nn; i++) { auto &n = *w.nodes[i]; sim_note (" c%d=%s(", i, node_name (n.kind)); for (int x : n.in) sim_note (x < 0 ? "op%d " : "c%d ", x < 0 ? -1 - x : x); sim_note (")%s", held[i] ? " held" : pre[i] ? " inner" : ""); }
  for (auto &p : prog) { sim_note (" ["); for (int x : p) sim_note (x < 0 ? "complete op%d " : "drop c%d ", x < 0 ? -1 - x : x); sim_note ("]"); }
  for (int i = 0; i < nn; i++)
    {
      auto &n = *w.nodes[i]; std::vector<DexFuture *> m;
      for (int x : n.in) m.push_back (x < 0 ? DEX_FUTURE (w.ops[-1 - x]->p) : w.nodes[x]->f);
      n.f = n.kind == 7 ? passed_on (m[0]) : n.kind < 3 ? block_new (n.kind, fref (m[0]), &n.cb) : set_new (n.kind - 3, m);
    }
  auto drop = [&] (int i) { Node6 &n = *w.nodes[i]; n.handle = false; dex_unref (n.f); };
  for (int i = 0; i < nn; i++) if (pre[i]) drop (i);
  Threads T;
  for (int t = 0; t < nth; t++)
    T.go ([&, t] { for (int x : prog[t]) if (x >= 0) drop (x); else { Op6 &o = *w.ops[-1 - x]; o.complete_invoked = true; val_resolve (o.p, o.v); } });
  T.run ();
  calm_and_settle ();
  auto check = [&] {
    for (int i = 0; i < nops; i++)
      {
        Op6 &o = *w.ops[i]; sim_eval ();
        SIM_CHECK ("cancel:twice", o.cancelled <= 1, "cancelled signal %d times", o.cancelled);
        if (o.complete_invoked || o.consumers.empty ()) continue;
        bool waiting = false; for (int x : o.consumers) waiting |= w.alive (x) && !w.done (x);
        if (!waiting) sim_probe ("last_consumer_gone");
        SIM_CHECK ("cancel:never", waiting || g_cancellable_is_cancelled (o.c), "operation %d was not cancelled although no consumer awaits it any more", i);
      }
  };
  check ();
  if (two_pass) { for (int i = 0; i < nn; i++) if (held[i] && sim_chance (1, 2)) { held[i] = false; drop (i); sim_quiesce (); check (); } }
  for (int i = 0; i < nn; i++) if (held[i]) drop (i);
  sim_quiesce (); check ();
  for (auto &n : w.nodes) if (n->kind < 3) SIM_CHECK ("callback:data-not-released", n->cb.freed == 1, "callback data released %d times", n->cb.freed);
  for (auto &o : w.ops) { if (!o->complete_invoked && sim_chance (1, 2)) val_resolve (o->p, o->v); dex_unref (o->p); g_object_unref (o->c); }
  sim_quiesce ();
  leak_end ("C06");
}

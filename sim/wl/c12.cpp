// C12, C13, C14: channels used from several threads, against a FIFO order check, a capacity model and a close model.
#include "wl.h"
struct Item { int id; Val v; DexPromise *p = NULL; DexFuture *f = NULL; int late = 0; uint64_t inv = 0, ret = 0; DexFuture *ack = NULL; bool rejected = false; int got = 0; int rcv = -1, pos = 0; bool pend_at_ret = false; DexFuture *hold = NULL; };   // late: 0 complete, 1 completed later, 2 never completed
struct Recv { bool all; uint64_t inv = 0, ret = 0; DexFuture *f = NULL; std::vector<int> items; bool single = true, rejected = false, pending = false; };
enum { SEND, RECV, RECVALL, COMPLETE, CLOSE_S, CLOSE_R, DROP };
struct CStep { int what, arg; };
struct Chan {
  int cap; DexChannel *c = NULL; std::vector<std::unique_ptr<Item>> items; std::vector<std::unique_ptr<Recv>> recvs;
  uint64_t cs_inv = 0, cs_ret = 0, cr_inv = 0, cr_ret = 0;   // closes of the two sides (first invocation, first return)
  std::map<std::string, int> by_value;
  int new_item (int late_num)
  {
    auto i = std::make_unique<Item> (); i->id = (int) items.size (); i->v = val_draw (i->id + 1, 1, 4); if (i->v.kind == K_BOOL) i->v.kind = K_INT;
    i->late = sim_chance (late_num, 6) ? 1 : 0; items.push_back (std::move (i)); return (int) items.size () - 1;
  }
  int new_recv (bool all) { auto r = std::make_unique<Recv> (); r->all = all; recvs.push_back (std::move (r)); return (int) recvs.size () - 1; }
  void prepare () { for (auto &i : items) { by_value[val_repr (i->v)] = i->id; if (i->late) i->p = dex_promise_new (); } }
  void send (int k)
  {
    Item &i = *items[k];
    DexFuture *f = i.p ? fref (i.p) : val_future (i.v);
    if (i.p && i.late == 2) { dex_unref (i.p); i.p = NULL; }   // only the channel holds it
    i.f = f; if (i.late != 2) i.hold = fref (f);   // an address that is compared is not reused
    i.inv = sim_seq (); i.ack = dex_channel_send (c, f); i.ret = sim_seq ();
    i.pend_at_ret = dex_future_is_pending (i.ack);
  }
  void recv (int k)
  {
    Recv &r = *recvs[k];
    r.inv = sim_seq (); r.f = r.all ? dex_channel_receive_all (c) : dex_channel_receive (c); r.ret = sim_seq ();
  }
  void complete (int k) { Item &i = *items[k]; if (i.p) { DexPromise *p = i.p; val_resolve (p, i.v); i.p = NULL; dex_unref (p); } }
  void close (int what)
  {
    uint64_t a = sim_seq (); if (what == CLOSE_S) dex_channel_close_send (c); else dex_channel_close_receive (c); uint64_t b = sim_seq ();
    uint64_t &inv = what == CLOSE_S ? cs_inv : cr_inv, &ret = what == CLOSE_S ? cs_ret : cr_ret;
    if (!inv || a < inv) inv = a;
    if (!ret || b < ret) ret = b;
  }
  void step (CStep s)
  {
    switch (s.what)
      {
      case SEND: send (s.arg); break;
      case RECV: case RECVALL: recv (s.arg); break;
      case COMPLETE: complete (s.arg); break;
      case CLOSE_S: case CLOSE_R: close (s.what); break;
      }
  }
  void take (int k, int it, int pos)
  {
    Item &i = *items[it];
    SIM_CHECK ("channel:duplicate", i.got == 0, "item %d was received twice", it);
    SIM_CHECK ("channel:unsent", i.inv != 0, "item %d was received without being sent", it);
    i.got++; i.rcv = k; i.pos = pos; recvs[k]->items.push_back (it);
  }
  // what every receive got; only meaningful when nothing is in motion
  void collect ()
  {
    for (auto &i : items) { i->got = 0; i->rcv = -1; i->rejected = i->ack && is_dex_error (outcome (i->ack), DEX_ERROR_CHANNEL_CLOSED); }
    for (size_t k = 0; k < recvs.size (); k++)
      {
        Recv &r = *recvs[k]; r.items.clear (); r.pending = r.rejected = false; r.single = true;
        if (!r.f) continue;
        auto one = [&] (const std::string &o) {
          sim_eval ();
          if (o == "pending") { r.pending = true; return; }
          if (is_dex_error (o, DEX_ERROR_CHANNEL_CLOSED)) { r.rejected = true; return; }
          auto f = by_value.find (o);
          SIM_CHECK ("channel:foreign-item", f != by_value.end (), "receive %zu got %s, which nobody sent", k, o.c_str ());
          take ((int) k, f->second, 0);
        };
        if (!r.all || is_dex_error (outcome (r.f), DEX_ERROR_CHANNEL_CLOSED)) { one (outcome (r.f)); continue; }
        DexFutureSet *s = (DexFutureSet *) r.f; unsigned n = dex_future_set_get_size (s);
        auto which = [&] (DexFuture *f) { int it = -1; for (auto &i : items) if (i->f == f && !i->rejected && (i->hold || (it < 0 && dex_future_is_pending (f) && !i->got))) it = i->id; return it; };
        bool batch = which (dex_future_set_get_future_at (s, 0)) >= 0;
        if (!batch) { SIM_CHECK ("channel:batch", n == 1, "a batch of %u starts with something that was not sent", n); one (outcome (dex_future_set_get_future_at (s, 0))); continue; }
        r.single = false;
        for (unsigned j = 0; j < n; j++)
          {
            int it = which (dex_future_set_get_future_at (s, j));
            SIM_CHECK ("channel:foreign-item", it >= 0, "batch member %u was never sent", j);
            take ((int) k, it, (int) j);
            std::string o = outcome (dex_future_set_get_future_at (s, j));
            if (o == "pending") r.pending = true; else SIM_CHECK ("channel:outcome", o == val_repr (items[it]->v), "batch member %d reads %s", it, o.c_str ());
          }
      }
  }
  int accepted () { int n = 0; for (auto &i : items) n += i->ack && !i->rejected; return n; }
  int acked () { int n = 0; for (auto &i : items) n += i->ack && !i->rejected && !dex_future_is_pending (i->ack); return n; }
  int received () { int n = 0; for (auto &i : items) n += i->got; return n; }
  void check_order ()
  {
    int n = (int) items.size (); std::vector<std::vector<bool>> lt (n, std::vector<bool> (n));
    for (auto &a : items)
      for (auto &b : items)
        {
          if (a == b || !a->ack || !b->ack || a->rejected || b->rejected) continue;
          bool before = a->ret < b->inv;
          if (a->got && b->got) before |= a->rcv == b->rcv ? a->pos < b->pos : recvs[a->rcv]->ret < recvs[b->rcv]->inv;
          else if (a->got && !b->got) before = before;
          lt[a->id][b->id] = before;
          SIM_CHECK ("channel:order", !(a->ret < b->inv && !a->got && b->got && a->late != 2), "item %d was sent before item %d, which was received while %d still waits", a->id, b->id, a->id);
        }
    for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (lt[i][k]) for (int j = 0; j < n; j++) if (lt[k][j]) lt[i][j] = true;
    sim_eval ();
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && lt[i][j] && lt[j][i]) sim_violation ("channel:order", "items %d and %d were received in another order than they were sent", i, j);
  }
  // nothing closed, nothing in motion, and every received item complete
  void check_capacity ()
  {
    int S = 0, single = 0, batch = 0, pend = 0;
    for (auto &i : items) S += i->ack != NULL;
    for (auto &r : recvs) if (r->f) { if (r->single) single++; else batch += (int) r->items.size (); pend += r->pending && r->single; }
    int matched = std::min (S, batch + single), must_ack = cap == 0 ? S : std::min (S, matched + cap);
    sim_eval ();
    SIM_CHECK ("channel:over-capacity", acked () <= must_ack, "%d sends acknowledged with %d received and capacity %d", acked (), matched, cap);
    SIM_CHECK ("channel:sender-stuck", acked () >= must_ack, "%d of %d sends acknowledged although %d were received and the capacity is %d", acked (), S, matched, cap);
    SIM_CHECK ("channel:receiver-stuck", received () >= matched, "%d items received by %d receives although %d were sent", received (), batch + single, S);
    for (auto &a : items) for (auto &b : items)
      if (a->ack && b->ack && a->ret < b->inv) SIM_CHECK ("channel:ack-order", !(dex_future_is_pending (a->ack) && !dex_future_is_pending (b->ack)), "send %d acknowledged before the earlier send %d", b->id, a->id);
    for (auto &a : items) if (a->ack && !dex_future_is_pending (a->ack))
      {
        const GValue *v = dex_future_get_value (a->ack, NULL);
        SIM_CHECK ("channel:ack-value", v && G_VALUE_HOLDS_UINT (v) && g_value_get_uint (v) >= 1 && (cap == 0 || (int) g_value_get_uint (v) <= cap), "acknowledgement carries %s", v ? gvalue_repr (v).c_str () : "no value");
      }
  }
  void note (std::vector<std::vector<CStep>> &prog)
  {
    static const char *n[] = { "send", "recv", "recvall", "complete", "close_send", "close_recv", "drop" };
    for (auto &p : prog) { sim_note (" ["); for (auto &s : p) sim_note (s.what <= COMPLETE ? "%s%d%s " : "%s ", n[s.what], s.arg, s.what == SEND && items[s.arg]->late ? items[s.arg]->late == 2 ? "(never)" : "(late)" : ""); sim_note ("]"); }
  }
  void dispose ()
  {
    for (auto &r : recvs) if (r->f) { dex_unref (r->f); r->f = NULL; }
    for (auto &i : items) { if (i->ack) dex_unref (i->ack); i->ack = NULL; if (i->hold) dex_unref (i->hold); i->hold = NULL; if (i->p) { dex_unref (i->p); i->p = NULL; } }
    if (c) { dex_unref (c); c = NULL; }
  }
};
static void run_threads (Chan &ch, std::vector<std::vector<CStep>> &prog)
{
  Threads T;
  for (auto &p : prog) T.go ([&ch, &p] { for (auto &s : p) ch.step (s); });
  T.run ("channel:blocked-thread");
}
// senders and receivers over the threads; late items are completed by any thread
static std::vector<std::vector<CStep>> chan_program (Chan &ch, int nth, int maxitems, bool complete_late)
{
  std::vector<std::vector<CStep>> prog (nth);
  bool deep = ch.cap > 3;   // a deep channel is worth it only with many blocked senders, taken by few large batches
  int ni = sim_range (deep ? ch.cap / 2 : 1, deep ? 2 * ch.cap + 8 : maxitems), nr = sim_range (0, deep ? 5 : ni + 2), style = sim_choose (3);   // 0 mixed, 1 dedicated threads, 2 receives first
  auto put = [&] (CStep s, int t) { auto &v = prog[t]; if (style == 2 && s.what != SEND) v.insert (v.begin (), s); else v.push_back (s); };
  std::vector<CStep> steps;
  for (int i = 0; i < ni; i++) steps.push_back ({ SEND, ch.new_item (2) });
  for (int i = 0; i < nr; i++) { bool all = sim_chance (1, deep ? 2 : 4); steps.push_back ({ all ? RECVALL : RECV, ch.new_recv (all) }); }
  for (size_t k = steps.size (); k > 1; k--) std::swap (steps[k - 1], steps[sim_choose ((int) k)]);
  for (auto &s : steps) put (s, style == 1 && nth > 1 ? (s.what == SEND ? 0 : 1 + sim_choose (nth - 1)) : sim_choose (nth));
  if (complete_late) for (auto &s : steps) if (s.what == SEND && ch.items[s.arg]->late == 1 && sim_chance (2, 3)) { auto &v = prog[sim_choose (nth)]; v.insert (v.begin () + sim_choose ((int) v.size () + 1), { COMPLETE, s.arg }); }
  return prog;
}
static int draw_cap () { return sim_chance (1, 10) ? sim_range (4, 20) : sim_chance (1, 4) ? 0 : sim_range (1, 3); }

SIM_WORKLOAD (C12)
{
  leak_begin ();
  Chan ch; ch.cap = draw_cap (); int nth = sim_range (2, 4);
  auto prog = chan_program (ch, nth, 6, true);
  int extra = 0; for (auto &i : ch.items) (void) i, extra++;
  sim_note ("capacity %d", ch.cap); ch.note (prog);
  ch.c = dex_channel_new (ch.cap); ch.prepare ();
  // A COMPLETE may come before its SEND on another thread: keep the promise alive for it
  std::vector<DexPromise *> keep; for (auto &i : ch.items) if (i->p) keep.push_back ((DexPromise *) dex_ref (i->p));
  for (auto &i : ch.items) if (i->p) i->f = DEX_FUTURE (i->p);
  std::vector<DexPromise *> pr; for (auto &i : ch.items) pr.push_back (i->p);
  {
    Threads T;
    for (auto &p : prog)
      T.go ([&ch, &p, &pr] { for (auto &s : p)
        {
          if (s.what == COMPLETE) val_resolve (pr[s.arg], ch.items[s.arg]->v);
          else if (s.what == SEND)
            {
              Item &i = *ch.items[s.arg]; DexFuture *f = pr[s.arg] ? fref (pr[s.arg]) : val_future (i.v);
              i.f = f; i.hold = fref (f); i.inv = sim_seq (); i.ack = dex_channel_send (ch.c, f); i.ret = sim_seq ();
            }
          else ch.step (s);
        } });
    T.run ("channel:blocked-thread");
  }
  calm_and_settle ();
  for (size_t k = 0; k < pr.size (); k++) if (pr[k] && dex_future_is_pending (DEX_FUTURE (pr[k]))) { sim_probe ("completed_after_it_was_received"); val_resolve (pr[k], ch.items[k]->v); }
  sim_quiesce ();
  ch.collect (); ch.check_order ();
  // receive the rest one by one: nothing may be lost
  int rest = ch.accepted () - ch.received (), waiting = 0;
  for (auto &r : ch.recvs) waiting += r->pending;
  SIM_CHECK ("channel:lost", !(rest > 0 && waiting > 0), "%d receives wait although %d items were sent and not received", waiting, rest);
  for (int i = 0; i < rest; i++) { int k = ch.new_recv (false); ch.recv (k); }
  sim_quiesce ();
  ch.collect (); ch.check_order ();
  for (auto &i : ch.items) { sim_eval (); SIM_CHECK ("channel:lost", i->got == 1, "item %d was received %d times after as many receives as sends", i->id, i->got); SIM_CHECK ("channel:unacknowledged", !dex_future_is_pending (i->ack), "send %d is pending although the item was received", i->id); }
  for (auto p : keep) dex_unref (p);
  ch.dispose ();
  sim_quiesce ();
  leak_end ("C12");
  SIM_CHECK ("leak:values", wl_objects_alive == 0, "%d objects leaked", wl_objects_alive);
}

// senders that do not care for the acknowledgement: they drop it at once, later, or while the item is being taken
static void forgetful (void)
{
  leak_begin ();
  int cap = sim_range (1, 2), ns = sim_range (1, 3), nr = sim_range (1, 2), per = sim_range (1, 5), total = ns * per;
  DexChannel *c = dex_channel_new (cap); std::vector<std::vector<int>> how (ns); std::vector<std::vector<DexFuture *>> acks (ns, std::vector<DexFuture *> (per)), got (nr + 1);
  for (auto &h : how) for (int k = 0; k < per; k++) h.push_back (sim_choose (3));
  std::vector<int> takes (nr); int left = total; for (int r = 0; r < nr; r++) { takes[r] = sim_range (0, left); left -= takes[r]; }
  bool drop_by_other = sim_chance (1, 2);
  sim_note ("capacity %d, %d senders of %d items drop their acknowledgements, %d receivers", cap, ns, per, nr); sim_probe ("acknowledgement_dropped");
  Threads T;
  for (int t = 0; t < ns; t++) { dex_ref (c); T.go ([&, t] { for (int k = 0; k < per; k++) { DexFuture *a = dex_channel_send (c, dex_future_new_for_int (t * 100 + k)); if (how[t][k] == 0) dex_unref (a); else { acks[t][k] = a; if (how[t][k] == 1 && !drop_by_other) { sim_point (); acks[t][k] = NULL; dex_unref (a); } } } dex_unref (c); }); }
  for (int r = 0; r < nr; r++) { dex_ref (c); T.go ([&, r] { for (int k = 0; k < takes[r]; k++) got[r].push_back (dex_channel_receive (c)); dex_unref (c); }); }
  if (drop_by_other) T.go ([&] { for (int round = 0; round < 3; round++) for (int t = 0; t < ns; t++) for (int k = 0; k < per; k++) { if (how[t][k] == 1 && acks[t][k]) { DexFuture *a = acks[t][k]; acks[t][k] = NULL; dex_unref (a); } else sim_point (); } });
  T.run ("channel:blocked-thread"); calm_and_settle ();
  for (; left > 0; left--) { got[nr].push_back (dex_channel_receive (c)); sim_quiesce (); }
  std::vector<int> seen (ns * 100), last (ns, -1);
  for (int r = 0; r <= nr; r++)
    {
      std::vector<int> mine (ns, -1);
      for (auto f : got[r])
        {
          std::string o = outcome (f); sim_eval (); SIM_CHECK ("channel:lost", o.substr (0, 5) == "gint:", "a receive is %s after as many receives as sends", o.c_str ());
          int id = atoi (o.c_str () + 5); SIM_CHECK ("channel:invented", id >= 0 && id < ns * 100 && id % 100 < per, "received %d", id); SIM_CHECK ("channel:twice", seen[id]++ == 0, "item %d was received twice", id);
          SIM_CHECK ("channel:order", mine[id / 100] < id % 100, "item %d of sender %d was received after item %d", id % 100, id / 100, mine[id / 100]); mine[id / 100] = id % 100;
          dex_unref (f);
        }
    }
  for (int t = 0; t < ns; t++) for (auto a : acks[t]) if (a) { SIM_CHECK ("channel:unacknowledged", dex_future_is_resolved (a), "a send is %s although its item was received", outcome (a).c_str ()); dex_unref (a); }
  dex_unref (c); sim_quiesce (); leak_end ("forgetful senders");
}
SIM_WORKLOAD (C13)
{
  if (sim_chance (1, 6)) { forgetful (); return; }
  leak_begin ();
  Chan ch; ch.cap = draw_cap (); int rounds = ch.cap > 3 ? 1 : sim_range (1, 3);
  bool seq = sim_chance (1, 4); int nth = seq ? 1 : sim_range (2, 3);
  std::vector<std::vector<std::vector<CStep>>> progs;
  sim_note ("capacity %d", ch.cap);
  for (int r = 0; r < rounds; r++)
    {
      int first = (int) ch.items.size ();
      progs.push_back (chan_program (ch, nth, 6, false));
      for (size_t i = first; i < ch.items.size (); i++) ch.items[i]->late = 0;
      ch.note (progs.back ()); sim_note (";");
    }
  ch.c = dex_channel_new (ch.cap); ch.prepare (); ch.collect ();
  for (auto &prog : progs)
    {
      if (seq)
        // one caller: the acknowledgement is immediate exactly when there is room
        for (auto &s : prog[0])
          {
            int before_sent = 0, batch = 0, single = 0;
            for (auto &i : ch.items) before_sent += i->ack != NULL;
            for (auto &r : ch.recvs) if (r->f) { if (r->single) single++; else batch += (int) r->items.size (); }
            ch.step (s);
            if (s.what == SEND)
              {
                bool room = ch.cap == 0 || before_sent - std::min (before_sent, batch + single) < ch.cap;
                sim_eval ();
                SIM_CHECK ("channel:ack-at-once", ch.items[s.arg]->pend_at_ret == !room, "send %d was%s acknowledged at once although the channel had %s", s.arg, room ? " not" : "", room ? "room" : "no room");
              }
            ch.collect (); ch.check_capacity ();
          }
      else run_threads (ch, prog);
      sim_quiesce ();
      ch.collect (); ch.check_capacity ();
      if (ch.accepted () > ch.acked ()) sim_probe ("sender_blocked_at_capacity");
    }
  calm_and_settle ();
  // receive what is left, alternating styles
  for (int guard = 0; ch.received () < ch.accepted () && guard < 300; guard++) { int k = ch.new_recv (guard % 3 == 2); ch.recv (k); sim_quiesce (); ch.collect (); ch.check_capacity (); }
  SIM_CHECK ("channel:lost", ch.received () == ch.accepted (), "%d of %d items received", ch.received (), ch.accepted ());
  ch.dispose (); sim_quiesce ();
  leak_end ("C13");
}

SIM_WORKLOAD (C14)
{
  leak_begin ();
  Chan ch; ch.cap = draw_cap (); int nth = sim_range (1, 4);
  auto prog = chan_program (ch, nth, 5, false);
  for (auto &i : ch.items) if (i->late) i->late = sim_chance (1, 2) ? 2 : 1;
  int closes = sim_range (0, 3);
  for (int k = 0; k < closes; k++) { auto &v = prog[sim_choose (nth)]; v.insert (v.begin () + sim_choose ((int) v.size () + 1), { sim_chance (2, 3) ? CLOSE_S : CLOSE_R, 0 }); }
  // one thread may drop the reference of the caller early: every thread holds its own
  bool drain = sim_chance (1, 2), final_close = sim_chance (1, 2);
  sim_note ("capacity %d", ch.cap); ch.note (prog); sim_note (drain ? " drain" : ""); sim_note (final_close ? " close_send at the end" : " drop at the end");
  ch.c = dex_channel_new (ch.cap); ch.prepare ();
  std::vector<DexPromise *> late; for (auto &i : ch.items) if (i->late == 1) late.push_back ((DexPromise *) dex_ref (i->p)); else late.push_back (NULL);
  run_threads (ch, prog);
  calm_and_settle ();
  auto settle_late = [&] { for (size_t k = 0; k < late.size (); k++) if (late[k] && dex_future_is_pending (DEX_FUTURE (late[k]))) val_resolve (late[k], ch.items[k]->v); sim_quiesce (); };
  auto collect = [&] { ch.collect (); ch.check_order (); };
  settle_late ();
  if (final_close) { ch.close (CLOSE_S); sim_quiesce (); }
  collect ();
  auto check = [&] (const char *when) {
    int never = 0, rcvd = ch.received (); (void) never;
    bool sclosed = ch.cs_ret != 0, rclosed = ch.cr_ret != 0;
    SIM_CHECK ("close:can-send", !ch.c || dex_channel_can_send (ch.c) == !sclosed, "can_send is wrong %s", when);
    SIM_CHECK ("close:can-receive", !ch.c || dex_channel_can_receive (ch.c) == !rclosed, "can_receive is wrong %s", when);
    int nonrej = 0, unsettled_never = 0;
    for (auto &r : ch.recvs) if (r->f && !r->rejected) nonrej++;
    for (auto &i : ch.items) if (i->ack && !i->rejected && i->late == 2) unsettled_never++;
    for (auto &i : ch.items)
      if (i->ack)
        {
          sim_eval ();
          if ((ch.cs_ret && i->inv > ch.cs_ret) || (ch.cr_ret && i->inv > ch.cr_ret)) { sim_probe ("send_after_close"); SIM_CHECK ("close:late-send-accepted", i->rejected, "send %d after the close was not rejected (%s)", i->id, when); }
          if (i->rejected) SIM_CHECK ("close:rejected-but-delivered", !i->got, "item %d was delivered although its send was rejected", i->id);
          if (i->rejected) SIM_CHECK ("close:spurious-reject", (ch.cs_inv && ch.cs_inv < i->ret) || ch.cr_inv, "send %d was rejected although nothing was closed (%s)", i->id, when);
          if (rclosed) SIM_CHECK ("close:send-pending", !dex_future_is_pending (i->ack), "send %d is still pending after the receive side closed (%s)", i->id, when);
        }
    for (size_t k = 0; k < ch.recvs.size (); k++)
      {
        Recv &r = *ch.recvs[k]; if (!r.f) continue; sim_eval ();
        if (ch.cr_ret && r.inv > ch.cr_ret) SIM_CHECK ("close:late-receive", r.rejected, "receive %zu after the receive side closed was not rejected (%s)", k, when);
        if (r.rejected) SIM_CHECK ("close:spurious-reject", ch.cs_inv || ch.cr_inv, "receive %zu was rejected although nothing was closed", k);
        // a rejected receive means nothing that was accepted is left for it
        if (r.rejected && !rclosed && ch.cs_inv) SIM_CHECK ("close:item-refused", rcvd + unsettled_never >= ch.accepted (), "receive %zu was rejected as closed although an accepted item was never received (%s)", k, when);
        if ((sclosed || rclosed) && r.pending && unsettled_never == 0) sim_violation ("close:receive-pending", "receive %zu is still pending (%s)", k, when);
      }
  };
  check ("at rest");
  if (drain && ch.cs_ret && !ch.cr_ret)
    {
      for (int guard = 0; guard < 6 + (int) ch.items.size (); guard++) { int k = ch.new_recv (guard % 4 == 3); ch.recv (k); sim_quiesce (); settle_late (); }
      collect (); check ("after draining");
      for (auto &i : ch.items) if (i->ack && !i->rejected && i->late != 2) SIM_CHECK ("close:lost", i->got == 1, "item %d, accepted before the close, was never received", i->id);
      for (auto &i : ch.items) if (i->ack) SIM_CHECK ("close:send-pending", !dex_future_is_pending (i->ack), "send %d is pending after everything was received", i->id);
      SIM_CHECK ("close:last-receive", ch.recvs.back ()->rejected, "a receive after everything was drained was not rejected");
      sim_probe ("drained_after_close");
    }
  // drop the channel: everything that is left settles
  int sends_pending = 0; for (auto &i : ch.items) sends_pending += i->ack && dex_future_is_pending (i->ack);
  if (sends_pending) sim_probe ("dropped_with_senders_waiting");
  std::vector<int> got0; for (auto &i : ch.items) got0.push_back (i->got);
  dex_unref (ch.c); ch.c = NULL; if (!ch.cs_inv) ch.cs_inv = sim_seq (); if (!ch.cr_inv) ch.cr_inv = sim_seq ();
  sim_quiesce (); settle_late ();
  collect ();
  for (auto &i : ch.items) if (i->ack) { SIM_CHECK ("close:send-pending", !dex_future_is_pending (i->ack), "send %d is pending after the channel was dropped", i->id); SIM_CHECK ("close:delivered-after-drop", i->got == got0[i->id] , "item %d was delivered by dropping the channel", i->id); }
  int never = 0; for (auto &i : ch.items) never += i->ack && i->late == 2;
  if (!never) for (size_t k = 0; k < ch.recvs.size (); k++) if (ch.recvs[k]->f) SIM_CHECK ("close:receive-pending", !ch.recvs[k]->pending, "receive %zu is pending after the channel was dropped", k);
  for (auto p : late) if (p) dex_unref (p);
  ch.dispose (); sim_quiesce ();
  leak_end ("C14");
  SIM_CHECK ("leak:values", wl_objects_alive == 0, "%d objects leaked", wl_objects_alive);
}

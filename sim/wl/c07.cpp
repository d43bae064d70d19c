// C07: references and weak references taken and dropped from several threads.
#include "wl.h"
#include <gobject/gvaluecollector.h>
struct Obj { int id; void *o; int finalized = 0; };
static void on_fin (void *d)
{
  Obj *o = (Obj *) d; o->finalized++;
  if (o->finalized > 1) sim_violation ("object:finalised-twice", "object %d finalised %d times", o->id, o->finalized);
}
// objects in values: every copy counts
static char *collect (GValue *v, GType t, int nocopy, ...) { va_list ap; char *e = NULL; va_start (ap, nocopy); G_VALUE_COLLECT_INIT (v, t, ap, nocopy ? G_VALUE_NOCOPY_CONTENTS : 0, &e); va_end (ap); return e; }
static char *lcopy (GValue *v, int nocopy, ...) { va_list ap; char *e = NULL; va_start (ap, nocopy); G_VALUE_LCOPY (v, ap, nocopy ? G_VALUE_NOCOPY_CONTENTS : 0, &e); va_end (ap); return e; }
static void values (DexObject *o, int how)
{
  GType t = dex_object_get_type (); GValue a = G_VALUE_INIT, b = G_VALUE_INIT; char *e = NULL; sim_eval ();
  switch (how % 3)
    {
    case 0: g_value_init (&a, t); dex_value_set_object (&a, o); break;
    case 1: g_value_init (&a, t); if (o) dex_ref (o); dex_value_take_object (&a, o); break;
    default: e = collect (&a, t, how & 8, o); SIM_CHECK ("value:collect", e == NULL, "%s", e); break;
    }
  SIM_CHECK ("value:object", dex_value_get_object (&a) == o && g_value_peek_pointer (&a) == o, "a value holds another object");
  g_value_init (&b, t); g_value_copy (&a, &b); sim_point ();
  if (how & 16) g_value_unset (&a);
  SIM_CHECK ("value:object", dex_value_get_object (&b) == o, "the copy of a value holds another object");
  DexObject *x = (DexObject *) &b; e = lcopy (&b, how & 32, &x); SIM_CHECK ("value:object", !e && x == o, "a value gave another object");
  if (!(how & 32) && x) dex_unref (x);
  if (how & 64) g_value_unset (&b);
  if (!(how & 64)) { if (how & 128) dex_value_set_object (&b, o); g_value_unset (&b); }
  if (!(how & 16)) g_value_unset (&a);
}
SIM_WORKLOAD (C07)
{
  leak_begin ();
  int no = sim_range (1, 3), nw = sim_range (1, 3), nth = sim_range (2, 4);
  std::vector<std::unique_ptr<Obj>> objs;
  for (int i = 0; i < no; i++) { auto o = std::make_unique<Obj> (); o->id = i; o->o = shim_object_new (on_fin, o.get ()); objs.push_back (std::move (o)); }
  std::vector<ShimWeak *> weak (nw); std::vector<int> setter (nw), pointee (nw); std::vector<bool> cleared (nw);
  for (int i = 0; i < nw; i++) { pointee[i] = sim_range (-1, no - 1); weak[i] = shim_weak_new (pointee[i] < 0 ? NULL : objs[pointee[i]]->o); setter[i] = sim_choose (nth); }
  enum { REF, UNREF, GET, GETHOLD, DROPGOT, SET, VALUE, MANY };
  struct Step { int what, arg, arg2; };
  bool many = sim_chance (1, 40);   // a weak reference read more often than small counters can tell
  bool huge = many && sim_chance (1, 6);
  std::vector<std::vector<Step>> prog (nth); std::vector<std::vector<int>> refs (nth, std::vector<int> (no));
  for (int t = 0; t < nth; t++) for (int o = 0; o < no; o++) refs[t][o] = sim_chance (1, 2);
  auto init = refs;
  for (int t = 0; t < nth; t++)
    {
      int n = sim_range (2, 7);
      for (int k = 0; k < n; k++)
        {
          int w = sim_choose (8), o = sim_choose (no), x = sim_choose (nw);
          if (w == 0 && refs[t][o]) { prog[t].push_back ({ REF, o, 0 }); refs[t][o]++; }
          else if ((w == 1 || w == 2) && refs[t][o]) { prog[t].push_back ({ UNREF, o, 0 }); refs[t][o]--; }
          else if (w == 3) { if (many) { prog[t].push_back ({ MANY, x, huge ? 66000 : 100 + sim_choose (300) }); huge = false; } else prog[t].push_back ({ GET, x, 0 }); }
          else if (w == 4) prog[t].push_back ({ GETHOLD, x, 0 });
          else if (w == 5) prog[t].push_back ({ DROPGOT, 0, 0 });
          else if (w == 7 && (refs[t][o] || sim_chance (1, 8))) prog[t].push_back ({ VALUE, refs[t][o] ? o : -1, sim_choose (256) });
          else if (w == 6 && setter[x] == t) { int to = sim_range (-1, no - 1); if (to < 0 || refs[t][to]) prog[t].push_back ({ SET, x, to }); }
        }
      for (int o = 0; o < no; o++) for (; refs[t][o]; refs[t][o]--) prog[t].push_back ({ UNREF, o, 0 });
    }
  sim_note ("%d objects, %d weak refs to", no, nw); for (int x : pointee) sim_note (" %d", x);
  for (auto &p : prog) { sim_note (" ["); for (auto &s : p) { static const char *n[] = { "ref", "unref", "get", "gethold", "drop", "set", "value", "many" }; sim_note ("%s%d%s ", n[s.what], s.arg, s.what == SET ? (":" + std::to_string (s.arg2)).c_str () : ""); } sim_note ("]"); }
  for (int t = 0; t < nth; t++) for (int o = 0; o < no; o++) if (init[t][o]) dex_ref (objs[o]->o);
  for (auto &o : objs) dex_unref (o->o);
  Threads T;
  for (int t = 0; t < nth; t++)
    T.go ([&, t] {
      std::vector<void *> got;
      auto alive = [&] (void *o, const char *how) {
        Obj *d = NULL; for (auto &x : objs) if (x->o == o) d = x.get ();
        SIM_CHECK ("weak:garbage", d != NULL, "a weak reference gave an object it never pointed to");
        SIM_CHECK ("weak:dead", d->finalized == 0, "object %d %s was already finalised", d->id, how);
        sim_eval ();
      };
      for (auto &s : prog[t])
        switch (s.what)
          {
          case REF: dex_ref (objs[s.arg]->o); break;
          case UNREF: alive (objs[s.arg]->o, "still referenced"); dex_unref (objs[s.arg]->o); break;
          case GET: case GETHOLD:
            {
              void *o = shim_weak_get (weak[s.arg]);
              if (!o) { sim_probe ("weak_get_nothing"); break; }
              sim_probe ("weak_get_object");
              alive (o, "obtained from a weak reference"); sim_point (); alive (o, "obtained from a weak reference and held");
              if (s.what == GET) dex_unref (o); else got.push_back (o);
              break;
            }
          case MANY: for (int k = 0; k < s.arg2; k++) { void *o = shim_weak_get (weak[s.arg]); if (!o) break; alive (o, "obtained again"); dex_unref (o); } break;
          case VALUE: values (s.arg < 0 ? NULL : (DexObject *) objs[s.arg]->o, s.arg2); break;
          case DROPGOT: if (got.size ()) { alive (got.back (), "held"); dex_unref (got.back ()); got.pop_back (); } break;
          case SET: shim_weak_set (weak[s.arg], s.arg2 < 0 ? NULL : objs[s.arg2]->o); break;
          }
      for (void *o : got) { alive (o, "held"); dex_unref (o); }
    });
  T.run ("weak:blocked-forever");
  for (auto &o : objs) { sim_eval (); SIM_CHECK ("object:not-finalised", o->finalized == 1, "object %d finalised %d times after its last reference went", o->id, o->finalized); }
  for (auto w : weak)
    {
      SIM_CHECK ("weak:dangling", shim_weak_get (w) == NULL, "weak reference to a finalised object is not empty");
      shim_weak_clear (w);
    }
  leak_end ("C07");
}

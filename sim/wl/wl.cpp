#include "wl.h"
#include <sys/stat.h>
int wl_objects_alive;
static void obj_gone (gpointer, GObject *) { wl_objects_alive--; }
GQuark wl_quark (void) { return g_quark_from_static_string ("wl-error"); }
GError *val_error (int id) { return g_error_new (wl_quark (), id, "error %d", id); }
GObject *val_object (int id)
{
  GObject *o = (GObject *) g_object_new (G_TYPE_OBJECT, NULL);
  g_object_set_data (o, "id", GINT_TO_POINTER (id));
  g_object_weak_ref (o, obj_gone, NULL); wl_objects_alive++;
  return o;
}
struct Box { unsigned magic; int id; };
gpointer val_box (int id) { Box *b = (Box *) g_malloc (sizeof (Box)); b->magic = 0xB0CCED; b->id = id; wl_objects_alive++; return b; }
int val_box_id (gconstpointer p) { const Box *b = (const Box *) p; if (!b) return -1; if (b->magic != 0xB0CCED) sim_violation ("value:released", "a boxed value is used after it was released"); return b->id; }
static gpointer box_copy (gpointer p) { return val_box (val_box_id (p)); }
static void box_free (gpointer p) { val_box_id (p); ((Box *) p)->magic = 0; wl_objects_alive--; g_free (p); }
GType val_box_type (void) { static GType t; if (!t) t = g_boxed_type_register_static ("SimBox", box_copy, box_free); return t; }
GType val_enum_type (void) { static GType t; static const GEnumValue v[] = { { 0, "zero", "zero" }, { 0, NULL, NULL } }; if (!t) t = g_enum_register_static ("SimEnumV", v); return t; }
GType val_flags_type (void) { static GType t; static const GFlagsValue v[] = { { 1, "one", "one" }, { 0, NULL, NULL } }; if (!t) t = g_flags_register_static ("SimFlagsV", v); return t; }
bool val_gvalue (Val v, GValue *g)
{
  switch (v.kind)
    {
    case K_POINTER: g_value_init (g, G_TYPE_POINTER); g_value_set_pointer (g, GINT_TO_POINTER (v.id * 16)); return true;
    case K_BOXED: g_value_init (g, val_box_type ()); g_value_take_boxed (g, val_box (v.id)); return true;
    case K_ENUM: g_value_init (g, val_enum_type ()); g_value_set_enum (g, v.id); return true;
    case K_FLAGS: g_value_init (g, val_flags_type ()); g_value_set_flags (g, v.id); return true;
    case K_DEX: { g_value_init (g, dex_object_get_type ()); DexObject *o = (DexObject *) dex_future_new_for_int (v.id); if (v.id & 1) dex_value_take_object (g, o); else { dex_value_set_object (g, o); dex_unref (o); } return true; }
    default: return false;
    }
}
std::string error_repr (const GError *e) { return std::string ("err:") + g_quark_to_string (e->domain) + ":" + std::to_string (e->code) + ":" + (e->message ? e->message : "(null)"); }
std::string err_key (const std::string &s)
{
  size_t a = s.find (':'); if (a == std::string::npos) return s;
  size_t b = s.find (':', a + 1); if (b == std::string::npos) return s;
  size_t c = s.find (':', b + 1); return s.substr (0, c);
}
std::string gvalue_repr (const GValue *v)
{
  GType t = G_VALUE_TYPE (v);
  if (t == G_TYPE_INVALID) return "invalid-value";
  std::string n = g_type_name (t);
  if (G_VALUE_HOLDS_INT (v)) return n + ":" + std::to_string (g_value_get_int (v));
  if (G_VALUE_HOLDS_UINT (v)) return n + ":" + std::to_string (g_value_get_uint (v));
  if (G_VALUE_HOLDS_INT64 (v)) return n + ":" + std::to_string (g_value_get_int64 (v));
  if (G_VALUE_HOLDS_UINT64 (v)) return n + ":" + std::to_string (g_value_get_uint64 (v));
  if (G_VALUE_HOLDS_LONG (v)) return n + ":" + std::to_string (g_value_get_long (v));
  if (G_VALUE_HOLDS_ULONG (v)) return n + ":" + std::to_string (g_value_get_ulong (v));
  if (G_VALUE_HOLDS_BOOLEAN (v)) return n + ":" + std::to_string (g_value_get_boolean (v));
  if (G_VALUE_HOLDS_DOUBLE (v)) return n + ":" + std::to_string (g_value_get_double (v));
  if (G_VALUE_HOLDS_FLOAT (v)) return n + ":" + std::to_string (g_value_get_float (v));
  if (G_VALUE_HOLDS_STRING (v)) return n + ":" + (g_value_get_string (v) ? g_value_get_string (v) : "(null)");
  if (G_VALUE_HOLDS_VARIANT (v)) { GVariant *x = g_value_get_variant (v); char *s = x ? g_variant_print (x, TRUE) : g_strdup ("(null)"); n += std::string (":") + s; g_free (s); return n; }
  if (G_VALUE_HOLDS_OBJECT (v)) { GObject *o = (GObject *) g_value_get_object (v); return n + ":" + (o ? std::to_string (GPOINTER_TO_INT (g_object_get_data (o, "id"))) : "(null)"); }
  if (G_VALUE_HOLDS (v, val_box_type ())) return n + ":" + std::to_string (val_box_id (g_value_get_boxed (v)));
  if (G_VALUE_HOLDS_ENUM (v)) return n + ":" + std::to_string (g_value_get_enum (v));
  if (G_VALUE_HOLDS_FLAGS (v)) return n + ":" + std::to_string (g_value_get_flags (v));
  if (G_VALUE_HOLDS (v, dex_object_get_type ())) { DexObject *o = dex_value_get_object (v); return n + ":" + (o ? outcome ((DexFuture *) o) : "(null)"); }
  if (G_VALUE_HOLDS_POINTER (v)) return n + ":" + std::to_string ((uintptr_t) g_value_get_pointer (v));
  return n + ":?";
}
std::string val_repr (Val v)
{
  std::string id = std::to_string (v.id);
  switch (v.kind)
    {
    case K_INT: return "gint:" + id;
    case K_UINT: return "guint:" + id;
    case K_INT64: return "gint64:" + std::to_string ((int64_t) v.id << 33);
    case K_UINT64: return "guint64:" + std::to_string ((uint64_t) v.id << 34);
    case K_DOUBLE: return "gdouble:" + std::to_string (v.id + 0.25);
    case K_FLOAT: return "gfloat:" + std::to_string (v.id + 0.5f);
    case K_STRING: return "gchararray:string " + id;
    case K_OBJECT: return "GObject:" + id;
    case K_VARIANT: return "GVariant:" + std::string ("('v") + id + "', " + id + ")";
    case K_BOOL: return "gboolean:" + std::to_string (v.id & 1);
    case K_LONG: return "glong:" + std::to_string ((long) v.id << 35);
    case K_POINTER: return "gpointer:" + std::to_string (v.id * 16);
    case K_BOXED: return "SimBox:" + id;
    case K_ENUM: return "SimEnumV:" + id;
    case K_FLAGS: return "SimFlagsV:" + id;
    case K_DEX: return "DexObject:gint:" + id;
    case K_ULONG: return "gulong:" + std::to_string ((long) v.id << 36);
    default: return "err:wl-error:" + id + ":error " + id;
    }
}
GVariant *val_variant (int id) { char b[32]; snprintf (b, sizeof b, "v%d", id); return g_variant_new ("(si)", b, id); }
void val_resolve (DexPromise *p, Val v)
{
  switch (v.kind)
    {
    case K_INT: dex_promise_resolve_int (p, v.id); break;
    case K_UINT: dex_promise_resolve_uint (p, v.id); break;
    case K_INT64: dex_promise_resolve_int64 (p, (int64_t) v.id << 33); break;
    case K_UINT64: dex_promise_resolve_uint64 (p, (uint64_t) v.id << 34); break;
    case K_DOUBLE: dex_promise_resolve_double (p, v.id + 0.25); break;
    case K_FLOAT: dex_promise_resolve_float (p, v.id + 0.5f); break;
    case K_STRING: dex_promise_resolve_string (p, g_strdup_printf ("string %d", v.id)); break;
    case K_OBJECT: dex_promise_resolve_object (p, val_object (v.id)); break;
    case K_VARIANT: dex_promise_resolve_variant (p, val_variant (v.id)); break;
    case K_BOOL: dex_promise_resolve_boolean (p, v.id & 1); break;
    case K_LONG: dex_promise_resolve_long (p, (long) v.id << 35); break;
    case K_ULONG: dex_promise_resolve_ulong (p, (long) v.id << 36); break;
    default: { GValue g = G_VALUE_INIT; if (val_gvalue (v, &g)) { dex_promise_resolve (p, &g); g_value_unset (&g); } else dex_promise_reject (p, val_error (v.id)); }
    }
}
DexFuture *val_future (Val v)
{
  switch (v.kind)
    {
    case K_INT: return dex_future_new_for_int (v.id);
    case K_UINT: return dex_future_new_for_uint (v.id);
    case K_INT64: return dex_future_new_for_int64 ((int64_t) v.id << 33);
    case K_UINT64: return dex_future_new_for_uint64 ((uint64_t) v.id << 34);
    case K_DOUBLE: return dex_future_new_for_double (v.id + 0.25);
    case K_FLOAT: return dex_future_new_for_float (v.id + 0.5f);
    case K_STRING: { char b[40]; snprintf (b, sizeof b, "string %d", v.id); if (v.id & 1) return dex_future_new_take_string (g_strdup (b)); return dex_future_new_for_string (b); }
    case K_OBJECT: if (v.id & 1) return dex_future_new_take_object (val_object (v.id)); { GObject *o = val_object (v.id); DexFuture *f = dex_future_new_for_object (o); g_object_unref (o); return f; }
    case K_POINTER: return dex_future_new_for_pointer (GINT_TO_POINTER (v.id * 16));
    case K_BOXED: return dex_future_new_take_boxed (val_box_type (), val_box (v.id));
    case K_ENUM: case K_FLAGS: case K_DEX: { GValue g = G_VALUE_INIT; val_gvalue (v, &g); DexFuture *f = dex_future_new_for_value (&g); g_value_unset (&g); return f; }
    case K_VARIANT: return dex_future_new_take_variant (val_variant (v.id));
    case K_BOOL: return dex_future_new_for_boolean (v.id & 1);
    case K_LONG: { GValue g = G_VALUE_INIT; g_value_init (&g, G_TYPE_LONG); g_value_set_long (&g, (long) v.id << 35); return dex_future_new_for_value (&g); }
    case K_ULONG: { GValue g = G_VALUE_INIT; g_value_init (&g, G_TYPE_ULONG); g_value_set_ulong (&g, (long) v.id << 36); return dex_future_new_for_value (&g); }
    default: return v.id & 1 ? dex_future_new_for_error (val_error (v.id)) : dex_future_new_reject (wl_quark (), v.id, "error %d", v.id);
    }
}
std::string outcome (DexFuture *f)
{
  if (dex_future_get_status (f) == DEX_FUTURE_STATUS_PENDING) return "pending";
  GError *e = NULL; const GValue *v = dex_future_get_value (f, &e);
  return outcome_of (v, e);
}
DexFuture *cb_call (DexFuture *f, gpointer data)
{
  Cb *c = (Cb *) data;
  if (c->freed) sim_violation ("callback:after-data-released", "callback %d called after its data was released", c->id);
  c->calls++; c->tid = sim_self (); c->thread = g_thread_self (); c->seq = sim_seq (); c->got = outcome (f);
  return c->fn ? c->fn (f) : NULL;
}
void cb_free (gpointer data)
{
  Cb *c = (Cb *) data;
  c->freed++;
  if (c->freed > 1) sim_violation ("callback:data-released-twice", "data of callback %d released %d times", c->id, c->freed);
  c->fn = nullptr;   // with whatever it keeps alive
}
static void leak_rings (const char *what);
static bool leak_scan;
void leak_end (const char *what)
{
  leak_rings (what);
  char b[400]; int n = sim_track_live (b, sizeof b);
  sim_eval ();
  SIM_CHECK ("leak:objects", n == 0, "%s: %d objects still alive after everything was dropped: %s", what, n, b);
  n = sim_made_left ('s'); SIM_CHECK ("leak:sources", n == 0, "%s: %d event sources of libdex still exist after everything was dropped", what, n);
  n = sim_made_left ('c'); SIM_CHECK ("leak:contexts", n == 0, "%s: %d main contexts of libdex still exist after everything was dropped", what, n);
  if (!leak_scan) return;
  n = sim_leaks (b, sizeof b);
  SIM_CHECK ("leak:memory", n == 0, "%s: nothing refers to %d blocks of memory that were never released: %s", what, n, b);
}
void calm_and_settle () { sim_calm (); sim_quiesce (); }
void pool_destroy (DexScheduler *pool) { dex_unref (pool); }
DexFuture *block_new (int kind, DexFuture *f, Cb *cb)
{
  switch (kind)
    {
    case 0: return dex_future_then (f, cb_call, cb, cb_free);
    case 1: return dex_future_catch (f, cb_call, cb, cb_free);
    case 2: return dex_future_finally (f, cb_call, cb, cb_free);
    case 3: return dex_future_then_loop (f, cb_call, cb, cb_free);
    case 4: return dex_future_catch_loop (f, cb_call, cb, cb_free);
    default: return dex_future_finally_loop (f, cb_call, cb, cb_free);
    }
}
DexFuture *set_new (int kind, std::vector<DexFuture *> m)
{
  size_t n = m.size ();
  if (n <= 3 && (m[0] != NULL) && kind < 4 && (((uintptr_t) m[0] >> 5) & 1))
    {
      DexFuture *a = fref (m[0]), *b = n > 1 ? fref (m[1]) : NULL, *c = n > 2 ? fref (m[2]) : NULL;
      switch (kind)
        {
        case 0: return dex_future_all (a, b, c, NULL);
        case 1: return dex_future_first (a, b, c, NULL);
        case 2: return dex_future_any (a, b, c, NULL);
        default: return dex_future_all_race (a, b, c, NULL);
        }
    }
  if (n <= 24 && (((uintptr_t) m[0] >> 5) & 1))
    {
      DexFuture *x[25] = { NULL }; for (size_t i = 0; i < n; i++) x[i] = fref (m[i]);
#define X4(i) x[i], x[i + 1], x[i + 2], x[i + 3]
#define XS X4 (0), X4 (4), X4 (8), X4 (12), X4 (16), X4 (20), NULL
      switch (kind)
        {
        case 0: return dex_future_all (XS);
        case 1: return dex_future_first (XS);
        case 2: return dex_future_any (XS);
        default: return dex_future_all_race (XS);
        }
    }
  switch (kind)
    {
    case 0: return dex_future_allv (m.data (), n);
    case 1: return dex_future_firstv (m.data (), n);
    case 2: return dex_future_anyv (m.data (), n);
    default: return dex_future_all_racev (m.data (), n);
    }
}
extern "C" int sim_ring_count (void);
static int rings0, fds0;
// only those that libdex and GLib make: event descriptors, which have no file type
static int fds_open (void) { int n = 0; struct stat st; for (int i = 0; i < 256; i++) n += fstat (i, &st) == 0 && !(st.st_mode & S_IFMT); return n; }
void leak_begin () { leak_scan = sim_choose (3) == 0; sim_quiesce (); sim_track_mark (); sim_leak_mark (); sim_made_mark (); rings0 = sim_ring_count (); fds0 = fds_open (); }
static void leak_rings (const char *what) { int n = sim_ring_count (); SIM_CHECK ("leak:rings", n <= rings0, "%s: %d I/O rings are still set up after everything was dropped, there were %d before", what, n, rings0); n = fds_open (); SIM_CHECK ("leak:descriptors", n <= fds0, "%s: %d descriptors are open after everything was dropped, there were %d before", what, n, fds0); }

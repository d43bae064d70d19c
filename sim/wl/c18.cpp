// C18: DexAsyncPair and the GIO wrappers over scripted asynchronous operations. The operations are GIO vfuncs of stand-in
// streams, files, enumerators and resolvers (GIO's own async/finish layer, GTask and the main contexts are real), and
// link-level stand-ins for D-Bus, sockets and subprocesses.
#include "wl.h"
#include <gio/gunixfdlist.h>
extern "C" {
#include <dex-async-pair.h>
#include <dex-gio.h>
}
#pragma GCC diagnostic ignored "-Wcast-function-type"

// ---- operations ----------------------------------------------------------------------------------------------
enum Api {
  A_PAIR, A_READ, A_READ_BYTES, A_SKIP, A_IN_CLOSE, A_WRITE, A_WRITE_BYTES, A_SPLICE, A_OUT_CLOSE, A_IO_CLOSE,
  A_FILE_READ, A_FILE_REPLACE, A_QUERY_INFO, A_MKDIR, A_ENUMERATE, A_COPY, A_LOAD, A_EXISTS, A_NEXT_FILES, A_LOOKUP,
  A_CALL, A_CALL_FD, A_MESSAGE, A_BUS, A_WAIT_CHECK, A_ACCEPT, A_CONNECT, A_N
};
static const char *api_name[] = { "pair", "read", "read_bytes", "skip", "in_close", "write", "write_bytes", "splice", "out_close", "io_close",
  "file_read", "file_replace", "query_info", "mkdir", "enumerate", "copy", "load", "exists", "next_files", "lookup",
  "call", "call_fd", "message", "bus", "wait_check", "accept", "connect" };
enum How { H_NOW, H_IDLE, H_THREAD, H_CANCEL };
struct Op {
  int id, api; bool fail = false, no_source = false, null_instance = false, react = false; int how = 0; int64_t delay = 0, n = 0, off = 0; int type = 0, prio = 0;
  int where = 0, cons = 0, by = -1, drop_by = -1; bool no_cancel = false, keep = false;
  // the operation
  bool begun = false, ret = false, wanted = false, finished = false, called_back = false; int finishes = 0; GTask *task = NULL; std::string fin;
  GCancellable *c = NULL; gulong h = 0; bool cancelled = false; GSource *later = NULL; void *buf = NULL; bool in_complete = false;
  // the future
  DexFuture *f = NULL, *dep = NULL; Cb cb; bool made = false, dep_dropping = false, dep_definite = false, awaited = false; int src_gone = 0; GObject *src = NULL, *other = NULL;
  std::string bytes;
};
static std::vector<std::unique_ptr<Op>> OPS;
static Op *cur_op[256];                      // operation being started on each thread
static int boxes_alive, cancellables_alive, sources_alive;
static void dec (gpointer p, GObject *) { (*(int *) p)--; }
static void src_gone (gpointer p, GObject *) { ((Op *) p)->src_gone++; sources_alive--; }
struct Box { int id; };
static gpointer box_copy (gpointer b) { boxes_alive++; return new Box (*(Box *) b); }
static void box_free (gpointer b) { boxes_alive--; delete (Box *) b; }
static GType box_type () { static GType t; if (!t) t = g_boxed_type_register_static ("WlBox", box_copy, box_free); return t; }
static GType flags_type () { static GType t; static const GFlagsValue v[] = { { 1, "A", "a" }, { 2, "B", "b" }, { 4, "C", "c" }, { 8, "D", "d" }, { 0, NULL, NULL } }; if (!t) t = g_flags_register_static ("WlFlags", v); return t; }
static GType enum_type () { static GType t; static const GEnumValue v[] = { { 0, "A", "a" }, { 1, "B", "b" }, { 2, "C", "c" }, { 0, NULL, NULL } }; if (!t) t = g_enum_register_static ("WlEnum", v); return t; }

static void op_disconnect (Op *o)
{
  gulong h = o->h; o->h = 0;
  if (h) g_signal_handler_disconnect (o->c, h);
  if (o->later) { GSource *s = o->later; o->later = NULL; g_source_destroy (s); g_source_unref (s); }
}
static void obj_free (gpointer o) { g_object_unref (o); }
static GObject *mkobj (Op *o, int i = 0);
// the operation calls back: at most once
static void op_complete (Op *o, bool cancelled)
{
  if (o->ret || !o->begun) return;
  o->ret = true; o->cancelled = cancelled;
  if (!o->in_complete) op_disconnect (o);
  GTask *t = o->task; o->task = NULL;
  if (cancelled) g_task_return_new_error (t, G_IO_ERROR, G_IO_ERROR_CANCELLED, "operation %d noticed the cancellation", o->id);
  else if (o->fail) g_task_return_error (t, val_error (o->id));
  else switch (o->api)
    {
    case A_PAIR:
      switch (o->type) {
        case 0: g_task_return_boolean (t, o->id & 1); break;
        case 7: g_task_return_pointer (t, g_strdup_printf ("string %d", o->id), g_free); break;
        case 8: g_task_return_pointer (t, GINT_TO_POINTER (o->id + 4096), NULL); break;
        case 9: g_task_return_pointer (t, val_object (o->id), obj_free); break;
        case 12: boxes_alive++; g_task_return_pointer (t, new Box { o->id }, box_free); break;
        case 13: boxes_alive++; g_task_return_pointer (t, new Box { o->id }, box_free); break;
        default: g_task_return_int (t, o->n);
      } break;
    case A_READ: case A_READ_BYTES: memcpy (o->buf, o->bytes.data (), o->n); g_task_return_int (t, o->n); break;
    case A_SKIP: case A_WRITE: case A_WRITE_BYTES: case A_SPLICE: g_task_return_int (t, o->n); break;
    case A_IN_CLOSE: case A_OUT_CLOSE: case A_IO_CLOSE: case A_MKDIR: case A_COPY: case A_WAIT_CHECK: g_task_return_boolean (t, TRUE); break;
    case A_NEXT_FILES: case A_LOOKUP: { GList *l = NULL; for (int i = 0; i < o->n; i++) l = g_list_append (l, mkobj (o, i)); g_task_return_pointer (t, l, NULL); } break;
    case A_CALL: case A_CALL_FD: g_task_return_pointer (t, g_variant_ref_sink (g_variant_new ("(i)", o->id)), (GDestroyNotify) g_variant_unref); break;
    default: g_task_return_pointer (t, mkobj (o), obj_free);
    }
  g_object_unref (t);
}
static void on_cancelled (GCancellable *, gpointer d) { Op *o = (Op *) d; o->in_complete = true; op_complete (o, true); o->in_complete = false; }
static gboolean on_later (gpointer d) { op_complete ((Op *) d, false); return G_SOURCE_REMOVE; }
static void task_gone (gpointer p, GObject *) { ((Op *) p)->called_back = true; }
static void op_begin (Op *o, gpointer source, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer data)
{
  SIM_CHECK ("op:started-twice", !o->begun, "operation %d (%s) was started twice", o->id, api_name[o->api]);
  SIM_CHECK ("op:no-cancellable", c != NULL, "operation %d (%s) was given no cancellable", o->id, api_name[o->api]);
  o->task = g_task_new (source, c, cb, data); g_task_set_check_cancellable (o->task, FALSE); g_task_set_task_data (o->task, o, NULL);
  g_object_weak_ref (G_OBJECT (o->task), task_gone, o);
  o->c = c; g_object_weak_ref (G_OBJECT (c), dec, &cancellables_alive); cancellables_alive++;
  if (o->react) o->h = g_signal_connect (c, "cancelled", G_CALLBACK (on_cancelled), o);
  o->begun = true;
  if (o->how == H_NOW || o->wanted) op_complete (o, false);
  else if (o->how == H_IDLE)
    {
      GSource *s = g_timeout_source_new (o->delay / 1000);
      g_source_set_callback (s, on_later, o, NULL); o->later = g_source_ref (s); g_source_attach (s, g_task_get_context (o->task)); g_source_unref (s);
    }
}
static std::string op_error (Op *o) { return o->cancelled ? "err:g-io-error-quark:19:operation " + std::to_string (o->id) + " noticed the cancellation" : val_repr (Val { K_ERROR, o->id }); }
// the finish function of the operation
static Op *op_finish (GAsyncResult *r, gpointer instance, const char *ok)
{
  Op *o = (Op *) g_task_get_task_data (G_TASK (r));
  o->finishes++; sim_eval ();
  SIM_CHECK ("op:finished-twice", o->finishes == 1, "the result of operation %d (%s) was fetched %d times", o->id, api_name[o->api], o->finishes);
  SIM_CHECK ("op:finished-early", o->ret, "the result of operation %d (%s) was fetched before it called back", o->id, api_name[o->api]);
  SIM_CHECK ("op:released-early", !o->src_gone, "the object operation %d (%s) works on was released before its end", o->id, api_name[o->api]);
  SIM_CHECK ("op:instance", instance == (gpointer) o->src, "the finish function of operation %d (%s) was given another object", o->id, api_name[o->api]);
  o->fin = o->cancelled || o->fail ? op_error (o) : ok;
  return o;
}
static bool op_ok (Op *o) { return !o->cancelled && !o->fail; }
static std::string ok_repr (Op *o)
{
  std::string n = std::to_string (o->n), id = std::to_string (o->id);
  switch (o->api)
    {
    case A_PAIR:
      switch (o->type)
        {
        case 0: return "gboolean:" + std::to_string (o->id & 1); case 1: return "gint:" + n; case 2: return "guint:" + n; case 3: return "gint64:" + n; case 4: return "guint64:" + n;
        case 5: return "glong:" + n; case 6: return "gulong:" + n; case 7: return "gchararray:string " + id; case 8: return "gpointer:" + std::to_string (o->id + 4096);
        case 9: return "GObject:" + id; case 10: return "WlEnum:" + n; case 11: return "WlFlags:" + n; case 12: return "WlBox:" + id; default: return "unsupported";
        }
    case A_READ: case A_SKIP: case A_WRITE: case A_WRITE_BYTES: case A_SPLICE: return "gint64:" + n;
    case A_READ_BYTES: return "GBytes:" + o->bytes.substr (0, o->n);
    case A_LOAD: return "GBytes:" + o->bytes.substr (o->off > 1 ? 1 : 0);   // not used
    case A_IN_CLOSE: case A_OUT_CLOSE: case A_IO_CLOSE: case A_MKDIR: case A_COPY: case A_WAIT_CHECK: case A_EXISTS: return "gboolean:1";
    case A_NEXT_FILES: case A_LOOKUP: { std::string s = o->api == A_LOOKUP ? "DexInetAddressList" : "DexFileInfoList"; for (int i = 0; i < o->n; i++) s += ":" + id; return s; }
    case A_CALL: case A_CALL_FD: return "GVariant:(" + id + ",)";
    case A_ACCEPT: case A_CONNECT: return "GObject:" + id;
    default: return "object:" + id;
    }
}
static std::string repr18 (const GValue *v)
{
  GType t = G_VALUE_TYPE (v);
  if (t == box_type ()) { Box *b = (Box *) g_value_get_boxed (v); return std::string ("WlBox:") + (b ? std::to_string (b->id) : "null"); }
  if (t == flags_type ()) return "WlFlags:" + std::to_string (g_value_get_flags (v));
  if (t == enum_type ()) return "WlEnum:" + std::to_string (g_value_get_enum (v));
  if (t == G_TYPE_BYTES) { gsize n; const char *d = (const char *) g_bytes_get_data ((GBytes *) g_value_get_boxed (v), &n); return "GBytes:" + std::string (d ? d : "", n); }
  if (!strcmp (g_type_name (t), "DexFileInfoList") || !strcmp (g_type_name (t), "DexInetAddressList"))
    { std::string s = g_type_name (t); for (GList *l = (GList *) g_value_get_boxed (v); l; l = l->next) s += ":" + std::to_string (GPOINTER_TO_INT (g_object_get_data (G_OBJECT (l->data), "id"))); return s; }
  if (t != G_TYPE_OBJECT && G_VALUE_HOLDS_OBJECT (v)) { GObject *o = (GObject *) g_value_get_object (v); return "object:" + (o ? std::to_string (GPOINTER_TO_INT (g_object_get_data (o, "id"))) : "null"); }
  return gvalue_repr (v);
}
static std::string outcome18 (DexFuture *f, Op *o = NULL)
{
  if (dex_future_get_status (f) == DEX_FUTURE_STATUS_PENDING) return "pending";
  if (o && o->api == A_CALL_FD)    // the result is in the members
    { std::string all = outcome18 (f); SIM_CHECK ("op:outcome", is_error (all) ? !op_ok (o) : op_ok (o), "call %d gave %s", o->id, all.c_str ()); f = dex_future_set_get_future_at (DEX_FUTURE_SET (f), 0); }
  GError *e = NULL; const GValue *v = dex_future_get_value (f, &e);
  std::string s = v ? repr18 (v) : e ? error_repr (e) : "nothing"; g_clear_error (&e); return s;
}

// ---- stand-in objects -----------------------------------------------------------------------------------------
static Op *op_of (gpointer obj) { Op *o = (Op *) g_object_get_data (G_OBJECT (obj), "op"); if (!o) sim_violation ("op:instance", "an operation was started on an unexpected object"); return o; }
static void arg_check (Op *o, int64_t want, int64_t got, const char *what) { SIM_CHECK ("op:argument", want == got, "operation %d (%s) was given %s %lld instead of %lld", o->id, api_name[o->api], what, (long long) got, (long long) want); }

typedef struct { GFileInputStream p; } SimFIn; typedef GFileInputStreamClass SimFInClass;
typedef struct { GFileOutputStream p; } SimFOut; typedef GFileOutputStreamClass SimFOutClass;
typedef struct { GIOStream p; } SimIoS; typedef GIOStreamClass SimIoSClass;
typedef struct { GFileEnumerator p; } SimEnum; typedef GFileEnumeratorClass SimEnumClass;
typedef struct { GResolver p; } SimRes; typedef GResolverClass SimResClass;
typedef struct { GObject p; } SimFile; typedef GObjectClass SimFileClass;
G_DEFINE_TYPE (SimFIn, sim_fin, G_TYPE_FILE_INPUT_STREAM)
G_DEFINE_TYPE (SimFOut, sim_fout, G_TYPE_FILE_OUTPUT_STREAM)
G_DEFINE_TYPE (SimIoS, sim_ios, G_TYPE_IO_STREAM)
G_DEFINE_TYPE (SimEnum, sim_enum, G_TYPE_FILE_ENUMERATOR)
G_DEFINE_TYPE (SimRes, sim_res, G_TYPE_RESOLVER)
static void sim_file_iface (GFileIface *i);
G_DEFINE_TYPE_WITH_CODE (SimFile, sim_file, G_TYPE_OBJECT, G_IMPLEMENT_INTERFACE (G_TYPE_FILE, sim_file_iface))

// one step of a loading operation made of many
struct Load { int steps = 0, fail_at = -1; size_t pos = 0; bool failed = false; };
static std::map<Op *, Load> LOADS;
struct LoadStep { Op *o; GTask *t; void *buf; size_t n; int what; };
static gboolean load_step (gpointer d)
{
  LoadStep *s = (LoadStep *) d; Load &l = LOADS[s->o]; int step = l.steps++;
  if (step == l.fail_at && s->what != 2) { l.failed = true; g_task_return_error (s->t, val_error (s->o->id)); }
  else if (s->what == 0) { GObject *in = (GObject *) g_object_new (sim_fin_get_type (), NULL); g_object_set_data (in, "op", s->o); g_task_return_pointer (s->t, in, obj_free); }
  else if (s->what == 1) { size_t k = std::min ({ s->n, s->o->bytes.size () - l.pos, (size_t) std::max<int64_t> (1, s->o->n) }); memcpy (s->buf, s->o->bytes.data () + l.pos, k); l.pos += k; g_task_return_int (s->t, k); }
  else g_task_return_pointer (s->t, g_file_info_new (), obj_free);
  g_object_unref (s->t); delete s;
  return G_SOURCE_REMOVE;
}
static void load_later (Op *o, gpointer src, GCancellable *c, GAsyncReadyCallback cb, gpointer data, int what, void *buf, size_t n)
{
  if (!o->begun) { o->begun = true; o->c = c; g_object_weak_ref (G_OBJECT (c), dec, &cancellables_alive); cancellables_alive++; }
  GTask *t = g_task_new (src, c, cb, data); g_task_set_check_cancellable (t, o->react);
  LoadStep *s = new LoadStep { o, t, buf, n, what };
  if (o->how == H_NOW) load_step (s);
  else { GSource *x = g_timeout_source_new (o->delay / 1000); g_source_set_callback (x, load_step, s, NULL); g_source_attach (x, g_task_get_context (t)); g_source_unref (x); }
}

static void in_read_async (GInputStream *s, void *buf, gsize n, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d)
{
  Op *o = op_of (s);
  if (o->api == A_LOAD) return load_later (o, s, c, cb, d, 1, buf, n);
  o->buf = buf; arg_check (o, o->bytes.size (), n, "a count of"); arg_check (o, o->prio, prio, "priority");
  op_begin (o, s, prio, c, cb, d);
}
static gssize in_int_finish (GInputStream *s, GAsyncResult *r, GError **e)
{
  if (g_task_get_task_data (G_TASK (r))) op_finish (r, s, ok_repr (op_of (s)).c_str ());
  return g_task_propagate_int (G_TASK (r), e);
}
static void in_skip_async (GInputStream *s, gsize n, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { Op *o = op_of (s); arg_check (o, o->bytes.size (), n, "a count of"); arg_check (o, o->prio, prio, "priority"); op_begin (o, s, prio, c, cb, d); }
static void close_async (gpointer s, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d)
{
  Op *o = (Op *) g_object_get_data (G_OBJECT (s), "op");
  if (!o || o->api == A_LOAD) { GTask *t = g_task_new (s, c, cb, d); g_task_set_check_cancellable (t, FALSE); g_task_return_boolean (t, TRUE); g_object_unref (t); return; }
  arg_check (o, o->prio, prio, "priority"); op_begin (o, s, prio, c, cb, d);
}
static gboolean close_finish (gpointer s, GAsyncResult *r, GError **e)
{
  if (g_task_get_task_data (G_TASK (r))) op_finish (r, s, "gboolean:1");
  return g_task_propagate_boolean (G_TASK (r), e);
}
static gboolean close_fn (gpointer, GCancellable *, GError **) { return TRUE; }
static void fin_qi_async (GFileInputStream *s, const char *, int, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { load_later (op_of (s), s, c, cb, d, 2, NULL, 0); }
static GFileInfo *fin_qi_finish (GFileInputStream *, GAsyncResult *r, GError **e) { return (GFileInfo *) g_task_propagate_pointer (G_TASK (r), e); }
static void sim_fin_init (SimFIn *) {}
static void sim_fin_class_init (SimFInClass *k)
{
  GInputStreamClass *c = G_INPUT_STREAM_CLASS (k);
  c->read_async = in_read_async; c->read_finish = in_int_finish; c->skip_async = in_skip_async; c->skip_finish = in_int_finish;
  c->close_async = (decltype (c->close_async)) (void *) close_async; c->close_finish = (decltype (c->close_finish)) (void *) close_finish; c->close_fn = (decltype (c->close_fn)) (void *) close_fn;
  k->query_info_async = fin_qi_async; k->query_info_finish = fin_qi_finish;
}
static void out_write_async (GOutputStream *s, const void *buf, gsize n, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d)
{
  Op *o = op_of (s); arg_check (o, o->bytes.size (), n, "a count of"); arg_check (o, o->prio, prio, "priority");
  SIM_CHECK ("op:argument", n == 0 || !memcmp (buf, o->bytes.data (), n), "operation %d (%s) was given other data", o->id, api_name[o->api]);
  o->buf = (void *) buf; op_begin (o, s, prio, c, cb, d);
}
static gssize out_int_finish (GOutputStream *s, GAsyncResult *r, GError **e)
{
  Op *o = op_finish (r, s, ok_repr (op_of (s)).c_str ());
  if ((o->api == A_WRITE_BYTES || o->api == A_WRITE) && o->bytes.size ())
    SIM_CHECK ("op:released-early", (sim_reuse () || !sim_ptr_freed (o->buf)) && (sim_reuse () || !memcmp (o->buf, o->bytes.data (), o->bytes.size ())), "the data operation %d (%s) writes was released before its end", o->id, api_name[o->api]);
  return g_task_propagate_int (G_TASK (r), e);
}
static void out_splice_async (GOutputStream *s, GInputStream *in, GOutputStreamSpliceFlags fl, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d)
{ Op *o = op_of (s); arg_check (o, o->prio, prio, "priority"); arg_check (o, o->off & 3, fl, "flags"); SIM_CHECK ("op:argument", op_of (in) == o, "splice of operation %d got another input", o->id); op_begin (o, s, prio, c, cb, d); }
static void sim_fout_init (SimFOut *) {}
static void sim_fout_class_init (SimFOutClass *k)
{
  GOutputStreamClass *c = G_OUTPUT_STREAM_CLASS (k);
  c->write_async = out_write_async; c->write_finish = out_int_finish; c->splice_async = out_splice_async; c->splice_finish = out_int_finish;
  c->close_async = (decltype (c->close_async)) (void *) close_async; c->close_finish = (decltype (c->close_finish)) (void *) close_finish; c->close_fn = (decltype (c->close_fn)) (void *) close_fn;
}
static void sim_ios_init (SimIoS *) {}
static void sim_ios_class_init (SimIoSClass *c)
{ c->close_async = (decltype (c->close_async)) (void *) close_async; c->close_finish = (decltype (c->close_finish)) (void *) close_finish; c->close_fn = (decltype (c->close_fn)) (void *) close_fn; }
static void ptr_begin (gpointer s, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { Op *o = op_of (s); arg_check (o, o->prio, prio, "priority"); op_begin (o, s, prio, c, cb, d); }
static gpointer ptr_finish (gpointer s, GAsyncResult *r, GError **e)
{
  Op *o = op_finish (r, s, "");
  if (op_ok (o)) o->fin = ok_repr (o);
  return g_task_propagate_pointer (G_TASK (r), e);
}
static void enum_next_async (GFileEnumerator *s, int n, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { arg_check (op_of (s), op_of (s)->bytes.size (), n, "a count of"); ptr_begin (s, prio, c, cb, d); }
static gboolean en_close_fn (GFileEnumerator *, GCancellable *, GError **) { return TRUE; }
static void sim_enum_init (SimEnum *) {}
static void sim_enum_class_init (SimEnumClass *c) { c->next_files_async = enum_next_async; c->next_files_finish = (decltype (c->next_files_finish)) (void *) ptr_finish; c->close_fn = en_close_fn; }
static void res_async (GResolver *s, const char *host, GCancellable *c, GAsyncReadyCallback cb, gpointer d)
{ Op *o = op_of (s); SIM_CHECK ("op:argument", host && o->bytes == host, "operation %d (lookup) was given another name", o->id); op_begin (o, s, 0, c, cb, d); }
static void sim_res_init (SimRes *) {}
static void sim_res_class_init (SimResClass *c) { c->lookup_by_name_async = res_async; c->lookup_by_name_finish = (decltype (c->lookup_by_name_finish)) (void *) ptr_finish; }
static void file_read_async (GFile *s, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d)
{
  Op *o = op_of (s);
  if (o->api == A_LOAD) return load_later (o, s, c, cb, d, 0, NULL, 0);
  ptr_begin (s, prio, c, cb, d);
}
static gpointer file_read_finish (gpointer s, GAsyncResult *r, GError **e) { return g_task_get_task_data (G_TASK (r)) ? ptr_finish (s, r, e) : g_task_propagate_pointer (G_TASK (r), e); }
static void file_replace_async (GFile *s, const char *etag, gboolean backup, GFileCreateFlags fl, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d)
{ Op *o = op_of (s); arg_check (o, o->off & 1, backup, "make_backup"); arg_check (o, o->off & 2, fl, "flags"); SIM_CHECK ("op:argument", etag && o->bytes == etag, "operation %d (replace) was given another etag", o->id); ptr_begin (s, prio, c, cb, d); }
static void file_qi_async (GFile *s, const char *attr, GFileQueryInfoFlags fl, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d)
{
  Op *o = op_of (s);
  if (o->api == A_QUERY_INFO || o->api == A_ENUMERATE) { arg_check (o, o->off & 1, fl, "flags"); SIM_CHECK ("op:argument", attr && o->bytes == attr, "operation %d (%s) was given other attributes", o->id, api_name[o->api]); arg_check (o, o->prio, prio, "priority"); }
  op_begin (o, s, prio, c, cb, d);
}
static void file_enum_async (GFile *s, const char *attr, GFileQueryInfoFlags fl, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { file_qi_async (s, attr, fl, prio, c, cb, d); }
static void file_mkdir_async (GFile *s, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { ptr_begin (s, prio, c, cb, d); }
static gboolean file_bool_finish (GFile *s, GAsyncResult *r, GError **e) { op_finish (r, s, "gboolean:1"); return g_task_propagate_boolean (G_TASK (r), e); }
static void file_copy_async (GFile *s, GFile *dst, GFileCopyFlags fl, int prio, GCancellable *c, GFileProgressCallback, gpointer, GAsyncReadyCallback cb, gpointer d)
{ Op *o = op_of (s); arg_check (o, o->off & 3, fl, "flags"); SIM_CHECK ("op:argument", g_object_get_data (G_OBJECT (dst), "dst") == o, "operation %d (copy) was given another destination", o->id); ptr_begin (s, prio, c, cb, d); }
static void sim_file_init (SimFile *) {}
static void sim_file_class_init (SimFileClass *) {}
static gboolean file_is_native (GFile *) { return FALSE; }
static void sim_file_iface (GFileIface *i)
{
  i->is_native = file_is_native;
  i->read_async = file_read_async; i->read_finish = (decltype (i->read_finish)) (void *) file_read_finish;
  i->replace_async = file_replace_async; i->replace_finish = (decltype (i->replace_finish)) (void *) ptr_finish;
  i->query_info_async = file_qi_async; i->query_info_finish = (decltype (i->query_info_finish)) (void *) ptr_finish;
  i->make_directory_async = file_mkdir_async; i->make_directory_finish = file_bool_finish;
  i->enumerate_children_async = file_enum_async; i->enumerate_children_finish = (decltype (i->enumerate_children_finish)) (void *) ptr_finish;
  i->copy_async = file_copy_async; i->copy_finish = file_bool_finish;
}
static GType result_type (int api)
{
  switch (api)
    {
    case A_FILE_READ: return sim_fin_get_type (); case A_FILE_REPLACE: return sim_fout_get_type (); case A_QUERY_INFO: case A_NEXT_FILES: case A_EXISTS: return G_TYPE_FILE_INFO;
    case A_ENUMERATE: return sim_enum_get_type (); case A_MESSAGE: return G_TYPE_DBUS_MESSAGE; case A_BUS: return G_TYPE_DBUS_CONNECTION;
    default: return G_TYPE_OBJECT;     // sockets and addresses: the wrapper does not look inside
    }
}
static GObject *mkobj (Op *o, int i)
{
  guint8 ip[4] = { 10, 0, (guint8) o->id, (guint8) i };
  GObject *x = o->api == A_LOOKUP ? (GObject *) g_inet_address_new_from_bytes (ip, G_SOCKET_FAMILY_IPV4) : (GObject *) g_object_new (result_type (o->api), NULL);
  g_object_set_data (x, "id", GINT_TO_POINTER (o->id)); g_object_weak_ref (x, dec, &wl_objects_alive); wl_objects_alive++;
  return x;
}

// ---- stand-ins for D-Bus, sockets and subprocesses ---------------------------------------------------------------
static Op *op_cur (int api) { Op *o = cur_op[sim_self ()]; SIM_CHECK ("op:instance", o && o->api == api, "%s was called by another wrapper", api_name[api]); return o; }
#define SRC(x) SIM_CHECK ("op:instance", (gpointer) (x) == (gpointer) o->src, "operation %d (%s) was started on another object", o->id, api_name[o->api])
extern "C" {
void g_dbus_connection_call (GDBusConnection *x, const char *bus, const char *path, const char *iface, const char *method, GVariant *params, const GVariantType *rt, GDBusCallFlags fl, int timeout, GCancellable *c, GAsyncReadyCallback cb, gpointer d)
{
  Op *o = op_cur (A_CALL); SRC (x); arg_check (o, o->prio, timeout, "a timeout of"); arg_check (o, o->off & 3, fl, "flags");
  SIM_CHECK ("op:argument", !strcmp (bus, "b.us") && !strcmp (path, "/p") && !strcmp (iface, "i.face") && o->bytes == method && rt == G_VARIANT_TYPE_TUPLE, "the arguments of call %d were mixed up", o->id);
  { gint32 v = 0; if (params) { g_variant_ref_sink (params); g_variant_get (params, "(i)", &v); g_variant_unref (params); } arg_check (o, o->id, v, "a parameter of"); }
  op_begin (o, x, 0, c, cb, d);
}
GVariant *g_dbus_connection_call_finish (GDBusConnection *x, GAsyncResult *r, GError **e) { return (GVariant *) ptr_finish (x, r, e); }
void g_dbus_connection_call_with_unix_fd_list (GDBusConnection *x, const char *bus, const char *path, const char *iface, const char *method, GVariant *params, const GVariantType *rt, GDBusCallFlags fl, int timeout, GUnixFDList *fds, GCancellable *c, GAsyncReadyCallback cb, gpointer d)
{
  Op *o = op_cur (A_CALL_FD); SRC (x); arg_check (o, o->prio, timeout, "a timeout of"); arg_check (o, o->off & 3, fl, "flags");
  SIM_CHECK ("op:argument", !strcmp (bus, "b.us") && !strcmp (path, "/p") && !strcmp (iface, "i.face") && o->bytes == method && rt == G_VARIANT_TYPE_TUPLE && (gpointer) fds == (gpointer) (o->id & 1 ? o->other : NULL), "the arguments of call %d were mixed up", o->id);
  { gint32 v = 0; if (params) { g_variant_ref_sink (params); g_variant_get (params, "(i)", &v); g_variant_unref (params); } arg_check (o, o->id, v, "a parameter of"); }
  op_begin (o, x, 0, c, cb, d);
}
GVariant *g_dbus_connection_call_with_unix_fd_list_finish (GDBusConnection *x, GUnixFDList **out, GAsyncResult *r, GError **e)
{
  GVariant *v = (GVariant *) ptr_finish (x, r, e);
  if (v && out) { Op *o = (Op *) g_task_get_task_data (G_TASK (r)); *out = NULL; if (o->n & 1) { *out = g_unix_fd_list_new (); g_object_set_data (G_OBJECT (*out), "id", GINT_TO_POINTER (o->id)); g_object_weak_ref (G_OBJECT (*out), dec, &wl_objects_alive); wl_objects_alive++; } }
  return v;
}
void g_dbus_connection_send_message_with_reply (GDBusConnection *x, GDBusMessage *m, GDBusSendMessageFlags fl, int timeout, volatile guint32 *serial, GCancellable *c, GAsyncReadyCallback cb, gpointer d)
{
  Op *o = op_cur (A_MESSAGE); SRC (x); arg_check (o, o->prio, timeout, "a timeout of"); arg_check (o, o->off & 3, fl, "flags"); if (serial) *serial = o->id;
  SIM_CHECK ("op:argument", g_object_get_data (G_OBJECT (m), "op") == o, "another message was sent");
  op_begin (o, x, 0, c, cb, d);
}
GDBusMessage *g_dbus_connection_send_message_with_reply_finish (GDBusConnection *x, GAsyncResult *r, GError **e) { return (GDBusMessage *) ptr_finish (x, r, e); }
void g_bus_get (GBusType t, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { Op *o = op_cur (A_BUS); arg_check (o, G_BUS_TYPE_SESSION, t, "the bus type"); op_begin (o, NULL, 0, c, cb, d); }
GDBusConnection *g_bus_get_finish (GAsyncResult *r, GError **e) { return (GDBusConnection *) ptr_finish (NULL, r, e); }
void g_subprocess_wait_check_async (GSubprocess *x, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { Op *o = op_cur (A_WAIT_CHECK); SRC (x); op_begin (o, x, 0, c, cb, d); }
gboolean g_subprocess_wait_check_finish (GSubprocess *x, GAsyncResult *r, GError **e) { return file_bool_finish ((GFile *) x, r, e); }
void g_socket_listener_accept_async (GSocketListener *x, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { Op *o = op_cur (A_ACCEPT); SRC (x); op_begin (o, x, 0, c, cb, d); }
GSocketConnection *g_socket_listener_accept_finish (GSocketListener *x, GAsyncResult *r, GObject **src, GError **e) { if (src) *src = NULL; return (GSocketConnection *) ptr_finish (x, r, e); }
void g_socket_client_connect_async (GSocketClient *x, GSocketConnectable *to, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { Op *o = op_cur (A_CONNECT); SRC (x); SIM_CHECK ("op:argument", (gpointer) to == (gpointer) o->other, "operation %d (connect) was given another address", o->id); op_begin (o, x, 0, c, cb, d); }
GSocketConnection *g_socket_client_connect_finish (GSocketClient *x, GAsyncResult *r, GError **e) { return (GSocketConnection *) ptr_finish (x, r, e); }
}

// ---- the generic pair ---------------------------------------------------------------------------------------------
static void pair_async (gpointer instance, GCancellable *c, GAsyncReadyCallback cb, gpointer d)
{
  Op *o = op_cur (A_PAIR);
  SIM_CHECK ("op:instance", instance == (gpointer) o->src, "operation %d was started on another object", o->id);
  op_begin (o, o->no_source ? NULL : instance, 0, c, cb, d);
}
template<typename T> static T pair_fin (gpointer instance, GAsyncResult *r, GError **e)
{
  Op *o = op_finish (r, instance, ""); if (op_ok (o)) o->fin = ok_repr (o);
  if constexpr (std::is_pointer<T>::value) return (T) g_task_propagate_pointer (G_TASK (r), e);
  else { if (o->type == 0) return (T) g_task_propagate_boolean (G_TASK (r), e); return (T) g_task_propagate_int (G_TASK (r), e); }
}
struct PT { gpointer finish; GType (*type) (void); };
template<GType T> static GType ty () { return T; }
static const PT ptypes[] = {
  { (gpointer) pair_fin<gboolean>, ty<G_TYPE_BOOLEAN> }, { (gpointer) pair_fin<int>, ty<G_TYPE_INT> }, { (gpointer) pair_fin<guint>, ty<G_TYPE_UINT> }, { (gpointer) pair_fin<gint64>, ty<G_TYPE_INT64> },
  { (gpointer) pair_fin<guint64>, ty<G_TYPE_UINT64> }, { (gpointer) pair_fin<glong>, ty<G_TYPE_LONG> }, { (gpointer) pair_fin<gulong>, ty<G_TYPE_ULONG> }, { (gpointer) pair_fin<char *>, ty<G_TYPE_STRING> },
  { (gpointer) pair_fin<gpointer>, ty<G_TYPE_POINTER> }, { (gpointer) pair_fin<gpointer>, ty<G_TYPE_OBJECT> }, { (gpointer) pair_fin<guint>, enum_type }, { (gpointer) pair_fin<guint>, flags_type },
  { (gpointer) pair_fin<gpointer>, box_type }, { (gpointer) pair_fin<gpointer>, ty<G_TYPE_DOUBLE> } };

// ---- running them ---------------------------------------------------------------------------------------------------
static gpointer source_new (Op *o)
{
  GType t = G_TYPE_OBJECT; GObject *x;
  switch (o->api)
    {
    case A_PAIR: if (o->null_instance) return NULL; break;
    case A_READ: case A_READ_BYTES: case A_SKIP: case A_IN_CLOSE: t = sim_fin_get_type (); break;
    case A_WRITE: case A_WRITE_BYTES: case A_SPLICE: case A_OUT_CLOSE: t = sim_fout_get_type (); break;
    case A_IO_CLOSE: t = sim_ios_get_type (); break; case A_NEXT_FILES: t = sim_enum_get_type (); break; case A_LOOKUP: t = sim_res_get_type (); break;
    case A_CALL: case A_CALL_FD: case A_MESSAGE: t = G_TYPE_DBUS_CONNECTION; break; case A_BUS: return NULL;
    case A_WAIT_CHECK: t = G_TYPE_SUBPROCESS; break; case A_ACCEPT: t = G_TYPE_SOCKET_LISTENER; break; case A_CONNECT: t = G_TYPE_SOCKET_CLIENT; break;
    default: t = sim_file_get_type ();
    }
  x = (GObject *) g_object_new (t, NULL);
  g_object_set_data (x, "op", o); g_object_weak_ref (x, src_gone, o); sources_alive++; o->src = x;
  return x;
}
static void op_look (Op *o, const std::string &got, const char *how)
{
  sim_eval ();
  if (got == "pending") return;
  if (o->api == A_LOAD)
    {
      std::string ok = "GBytes:" + o->bytes, bad = val_repr (Val { K_ERROR, o->id });
      bool canc = o->c && got.compare (0, 23, "err:g-io-error-quark:19") == 0;
      Load &l = LOADS[o];
      SIM_CHECK ("op:outcome", (got == ok && !l.failed) || (got == bad && l.failed) || (canc && o->dep_dropping), "the future of operation %d (load) gave %s (%s)", o->id, got.substr (0, 60).c_str (), how);
      return;
    }
  SIM_CHECK ("op:early", o->ret, "the future of operation %d (%s) gave %s before the operation called back (%s)", o->id, api_name[o->api], got.c_str (), how);
  if (o->api == A_PAIR)
    {
      bool canc = got == "err:g-io-error-quark:19:Operation cancelled";
      if (canc && o->dep_dropping && !o->no_cancel) { sim_probe ("pair_cancelled"); return; }
      if (o->type == 13) { SIM_CHECK ("op:outcome", is_dex_error (got, DEX_ERROR_TYPE_NOT_SUPPORTED), "operation %d of an unsupported type gave %s", o->id, got.c_str ()); return; }
    }
  SIM_CHECK ("op:unfinished", o->finishes == 1, "the future of operation %d (%s) gave %s although its result was fetched %d times (%s)", o->id, api_name[o->api], got.c_str (), o->finishes, how);
  std::string want = o->fin;
  // GIO's own layer reports the cancellation if it finds the cancellable cancelled by then
  if (got == "err:g-io-error-quark:19:Operation was cancelled" && o->dep_dropping && o->api != A_PAIR && o->api < A_CALL) return;
  if (o->api == A_EXISTS && op_ok (o)) want = "gboolean:1";
  SIM_CHECK ("op:outcome", got == want, "the future of operation %d (%s) gave %s, its finish function %s (%s)", o->id, api_name[o->api], got.c_str (), want.c_str (), how);
  if ((o->api == A_READ) && op_ok (o)) SIM_CHECK ("op:outcome", !memcmp (o->buf, o->bytes.data (), o->n), "operation %d read other bytes", o->id);
}
static std::map<Op *, std::vector<char>> BUFS;
static void op_make (Op *o)
{
  gpointer s = source_new (o); GObject *other = NULL; DexFuture *f = NULL; GFile *file = (GFile *) s;
  cur_op[sim_self ()] = o;
  switch (o->api)
    {
    case A_PAIR: { DexAsyncPairInfo info = DEX_ASYNC_PAIR_INFO ((gpointer) pair_async, ptypes[o->type].finish, ptypes[o->type].type ()); f = dex_async_pair_new (s, &info); memset (&info, 0x5a, sizeof info); break; }
    case A_READ: BUFS[o].resize (o->bytes.size () + 1); f = dex_input_stream_read (G_INPUT_STREAM (s), BUFS[o].data (), o->bytes.size (), o->prio); break;
    case A_READ_BYTES: f = dex_input_stream_read_bytes (G_INPUT_STREAM (s), o->bytes.size (), o->prio); break;
    case A_SKIP: f = dex_input_stream_skip (G_INPUT_STREAM (s), o->bytes.size (), o->prio); break;
    case A_IN_CLOSE: f = dex_input_stream_close (G_INPUT_STREAM (s), o->prio); break;
    case A_WRITE: f = dex_output_stream_write (G_OUTPUT_STREAM (s), o->bytes.data (), o->bytes.size (), o->prio); break;
    case A_WRITE_BYTES: { GBytes *b = g_bytes_new (o->bytes.data (), o->bytes.size ()); f = dex_output_stream_write_bytes (G_OUTPUT_STREAM (s), b, o->prio); g_bytes_unref (b); break; }
    case A_SPLICE: other = (GObject *) g_object_new (sim_fin_get_type (), NULL); g_object_set_data (other, "op", o); f = dex_output_stream_splice (G_OUTPUT_STREAM (s), G_INPUT_STREAM (other), (GOutputStreamSpliceFlags) (o->off & 3), o->prio); break;
    case A_OUT_CLOSE: f = dex_output_stream_close (G_OUTPUT_STREAM (s), o->prio); break;
    case A_IO_CLOSE: f = dex_io_stream_close (G_IO_STREAM (s), o->prio); break;
    case A_FILE_READ: f = dex_file_read (file, o->prio); break;
    case A_FILE_REPLACE: f = dex_file_replace (file, o->bytes.c_str (), o->off & 1, (GFileCreateFlags) (o->off & 2), o->prio); break;
    case A_QUERY_INFO: f = dex_file_query_info (file, o->bytes.c_str (), (GFileQueryInfoFlags) (o->off & 1), o->prio); break;
    case A_MKDIR: f = dex_file_make_directory (file, o->prio); break;
    case A_ENUMERATE: f = dex_file_enumerate_children (file, o->bytes.c_str (), (GFileQueryInfoFlags) (o->off & 1), o->prio); break;
    case A_COPY: other = (GObject *) g_object_new (sim_file_get_type (), NULL); g_object_set_data (other, "dst", o); f = dex_file_copy (file, G_FILE (other), (GFileCopyFlags) (o->off & 3), o->prio); break;
    case A_LOAD: f = dex_file_load_contents_bytes (file); break;
    case A_EXISTS: f = dex_file_query_exists (file); break;
    case A_NEXT_FILES: f = dex_file_enumerator_next_files (G_FILE_ENUMERATOR (s), o->bytes.size (), o->prio); break;
    case A_LOOKUP: f = dex_resolver_lookup_by_name (G_RESOLVER (s), o->bytes.c_str ()); break;
    case A_CALL: f = dex_dbus_connection_call (G_DBUS_CONNECTION (s), "b.us", "/p", "i.face", o->bytes.c_str (), g_variant_new ("(i)", o->id), G_VARIANT_TYPE_TUPLE, (GDBusCallFlags) (o->off & 3), o->prio); break;
    case A_CALL_FD: if (o->id & 1) o->other = other = (GObject *) g_unix_fd_list_new (); f = dex_dbus_connection_call_with_unix_fd_list (G_DBUS_CONNECTION (s), "b.us", "/p", "i.face", o->bytes.c_str (), g_variant_new ("(i)", o->id), G_VARIANT_TYPE_TUPLE, (GDBusCallFlags) (o->off & 3), o->prio, (GUnixFDList *) other); break;
    case A_MESSAGE: { guint32 serial = 0; other = (GObject *) g_dbus_message_new (); g_object_set_data (other, "op", o); f = dex_dbus_connection_send_message_with_reply (G_DBUS_CONNECTION (s), (GDBusMessage *) other, (GDBusSendMessageFlags) (o->off & 3), o->prio, &serial); arg_check (o, o->id, serial, "a serial of"); break; }
    case A_BUS: f = dex_bus_get (G_BUS_TYPE_SESSION); break;
    case A_WAIT_CHECK: f = dex_subprocess_wait_check (G_SUBPROCESS (s)); break;
    case A_ACCEPT: f = dex_socket_listener_accept (G_SOCKET_LISTENER (s)); break;
    case A_CONNECT: o->other = other = (GObject *) g_network_address_new ("h", 1); f = dex_socket_client_connect (G_SOCKET_CLIENT (s), G_SOCKET_CONNECTABLE (other)); break;
    }
  cur_op[sim_self ()] = NULL;
  SIM_CHECK ("op:not-started", o->begun, "operation %d (%s) was not started", o->id, api_name[o->api]);
  if (other) g_object_unref (other);
  if (s) g_object_unref (s);           // the operation keeps what it needs
  if (DEX_IS_ASYNC_PAIR (f) && o->c && o->api != A_EXISTS) SIM_CHECK ("op:cancellable", dex_async_pair_get_cancellable (DEX_ASYNC_PAIR (f)) == o->c, "the future of operation %d (%s) names another cancellable than the operation was given", o->id, api_name[o->api]);
  if (o->no_cancel) dex_async_pair_set_cancel_on_discard (DEX_ASYNC_PAIR (f), FALSE);
  o->cb.id = o->id; o->cb.fn = [o] (DexFuture *x) -> DexFuture * { op_look (o, outcome18 (x, o), "callback"); SIM_CHECK ("op:twice", o->cb.calls == 1, "the callback for operation %d ran %d times", o->id, o->cb.calls); return NULL; };
  switch (o->cons)
    {
    case 1: o->dep = dex_future_finally (fref (f), cb_call, &o->cb, cb_free); break;
    case 2: o->dep = dex_future_all (fref (f), NULL); break;
    }
  o->f = f;
  if (o->cons == 3)
    {
      GError *e = NULL; const GValue *v; DexFuture *w = fref (f); o->awaited = true;
      v = NULL; if (dex_await (fref (w), &e)) v = dex_future_get_value (w, NULL);
      std::string got = o->api == A_CALL_FD ? outcome18 (w, o) : v ? repr18 (v) : e ? error_repr (e) : "nothing"; g_clear_error (&e);
      op_look (o, got, "await"); dex_unref (w);
    }
  o->made = true; sim_wake_main ();
}
static void drop_dep (Op *o)
{
  DexFuture *d = o->dep; o->dep = NULL;
  bool before = o->api == A_LOAD ? false : !o->ret;
  o->dep_dropping = true; dex_unref (d);
  if (o->api == A_CALL_FD) dex_clear (&o->f);     // a set is a consumer itself, until it is released
  // dropped before the operation called back: the cancellable must have been cancelled, unless told not to
  if (before && !o->ret && o->c && !o->no_cancel && o->api != A_EXISTS) { SIM_CHECK ("op:not-cancelled", g_cancellable_is_cancelled (o->c), "nobody awaits operation %d (%s) any more but its cancellable is not cancelled", o->id, api_name[o->api]); sim_probe ("op_cancelled"); }
}
SIM_WORKLOAD (C18)
{
  sim_set_nprocs (2 * sim_range (1, 2)); OPS.clear (); LOADS.clear (); BUFS.clear (); boxes_alive = cancellables_alive = sources_alive = 0;
  int n = sim_range (1, 4), nth = sim_range (1, 3);
  box_type (); flags_type (); enum_type (); g_type_class_unref (g_type_class_ref (sim_fin_get_type ()));
  DexScheduler *pool = sim_chance (3, 4) ? dex_thread_pool_scheduler_new () : NULL;
  leak_begin ();
  static const int64_t delays[] = { 0, 0, 1000, 5000, 60000 };
  for (int i = 0; i < n; i++)
    {
      auto o = std::make_unique<Op> (); o->id = i + 1; o->api = sim_chance (1, 3) ? (int) A_PAIR : sim_choose (A_N); o->type = sim_choose (14);
      o->fail = sim_chance (1, 3); o->no_source = sim_chance (1, 4); o->null_instance = sim_chance (1, 5); o->react = sim_chance (1, 2); o->how = sim_choose (4);
      o->delay = delays[sim_choose (5)]; o->prio = sim_choose (5) * 10; o->off = sim_choose (4);
      int sz = sim_choose (12); if (o->api == A_LOOKUP || o->api == A_CALL || o->api == A_CALL_FD || o->api == A_QUERY_INFO || o->api == A_ENUMERATE || o->api == A_FILE_REPLACE) sz = 3 + sz;
      if ((o->api >= A_READ && o->api <= A_WRITE_BYTES) || o->api == A_NEXT_FILES) sz = 1 + sz;
      for (int k = 0; k < sz; k++) o->bytes += (char) ('a' + (i * 7 + k * 3) % 26);
      o->n = o->bytes.size () ? sim_choose ((int) o->bytes.size () + 1) : 0;
      if (o->api == A_LOOKUP || o->api == A_NEXT_FILES) o->n = sim_choose (3); if (o->api == A_LOOKUP && !o->n) o->n = 1;
      if (o->api == A_PAIR) o->n = o->type == 10 ? sim_choose (3) : o->type == 11 ? sim_choose (16) : o->type == 3 || o->type == 4 || o->type == 5 || o->type == 6 ? (int64_t) sim_choose (1000) << 30 : sim_choose (1000);
      if (o->api == A_LOAD) { LOADS[o.get ()].fail_at = o->fail ? sim_choose (4) : -1; if (o->how >= H_THREAD) o->how = H_IDLE; }
      o->where = sim_choose (pool ? 4 : 2);    // main, fiber on main, pool worker, fiber on the pool
      o->cons = sim_choose ((o->where & 1) ? 4 : 3);
      if (o->how == H_THREAD) o->by = sim_choose (nth); else if (o->how == H_CANCEL && sim_chance (1, 2)) o->by = sim_choose (nth);
      o->no_cancel = o->api == A_PAIR && sim_chance (1, 4);
      if ((o->cons == 1 || o->cons == 2) && sim_chance (1, 2)) o->drop_by = sim_choose (nth);
      o->keep = sim_chance (1, 2) || (o->api == A_CALL_FD && o->drop_by >= 0);
      sim_note ("%s %d:%s%s(%s%s,how %d%s,on %d,cons %d%s%s)", i ? "," : "", o->id, api_name[o->api], o->api == A_PAIR ? ("." + std::to_string (o->type)).c_str () : "", o->fail ? "fails" : "ok", o->react ? ",reacts" : "", o->how, o->delay ? " late" : "", o->where, o->cons, o->drop_by >= 0 ? ",dropped" : "", o->no_cancel ? ",no cancel" : "");
      OPS.push_back (std::move (o));
    }
  enum { DONE, DROP, LOOK, SLEEP, UNREF };
  struct Step { int what, arg; };
  std::vector<std::vector<Step>> prog (nth);
  auto add = [&] (int th, Step s) { auto &v = prog[th]; v.insert (v.begin () + sim_range (0, (int) v.size ()), s); };
  for (int i = 0; i < n; i++)
    {
      Op *o = OPS[i].get ();
      if (o->by >= 0) add (o->by, { DONE, i });
      if (o->drop_by >= 0) add (o->drop_by, { DROP, i });
      if (sim_chance (1, 2)) add (sim_choose (nth), { LOOK, i });
      if (!o->keep) prog[sim_choose (nth)].push_back ({ UNREF, i });
    }
  for (int k = sim_choose (4); k > 0; k--) add (sim_choose (nth), { SLEEP, 1 + sim_choose (60) });
  // LOOK, DROP and UNREF of one operation by different threads: each looks through a reference taken in advance
  std::vector<DexFuture *> held (n, NULL); std::vector<bool> looked (n, false);
  struct Start { Op *o; }; std::vector<std::unique_ptr<Start>> starts;
  auto start = [&] (Op *o) {
    if (o->where == 0) { op_make (o); return; }
    if (o->where == 2) { dex_scheduler_push (pool, [] (gpointer p) { op_make ((Op *) p); }, o); return; }
    dex_unref (dex_scheduler_spawn (o->where == 1 ? main_sched () : pool, 0, [] (gpointer p) -> DexFuture * { op_make ((Op *) p); return dex_future_new_true (); }, o, NULL));
  };
  Threads T;
  for (int t = 0; t < nth; t++)
    T.go ([&, t] {
      for (auto &s : prog[t])
        {
          Op *o = s.what == SLEEP ? NULL : OPS[s.arg].get ();
          switch (s.what)
            {
            case DONE: o->wanted = true; op_complete (o, false); break;
            case DROP: if (o->dep) { sim_probe ("dep_dropped"); drop_dep (o); } break;
            case SLEEP: sim_sleep_us (s.arg * 1000); break;
            case LOOK: if (o->f && o->keep && !(o->api == A_CALL_FD && o->drop_by >= 0)) op_look (o, outcome18 (o->f, &*o), "read"); break;
            case UNREF: if (o->f && o->made && (o->cons == 3 || o->dep || !o->cons)) { DexFuture *f = o->f; o->f = NULL; dex_unref (f); sim_probe ("future_dropped"); } break;
            }
        }
    });
  for (auto &o : OPS) start (o.get ());
  T.run ();
  sim_calm ();
  for (auto &o : OPS) o->wanted = true;
  // whatever is still in flight ends now; some of it begins only now
  sim_quiesce ();
  for (auto &o : OPS) if (o->api != A_LOAD) { SIM_CHECK ("op:not-started", o->begun, "operation %d was never started", o->id); op_complete (o.get (), false); }
  sim_quiesce ();
  for (auto &o : OPS)
    {
      SIM_CHECK ("stuck:fiber", o->made, "operation %d: its fiber never went on", o->id);
      if (o->f) { std::string got = outcome18 (o->f, &*o); SIM_CHECK ("op:pending", got != "pending", "the future of operation %d (%s) is pending although the operation called back", o->id, api_name[o->api]); op_look (o.get (), got, "at rest"); }
      if (o->dep && o->cons == 1) SIM_CHECK ("op:callback", o->cb.calls == 1, "the callback for operation %d (%s) ran %d times", o->id, api_name[o->api], o->cb.calls);
      if (o->cons == 1) { if (o->dep) dex_clear (&o->dep); }
      if (o->f && o->api == A_CALL_FD && op_ok (o.get ()))
        {
          DexFuture *p = dex_future_set_get_future_at (DEX_FUTURE_SET (o->f), 1); std::string got = outcome18 (p);
          std::string want = o->n & 1 ? "object:" + std::to_string (o->id) : "GObject:(null)";
          SIM_CHECK ("op:outcome", got == want, "the descriptors of call %d: %s instead of %s", o->id, got.c_str (), want.c_str ());
        }
      if (o->c && !o->dep_dropping && o->f && o->cons != 3) SIM_CHECK ("op:cancelled", !g_cancellable_is_cancelled (o->c) || o->api == A_EXISTS, "operation %d (%s) was cancelled although its consumer was never dropped", o->id, api_name[o->api]);
      dex_clear (&o->dep); dex_clear (&o->f);
    }
  sim_quiesce ();
  for (auto &o : OPS) if (o->cons == 1) SIM_CHECK ("callback:data-not-released", o->cb.freed == 1, "data of the callback for operation %d released %d times", o->id, o->cb.freed);
  leak_end ("C18");
  SIM_CHECK ("leak:values", wl_objects_alive == 0 && boxes_alive == 0, "%d objects and %d boxed values that operations returned were never released", wl_objects_alive, boxes_alive);
  SIM_CHECK ("leak:cancellables", cancellables_alive == 0, "%d cancellables of operations were never released", cancellables_alive);
  SIM_CHECK ("leak:sources", sources_alive == 0, "%d objects that operations worked on were never released", sources_alive);
  if (pool) { dex_unref (pool); }
  sim_quiesce ();
}

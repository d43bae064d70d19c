// The containers and values of GLib that libdex shares between threads, compiled with access instrumentation so that code which
// uses them without the lock it needs is interrupted in the middle. Only the objects of libdex are bound to these (see containers.syms).
#include <glib.h>
#include <glib-object.h>
#undef g_clear_error
GList *simglib_queue_peek_head_link (GQueue *q) { return q->head; }
GList *simglib_queue_peek_tail_link (GQueue *q) { return q->tail; }
gpointer simglib_queue_peek_head (GQueue *q) { return q->head ? q->head->data : NULL; }
gpointer simglib_queue_peek_tail (GQueue *q) { return q->tail ? q->tail->data : NULL; }
gboolean simglib_queue_is_empty (GQueue *q) { return q->head == NULL; }
guint simglib_queue_get_length (GQueue *q) { return q->length; }
void simglib_queue_init (GQueue *q) { q->head = NULL; q->tail = NULL; q->length = 0; }
void simglib_queue_push_head_link (GQueue *q, GList *l) { l->next = q->head; if (q->head) q->head->prev = l; else q->tail = l; q->head = l; q->length++; }
void simglib_queue_push_tail_link (GQueue *q, GList *l) { l->prev = q->tail; if (q->tail) q->tail->next = l; else q->head = l; q->tail = l; q->length++; }
GList *simglib_queue_pop_head_link (GQueue *q)
{
  if (!q->head) return NULL;
  GList *n = q->head; q->head = n->next; if (q->head) { q->head->prev = NULL; n->next = NULL; } else q->tail = NULL;
  q->length--; return n;
}
GList *simglib_queue_pop_tail_link (GQueue *q)
{
  if (!q->tail) return NULL;
  GList *n = q->tail; q->tail = n->prev; if (q->tail) { q->tail->next = NULL; n->prev = NULL; } else q->head = NULL;
  q->length--; return n;
}
void simglib_queue_unlink (GQueue *q, GList *l)
{
  if (l == q->tail) q->tail = q->tail->prev;
  if (l->prev) { if (l->prev->next == l) l->prev->next = l->next; }
  if (l->next) { if (l->next->prev == l) l->next->prev = l->prev; }
  if (l == q->head) q->head = q->head->next;
  l->next = NULL; l->prev = NULL; q->length--;
}
void simglib_queue_delete_link (GQueue *q, GList *l) { simglib_queue_unlink (q, l); g_list_free_1 (l); }
void simglib_queue_push_head (GQueue *q, gpointer d) { GList *l = g_list_alloc (); l->data = d; simglib_queue_push_head_link (q, l); }
void simglib_queue_push_tail (GQueue *q, gpointer d) { GList *l = g_list_alloc (); l->data = d; simglib_queue_push_tail_link (q, l); }
gpointer simglib_queue_pop_head (GQueue *q) { GList *l = simglib_queue_pop_head_link (q); if (!l) return NULL; gpointer d = l->data; g_list_free_1 (l); return d; }
gpointer simglib_queue_pop_tail (GQueue *q) { GList *l = simglib_queue_pop_tail_link (q); if (!l) return NULL; gpointer d = l->data; g_list_free_1 (l); return d; }
GList *simglib_queue_find (GQueue *q, gconstpointer d) { GList *l = q->head; while (l && l->data != d) l = l->next; return l; }
gboolean simglib_queue_remove (GQueue *q, gconstpointer d) { GList *l = simglib_queue_find (q, d); if (l) simglib_queue_delete_link (q, l); return l != NULL; }
GList *simglib_list_append (GList *list, gpointer d)
{
  GList *n = g_list_alloc (); n->data = d; if (!list) return n;
  GList *l = list; while (l->next) l = l->next;
  l->next = n; n->prev = l; return list;
}
GList *simglib_list_prepend (GList *list, gpointer d)
{
  GList *n = g_list_alloc (); n->data = d; n->next = list; if (list) { n->prev = list->prev; if (list->prev) list->prev->next = n; list->prev = n; } return n;
}
GList *simglib_list_remove_link (GList *list, GList *l)
{
  if (!l) return list;
  if (l->prev) l->prev->next = l->next;
  if (l->next) l->next->prev = l->prev;
  if (l == list) list = list->next;
  l->next = NULL; l->prev = NULL; return list;
}
GList *simglib_list_delete_link (GList *list, GList *l) { list = simglib_list_remove_link (list, l); g_list_free_1 (l); return list; }
GList *simglib_list_copy_deep (GList *list, GCopyFunc f, gpointer data)
{
  GList *r = NULL, *t = NULL;
  for (; list; list = list->next)
    { GList *n = g_list_alloc (); n->data = f ? f (list->data, data) : list->data; n->prev = t; if (t) t->next = n; else r = n; t = n; }
  return r;
}
void simglib_list_free_full (GList *list, GDestroyNotify f) { while (list) { GList *n = list->next; f (list->data); g_list_free_1 (list); list = n; } }
GSList *simglib_slist_find (GSList *l, gconstpointer d) { while (l && l->data != d) l = l->next; return l; }
void simglib_clear_error (GError **e) { if (e && *e) { g_error_free (*e); *e = NULL; } }
GError *simglib_error_copy (const GError *e) { GQuark d = e->domain; (void) *(volatile GQuark *) &d; return g_error_copy (e); }
// a value is its type and two words
static void touch_w (GValue *v) { volatile GValue *x = v; GType t = x->g_type; x->g_type = t; gint64 d = x->data[0].v_int64; x->data[0].v_int64 = d; }
static void touch_r (const GValue *v) { const volatile GValue *x = v; (void) x->g_type; (void) x->data[0].v_int64; }
GValue *simglib_value_init (GValue *v, GType t) { touch_w (v); GValue *r = g_value_init (v, t); touch_r (v); return r; }
void simglib_value_copy (const GValue *a, GValue *b) { touch_r (a); touch_w (b); g_value_copy (a, b); touch_r (b); }
void simglib_value_unset (GValue *v) { touch_w (v); g_value_unset (v); }

/* Access to the few private entry points the existing testsuite uses too. */
#include "config.h"
#include <libdex.h>
#include "dex-object-private.h"
#include "dex-semaphore-private.h"
#include "dex-future-private.h"
#include "dex-scheduler-private.h"
#include "shim.h"

typedef struct { DexObject parent_instance; void (*on_finalize) (void *); void *data; } SimObject;
typedef struct { DexObjectClass parent_class; } SimObjectClass;
GType sim_object_get_type (void);
DEX_DEFINE_FINAL_TYPE (SimObject, sim_object, DEX_TYPE_OBJECT)
#undef DEX_TYPE_OBJECT
static void sim_object_finalize (DexObject *o)
{
  SimObject *s = (SimObject *) o;
  if (s->on_finalize) s->on_finalize (s->data);
  DEX_OBJECT_CLASS (sim_object_parent_class)->finalize (o);
}
static void sim_object_class_init (SimObjectClass *k) { DEX_OBJECT_CLASS (k)->finalize = sim_object_finalize; }
static void sim_object_init (SimObject *o) {}
void *shim_object_new (void (*cb) (void *), void *data)
{
  SimObject *s = (SimObject *) dex_object_create_instance (sim_object_get_type ());
  s->on_finalize = cb; s->data = data; return s;
}
void *shim_object_data (void *o) { return ((SimObject *) o)->data; }
struct ShimWeak { DexWeakRef wr; };
ShimWeak *shim_weak_new (void *o) { ShimWeak *w = g_new0 (ShimWeak, 1); dex_weak_ref_init (&w->wr, o); return w; }
void shim_weak_set (ShimWeak *w, void *o) { dex_weak_ref_set (&w->wr, o); }
void *shim_weak_get (ShimWeak *w) { return dex_weak_ref_get (&w->wr); }
void shim_weak_clear (ShimWeak *w) { dex_weak_ref_clear (&w->wr); g_free (w); }
void *shim_semaphore_new (void) { return dex_semaphore_new (); }
void shim_semaphore_post (void *s) { dex_semaphore_post (s); }
void shim_semaphore_post_many (void *s, unsigned n) { dex_semaphore_post_many (s, n); }
DexFuture *shim_semaphore_wait (void *s) { return dex_semaphore_wait (s); }
void shim_semaphore_close (void *s) { dex_semaphore_close (s); }
DexAioContext *shim_main_aio_context (void) { return dex_scheduler_get_aio_context (dex_scheduler_get_default ()); }

// Helpers shared by the workloads.
#pragma once
#include <libdex.h>
#include <gio/gio.h>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <string.h>
#include <unistd.h>
#include "../sim.h"
extern "C" {
#include "../shim.h"
GType dex_future_get_type (void);
void dex_future_chain (DexFuture *future, DexFuture *chained);
}
typedef std::function<void ()> Fn;

// ---- threads --------------------------------------------------------------------------------------------------
struct Threads {
  int alive = 0; std::vector<GThread *> th;
  struct Start { Fn fn; Threads *t; };
  static gpointer entry (gpointer p)
  {
    Start *s = (Start *) p;
    sim_point ();
    s->fn ();
    s->t->alive--;
    sim_wake_main ();
    delete s;
    return NULL;
  }
  void go (Fn fn) { alive++; th.push_back (g_thread_new ("sim", entry, new Start { fn, this })); }
  // the same on a thread that has a scheduler
  static void job (gpointer p) { Start *s = (Start *) p; sim_point (); s->fn (); s->t->alive--; sim_wake_main (); delete s; }
  void go_on (DexScheduler *sched, Fn fn) { alive++; dex_scheduler_push (sched, job, new Start { fn, this }); }
  // who: 0 plain thread, 1 pool, 2 main loop
  void go_as (int who, DexScheduler *pool, Fn fn) { if (who == 0) go (fn); else go_on (who == 1 ? pool : dex_scheduler_get_default (), fn); }
  static int done (void *p) { return ((Threads *) p)->alive == 0; }
  // runs the main loop until every thread has returned; "stuck" otherwise
  void run (const char *cls = "stuck:thread-never-returns")
  {
    if (!sim_run_until (done, this)) sim_violation (cls, "%d of %zu threads never returned although nothing else can happen", alive, th.size ());
    join ();
  }
  void join () { for (GThread *t : th) g_thread_join (t); th.clear (); }
};
static inline int pred_fn (void *p) { return (*(std::function<bool ()> *) p) (); }
static inline bool run_until (std::function<bool ()> f) { return sim_run_until (pred_fn, &f); }

// ---- outcomes -------------------------------------------------------------------------------------------------
enum { K_INT, K_UINT, K_INT64, K_UINT64, K_DOUBLE, K_FLOAT, K_STRING, K_OBJECT, K_VARIANT, K_BOOL, K_LONG, K_ULONG, K_POINTER, K_BOXED, K_ENUM, K_FLAGS, K_DEX, K_NVALUES, K_ERROR = K_NVALUES };
struct Val { int kind, id; };
extern int wl_objects_alive;      // GObjects made for K_OBJECT values and not yet finalised
GObject *val_object (int id);
GType val_box_type (void); gpointer val_box (int id); int val_box_id (gconstpointer b);   // a boxed type that counts as an object too
GType val_enum_type (void); GType val_flags_type (void);
bool val_gvalue (Val v, GValue *g);                 // kinds without a function of their own
std::string val_repr (Val v);                       // what a reader must see
void val_resolve (DexPromise *p, Val v);            // resolve or reject
DexFuture *val_future (Val v);                      // already completed future
std::string gvalue_repr (const GValue *v);
std::string error_repr (const GError *e);
std::string outcome (DexFuture *f);                 // "pending" or the representation
static inline std::string outcome_of (const GValue *v, GError *e) { std::string s = v ? gvalue_repr (v) : e ? error_repr (e) : std::string ("nothing"); g_clear_error (&e); return s; }
static inline bool is_error (const std::string &s) { return s.compare (0, 3, "err") == 0; }
GQuark wl_quark (void);
GError *val_error (int id); GVariant *val_variant (int id);
static inline Val val_draw (int id, int err_num = 1, int err_den = 3) { Val v; v.id = id; v.kind = sim_chance (err_num, err_den) ? (int) K_ERROR : sim_choose (K_NVALUES); return v; }
#define DEXERR(code) ("err:dex-error:" + std::to_string (code))
std::string err_key (const std::string &s);          // "err:domain:code" without the message
static inline bool is_dex_error (const std::string &s, int code) { return err_key (s) == std::string ("err:") + g_quark_to_string (dex_error_quark ()) + ":" + std::to_string (code); }

// ---- dependents -----------------------------------------------------------------------------------------------
// callback data with release accounting
struct Cb {
  int id = 0, calls = 0, freed = 0, call_after_free = 0; int tid = -1; GThread *thread = NULL; std::string got; uint64_t seq = 0;
  std::function<DexFuture *(DexFuture *)> fn;
};
DexFuture *cb_call (DexFuture *f, gpointer data);
void cb_free (gpointer data);

// ---- leak checks ----------------------------------------------------------------------------------------------
void leak_begin ();                                  // settles, then takes the census of live objects
void leak_end (const char *what = "");               // after everything was dropped and the system is quiescent
void calm_and_settle ();                             // fair schedule, no faults, run until nothing can happen

static inline DexFuture *fref (gpointer f) { return (DexFuture *) dex_ref (f); }
static inline DexScheduler *main_sched () { return dex_scheduler_get_default (); }
void pool_destroy (DexScheduler *pool);
DexFuture *block_new (int kind, DexFuture *f, Cb *cb);   // 0 then 1 catch 2 finally, +3 the loop variants; takes f
static inline const char *block_name (int k) { static const char *n[] = { "then", "catch", "finally", "then_loop", "catch_loop", "finally_loop" }; return n[k]; }
DexFuture *set_new (int kind, std::vector<DexFuture *> m);   // 0 all 1 first 2 any 3 all_race; does not take the members; sometimes through the varargs constructors
static inline const char *set_name (int k) { static const char *n[] = { "all", "first", "any", "all_race" }; return n[k]; }

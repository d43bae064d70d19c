// Every DexObject is created and freed through GType from inside libdex, so live objects can be counted from outside.
#include "sim_int.h"
#include <dlfcn.h>
#include <string>
#include <glib-object.h>

struct Inst { void *p; GType t; bool live; };
static Inst *insts; static size_t ninst, capinst; 
extern "C" {
GTypeInstance *g_type_create_instance (GType t)
{
  typedef GTypeInstance *(*fn) (GType); static fn real; if (!real) real = (fn) dlsym (RTLD_NEXT, "g_type_create_instance");
  GTypeInstance *i = real (t);
  if (ninst == capinst) { Internal guard; capinst = capinst ? capinst * 2 : 256; insts = (Inst *) realloc (insts, capinst * sizeof (Inst)); }
  insts[ninst++] = { i, t, true };
  return i;
}
void g_type_free_instance (GTypeInstance *i)
{
  typedef void (*fn) (GTypeInstance *); static fn real; if (!real) real = (fn) dlsym (RTLD_NEXT, "g_type_free_instance");
  if (g_active)
    {
      if (sim_ptr_freed (i)) sim_violation ("memory:double-finalize", "an object is released twice");
      for (size_t k = ninst; k > 0; k--) if (insts[k - 1].p == i && insts[k - 1].live) { insts[k - 1].live = false; break; }
    }
  real (i);
}
static int count_all (GType t) { int n = 0; for (size_t k = 0; k < ninst; k++) n += insts[k].live && insts[k].t == t; return n; }
static GType bt[64]; static int bn[64], nb;
void sim_track_mark (void)
{
  nb = 0;
  for (size_t k = 0; k < ninst; k++)
    {
      if (!insts[k].live) continue;
      int j = 0; while (j < nb && bt[j] != insts[k].t) j++;
      if (j == nb) { if (nb == 64) return; bt[nb] = insts[k].t; bn[nb++] = 0; }
      bn[j]++;
    }
}
// objects alive beyond those alive at the mark, by type; names gets a summary
int sim_track_live (char *names, size_t cap)
{
  int n = 0; size_t l = 0; if (cap) names[0] = 0;
  GType seen[64]; int ns = 0;
  for (size_t k = 0; k < ninst; k++)
    {
      if (!insts[k].live) continue;
      bool s = false; for (int j = 0; j < ns; j++) s |= seen[j] == insts[k].t;
      if (s || ns == 64) continue;
      seen[ns++] = insts[k].t;
      int c = count_all (insts[k].t); for (int j = 0; j < nb; j++) if (bt[j] == insts[k].t) c -= bn[j];
      if (c > 0) { n += c; if (l + 60 < cap) l += snprintf (names + l, cap - l, "%d %s ", c, g_type_name (insts[k].t)); }
    }
  return n;
}
int sim_track_live_type (const char *name)
{
  GType t = g_type_from_name (name); int c = count_all (t);
  for (int j = 0; j < nb; j++) if (bt[j] == t) c -= bn[j];
  return c;
}
int sim_fibers_alive (void) { GType t = g_type_from_name ("DexFiber"); return t ? count_all (t) : 0; }
}

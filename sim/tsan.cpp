// Our own runtime for gcc's -fsanitize=thread instrumentation: every access and atomic of libdex comes here.
#include "sim_int.h"
#define PC __builtin_return_address (0)
typedef unsigned __int128 u128;
// In half of the runs, atomic stores weaker than sequentially consistent stay in a first-in-first-out buffer of their
// thread for up to WB_AGE of its accesses; the thread itself sees them, the others do not (what any processor with store
// buffers does). Read-modify-writes, sequentially consistent stores and fences, locks, waits and system calls empty it.
enum { WB_MAX = 8, WB_AGE = 24 };
struct Wb { void *p; unsigned n; u128 v; };
static __thread Wb wb[WB_MAX]; static __thread int wb_age;
__thread int sim_wb_n; bool sim_wb_on;
void sim_wb_drain (void)
{
  for (int i = 0; i < sim_wb_n; i++) memcpy (wb[i].p, &wb[i].v, wb[i].n);
  sim_wb_n = 0; wb_age = 0;
}
static void wb_store (volatile void *p, u128 v, unsigned n)
{
  if (!g_active || !sim_wb_on || sim_self () < 0) { memcpy ((void *) p, &v, n); return; }
  if (sim_wb_n == WB_MAX) sim_wb_drain ();
  wb[sim_wb_n++] = { (void *) p, n, v };
}
static bool wb_load (const volatile void *p, void *out, unsigned n)
{
  for (int i = sim_wb_n - 1; i >= 0; i--)
    {
      if (wb[i].p == p && wb[i].n == n) { memcpy (out, &wb[i].v, n); return true; }
      if ((char *) wb[i].p < (char *) p + n && (char *) p < (char *) wb[i].p + wb[i].n) { sim_wb_drain (); return false; }
    }
  return false;
}
static inline void access (const void *p, size_t n, int kind, int w, const void *pc)
{
  if (sim_wb_n)
    {
      if (++wb_age > WB_AGE) sim_wb_drain ();
      else if (kind == P_PLAIN) for (int i = 0; i < sim_wb_n; i++) if ((char *) wb[i].p < (char *) p + n && (char *) p < (char *) wb[i].p + wb[i].n) { sim_wb_drain (); break; }
    }
  sim_access (p, n, kind, w, pc);
}
#define WEAK(mo) ((mo) < __ATOMIC_SEQ_CST ? P_WEAK : P_SYNC)
extern "C" {
void __tsan_init (void) {}
void __tsan_func_entry (void *) {}
void __tsan_func_exit (void) {}
#define RW(n) \
  void __tsan_read##n (void *p) { access (p, n, P_PLAIN, 0, PC); } \
  void __tsan_write##n (void *p) { access (p, n, P_PLAIN, 1, PC); } \
  void __tsan_volatile_read##n (void *p) { access (p, n, P_PLAIN, 0, PC); } \
  void __tsan_volatile_write##n (void *p) { access (p, n, P_PLAIN, 1, PC); } \
  void __tsan_unaligned_read##n (void *p) { access (p, n, P_PLAIN, 0, PC); } \
  void __tsan_unaligned_write##n (void *p) { access (p, n, P_PLAIN, 1, PC); }
RW (1) RW (2) RW (4) RW (8) RW (16)
void __tsan_read_range (void *p, unsigned long n) { if (n) access (p, n, P_PLAIN, 0, PC); }
void __tsan_write_range (void *p, unsigned long n) { if (n) access (p, n, P_PLAIN, 1, PC); }
void __tsan_vptr_update (void **, void *) {}
void __tsan_vptr_read (void **) {}
#define AT(bits, T) \
  T __tsan_atomic##bits##_load (const volatile T *a, int mo) { access ((const void *) a, sizeof (T), WEAK (mo), 0, PC); T r; if (sim_wb_n && wb_load (a, &r, sizeof (T))) return r; return *a; } \
  void __tsan_atomic##bits##_store (volatile T *a, T v, int mo) { access ((const void *) a, sizeof (T), WEAK (mo), 1, PC); if (mo < __ATOMIC_SEQ_CST) wb_store (a, v, sizeof (T)); else *a = v; } \
  T __tsan_atomic##bits##_exchange (volatile T *a, T v, int) { access ((const void *) a, sizeof (T), P_SYNC, 1, PC); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add (volatile T *a, T v, int) { access ((const void *) a, sizeof (T), P_SYNC, 1, PC); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub (volatile T *a, T v, int) { access ((const void *) a, sizeof (T), P_SYNC, 1, PC); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and (volatile T *a, T v, int) { access ((const void *) a, sizeof (T), P_SYNC, 1, PC); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or (volatile T *a, T v, int) { access ((const void *) a, sizeof (T), P_SYNC, 1, PC); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor (volatile T *a, T v, int) { access ((const void *) a, sizeof (T), P_SYNC, 1, PC); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##bits##_fetch_nand (volatile T *a, T v, int) { access ((const void *) a, sizeof (T), P_SYNC, 1, PC); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong (volatile T *a, T *e, T d, int, int) { access ((const void *) a, sizeof (T), P_SYNC, 1, PC); T o = *a; if (o == *e) { *a = d; return 1; } *e = o; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak (volatile T *a, T *e, T d, int, int) { access ((const void *) a, sizeof (T), P_SYNC, 1, PC); T o = *a; if (o == *e) { *a = d; return 1; } *e = o; return 0; } \
  T __tsan_atomic##bits##_compare_exchange_val (volatile T *a, T e, T d, int, int) { access ((const void *) a, sizeof (T), P_SYNC, 1, PC); T o = *a; if (o == e) *a = d; return o; }
AT (8, uint8_t) AT (16, uint16_t) AT (32, uint32_t) AT (64, uint64_t) AT (128, u128)
void __tsan_atomic_thread_fence (int mo) { sim_pt (WEAK (mo)); }
void __tsan_atomic_signal_fence (int) {}
// memory functions called by libdex (the compiler is told not to inline them) go through checked versions
static inline void chk (const void *p, size_t n, int w, const void *pc)
{
  if (!n || !g_active) return;
  access (p, n, P_PLAIN, w, pc);
  if (n > 16) access ((const char *) p + n - 1, 1, P_PLAIN, w, pc);
}
void *simchk_memcpy (void *d, const void *s, size_t n) { chk (s, n, 0, PC); chk (d, n, 1, PC); return memcpy (d, s, n); }
void *simchk_memmove (void *d, const void *s, size_t n) { chk (s, n, 0, PC); chk (d, n, 1, PC); return memmove (d, s, n); }
void *simchk_memset (void *d, int c, size_t n) { chk (d, n, 1, PC); return memset (d, c, n); }
}

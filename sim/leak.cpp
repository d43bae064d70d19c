// Memory that nothing refers to any more: a conservative mark phase over the arena of the run, started from everything that is not
// part of it (data segments, stacks and registers of the simulated threads, what was allocated before the run).
#include "sim_int.h"
#include <algorithm>
#include <fcntl.h>

struct Blk { uintptr_t a, e; bool mark; };
static Blk *blk; static size_t nblk; static uint32_t *todo; static size_t ntodo;
static uintptr_t lo, hi, mark_at;
extern size_t g_arena_prerun;

static inline void word (uintptr_t w)
{
  if (w < lo || w >= hi) return;
  size_t i = 0, n = nblk;                       // the last block that starts at or below w
  while (n > 1) { size_t h = n / 2; if (blk[i + h].a <= w) { i += h; n -= h; } else n = h; }
  if (!nblk || blk[i].a > w || w > blk[i].e || blk[i].mark) return;   // one past the end still refers to it
  blk[i].mark = true; todo[ntodo++] = i;
}
static void range (uintptr_t a, uintptr_t e) { for (a = (a + 7) & ~7ul; a + 8 <= e; a += 8) word (*(uintptr_t *) a); }
static void drain (void) { while (ntodo) { Blk &b = blk[todo[--ntodo]]; range (b.a, b.e); } }
extern "C" void sim_leak_mark (void) { mark_at = (uintptr_t) g_arena + alloc_used (); }
// the number of blocks that were allocated since the mark and that nothing refers to
extern "C" int __attribute__ ((noinline)) sim_leaks (char *out, size_t cap)
{
  Internal guard;
  uintptr_t regs[6];
  asm volatile ("movq %%rbx,0(%0); movq %%rbp,8(%0); movq %%r12,16(%0); movq %%r13,24(%0); movq %%r14,32(%0); movq %%r15,40(%0)" : : "r" (regs) : "memory");
  lo = (uintptr_t) g_arena + g_arena_size / 2; hi = (uintptr_t) g_arena + alloc_used () + 1;
  size_t cnt = 0, g0 = (lo - (uintptr_t) g_arena) >> 4, g1 = alloc_used () >> 4;
  for (size_t g = g0; g < g1; g++) cnt += g_shadow[g] == SHD_HDR && g_shadow[g + 1] == SHD_LIVE;
  blk = (Blk *) malloc ((cnt + 1) * sizeof (Blk)); todo = (uint32_t *) malloc ((cnt + 1) * 4); nblk = ntodo = 0;
  for (size_t g = g0; g < g1; g++)
    if (g_shadow[g] == SHD_HDR && g_shadow[g + 1] == SHD_LIVE)
      { uintptr_t p = (uintptr_t) g_arena + ((g + 1) << 4); blk[nblk++] = { p, p + ((uint64_t *) p)[-2], false }; }
  static char b[1 << 18]; size_t n = 0; int fd = syscall (SYS_open, "/proc/self/maps", O_RDONLY); long r;
  while (n < sizeof b - 1 && (r = syscall (SYS_read, fd, b + n, sizeof b - 1 - n)) > 0) n += r;
  b[n] = 0; syscall (SYS_close, fd);
  for (int i = 0; i < 6; i++) word (regs[i]);
  range ((uintptr_t) g_arena, (uintptr_t) g_arena + g_arena_prerun);
  range (lo, std::min (mark_at, hi));
  for (char *l = b; *l; )
    {
      unsigned long s, e; char p[8];
      if (sscanf (l, "%lx-%lx %7s", &s, &e, p) == 3 && p[0] == 'r' && p[1] == 'w' && p[3] == 'p'
          && !(s < (uintptr_t) g_arena + g_arena_size && e > (uintptr_t) g_arena) && !(s < (uintptr_t) g_shadow + (g_arena_size >> 4) && e > (uintptr_t) g_shadow))
        {
          uintptr_t from = sim_root_start (s, e, (uintptr_t) __builtin_frame_address (0));
          if (from < e) range (from, e);
        }
      l = strchr (l, '\n'); if (!l) break; l++;
    }
  uintptr_t x; for (int i = 0; sim_root_word (i, &x); i++) word (x);
  drain ();
  int leaks = 0; size_t bytes = 0, l = 0; out[0] = 0;
  // name those that start a leaked structure: not referred to by another leaked block
  for (size_t i = 0; i < nblk; i++) if (!blk[i].mark && blk[i].a >= mark_at) { leaks++; bytes += blk[i].e - blk[i].a; }
  if (leaks)
    {
      int named = 0;
      for (size_t i = 0; i < nblk && named < 4; i++)
        if (!blk[i].mark && blk[i].a >= mark_at)
          { l += snprintf (out + l, cap - l, "%zu bytes at %#lx, ", (size_t) (blk[i].e - blk[i].a), (unsigned long) blk[i].a); blk[i].mark = true; todo[ntodo++] = i; drain (); named++; }
      snprintf (out + l, cap - l, "%zu bytes in all", bytes);
    }
  free (blk); free (todo);
  return leaks;
}

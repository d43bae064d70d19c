// malloc family: a deterministic arena at a fixed address. Freed blocks are poisoned and normally never reused
// within a run, so that every later access of libdex to them is recognised.
#include "sim_int.h"
#include <malloc.h>
#include <sched.h>
#include <execinfo.h>

static const uintptr_t ARENA_AT = 0x100000000000ull, SHADOW_AT = 0x180000000000ull;
const size_t g_arena_size = 1ull << 30;
uint8_t *g_arena = (uint8_t *) ARENA_AT, *g_shadow = (uint8_t *) SHADOW_AT;
static bool inited;
static size_t bump, ibump;
static __thread int internal;   // the simulator's own bookkeeping lives elsewhere, so that it does not move the program's blocks
void alloc_internal (int d) { internal += d; }
static bool reuse;
static volatile int lk;
static void *freelist[1025 / 16 + 2];

static void *watch;   // development: DEXSIM_WATCH=address prints where a block is allocated
void alloc_watch (void *p) { watch = p; }
static inline void lock () { while (__atomic_exchange_n (&lk, 1, __ATOMIC_ACQUIRE)) sched_yield (); }
static inline void unlock () { __atomic_store_n (&lk, 0, __ATOMIC_RELEASE); }

void alloc_init (void)
{
  if (inited) return;
  inited = true;
  if (mmap ((void *) ARENA_AT, g_arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *) ARENA_AT ||
      mmap ((void *) SHADOW_AT, g_arena_size >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *) SHADOW_AT)
    { static const char m[] = "dexsim: cannot map the arena\n"; (void) !write (2, m, sizeof m - 1); _exit (70); }
}
void alloc_set_reuse (bool on) { reuse = on; }
size_t alloc_used (void) { return bump; }

struct Hdr { uint64_t size; uint64_t cap; };

static void *get (size_t n, size_t align, bool zero)
{
  alloc_init ();
  if (n > (1ull << 30)) { errno = ENOMEM; return NULL; }
  size_t cap = (n + 15) & ~15ull; if (!cap) cap = 16;
  uint8_t *p = NULL; bool fresh = true;
  lock ();
  if (internal)
    {
      if (!ibump) ibump = g_arena_size / 4 * 3;
      size_t o = ibump + sizeof (Hdr); if (align > 16) o = (o + align - 1) & ~(align - 1);
      if (o + cap > g_arena_size) { unlock (); errno = ENOMEM; return NULL; }
      p = g_arena + o; ibump = o + cap;
    }
  else if (reuse && align <= 16 && cap <= 1024 && freelist[cap / 16])
    { p = (uint8_t *) freelist[cap / 16]; freelist[cap / 16] = *(void **) p; fresh = false; }
  else
    {
      size_t o = bump + sizeof (Hdr);
      if (align > 16) o = (o + align - 1) & ~(align - 1);
      if (o + cap > g_arena_size / 4 * 3) { unlock (); errno = ENOMEM; return NULL; }
      p = g_arena + o;
      bump = o + cap;
    }
  Hdr *h = (Hdr *) p - 1;
  h->size = n; h->cap = cap;
  size_t g = (p - g_arena) >> 4;
  g_shadow[g - 1] = SHD_HDR;
  memset (g_shadow + g, SHD_LIVE, cap >> 4);
  unlock ();
  if (watch && p == watch) { watch = NULL; void *bt[40]; backtrace_symbols_fd (bt, backtrace (bt, 40), 2); }
  if (zero) { if (!fresh) memset (p, 0, cap); }
  else if (cap <= 8192) memset (p, 0xCD, cap);
  return p;
}

extern "C" {
void *malloc (size_t n) { return get (n, 16, false); }
void *calloc (size_t a, size_t b) { size_t n; if (__builtin_mul_overflow (a, b, &n)) { errno = ENOMEM; return NULL; } return get (n, 16, true); }
void *memalign (size_t al, size_t n) { return get (n, al, false); }
void *aligned_alloc (size_t al, size_t n) { return get (n, al, false); }
void *valloc (size_t n) { return get (n, 4096, false); }
void *pvalloc (size_t n) { return get ((n + 4095) & ~4095ull, 4096, false); }
int posix_memalign (void **r, size_t al, size_t n) { *r = get (n, al, false); return *r ? 0 : ENOMEM; }
size_t malloc_usable_size (void *p) { return p && (size_t) ((uint8_t *) p - g_arena) < g_arena_size ? ((Hdr *) p)[-1].size : 0; }
void free (void *p)
{
  if (!p) return;
  size_t o = (uint8_t *) p - g_arena;
  if (o >= g_arena_size) return;   // from the dynamic loader's start-up allocator
  if (sim_wb_n) sim_wb_drain ();
  if (g_shadow[o >> 4] != SHD_LIVE || g_shadow[(o >> 4) - 1] != SHD_HDR)
    {
      if (g_active)
        sim_violation ("memory:double-free", "block released twice or never allocated");
      return;
    }
  Hdr *h = (Hdr *) p - 1;
  lock ();
  memset (g_shadow + (o >> 4), SHD_FREED, h->cap >> 4);
  size_t fill = h->cap <= 65536 ? h->cap : 65536;
  memset (p, 0xDD, fill);
  if (reuse && g_active && h->cap <= 1024 && o < g_arena_size / 4 * 3)
    { *(void **) p = freelist[h->cap / 16]; freelist[h->cap / 16] = p; }
  unlock ();
}
void *realloc (void *p, size_t n)
{
  if (!p) return malloc (n);
  if (n == 0) { free (p); return NULL; }
  size_t o = (uint8_t *) p - g_arena;
  if (o >= g_arena_size) { void *q = malloc (n); memcpy (q, p, n); return q; }
  if (g_shadow[o >> 4] != SHD_LIVE) { if (g_active) sim_violation ("memory:realloc-freed", "realloc of a released block"); }
  Hdr *h = (Hdr *) p - 1;
  if (n <= h->cap && n > h->cap / 2) { h->size = n; return p; }
  void *q = malloc (n);
  if (!q) return NULL;
  memcpy (q, p, h->size < n ? h->size : n);
  free (p);
  return q;
}
}
// every run allocates from the same address on, whatever the parent process allocated between runs
size_t g_arena_prerun;   // what existed after the warm-up; what the searching process itself allocated later does not refer to anything of a run
extern "C" void alloc_warmup_done (void) { g_arena_prerun = bump; }
void alloc_begin_run (void) { if (bump < g_arena_size / 2) bump = g_arena_size / 2; }

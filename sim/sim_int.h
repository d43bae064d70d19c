// internals shared by the simulator's files
#pragma once
#include "sim.h"
#include <errno.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

enum PK { P_PLAIN = 0, P_SYNC = 1, P_WEAK = 2, P_BITS = 3 };   // P_WEAK: an atomic load or store that does not order earlier stores; P_BITS: a store to one byte, as of a bit-field
// atomic stores weaker than sequentially consistent may stay in the thread's store buffer for a while (tsan.cpp)
extern __thread int sim_wb_n; extern bool sim_wb_on; void sim_wb_drain (void);

extern int g_warming;
extern bool g_active;            // a run is in progress in this process
struct Sched { int32_t tid, next; uint64_t lstep; };
struct Fault { int32_t kind, val; uint32_t idx; };
struct Gen { int32_t val, n; };
enum { MAXS = 200000, MAXFA = 20000, MAXG = 20000, NPROBE = 64 };
struct Probe { char name[48]; uint64_t n; };
struct Shared {
  volatile int status;           // 0 running/crashed, 1 ok, 2 violation, 3 internal error
  char cls[160]; char msg[1024]; char where[1500]; char note[900];
  uint64_t hash, ilv, steps, switches, preempts, evals, nthreads, sim_us;
  uint64_t fired[F_NUM], opps[F_NUM];
  Probe probe[NPROBE];
  uint32_t nsched, nfault, ngen;
  Sched sched[MAXS]; Fault fault[MAXFA]; Gen gen[MAXG];
};
extern Shared *SH;
extern int g_backend_uring;
extern int g_verbose;
extern uint64_t g_steps_cap;

struct Rng {
  uint64_t s;
  uint64_t next () { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint32_t below (uint32_t n) { return n ? (uint32_t) ((next () >> 32) * (uint64_t) n >> 32) : 0; }
  double unit () { return (next () >> 11) * (1.0 / 9007199254740992.0); }
};

// replay input
struct Replay { bool on; const Sched *sched; uint32_t nsched; const Fault *fault; uint32_t nfault; const Gen *gen; uint32_t ngen; };
void sim_begin (uint64_t seed, const Replay &rp);  // called in the run's process, makes the caller thread 0
void sim_end_ok (void) __attribute__((noreturn));
void sim_internal_error (const char *fmt, ...) __attribute__((noreturn, format (printf, 1, 2)));

// called by interposers
void sim_pt (int kind);                            // scheduling point
void sim_access (const void *p, size_t n, int kind, int is_write, const void *pc);
int  sim_block_key (const void *key, int64_t deadline_ns);   // 0 woken, 1 timeout
int  sim_wake_key (const void *key, int n);
int  sim_poll (struct pollfd *fds, nfds_t n, int64_t timeout_ns);
int64_t sim_now_ns (void);
void sim_deadline_hint (int64_t due_ns);
extern bool g_fd_dirty; extern uint64_t g_ring_submitted;
extern Rng g_rng_fault;

// ring kernel
bool ring_deliver_due (int64_t now);               // deliver everything due; true if something was delivered
int64_t ring_next_due (void);                      // INT64_MAX if none
void ring_fd_activity (void);                      // descriptors changed: check pending reads
int64_t file_rw (int fd, void *buf, uint64_t len, int64_t off, int write);  // applies faults, performs and logs; bytes or -errno
bool is_simfile (int fd);

// allocator
extern uint8_t *g_arena; extern uint8_t *g_shadow; extern const size_t g_arena_size;
enum { SHD_NONE = 0, SHD_LIVE = 1, SHD_FREED = 2, SHD_HDR = 3 };
static inline uint8_t shadow_at (const void *p) { size_t o = (const uint8_t *) p - g_arena; return o < g_arena_size ? g_shadow[o >> 4] : (uint8_t) SHD_LIVE; }
void alloc_init (void);
void alloc_set_reuse (bool on);
size_t alloc_used (void);
// roots for the search of unreachable memory: where to begin in a mapping, and single words
uintptr_t sim_root_start (uintptr_t s, uintptr_t e, uintptr_t sp); bool sim_root_word (int i, uintptr_t *w);
bool sim_is_mapped_by_libdex (uintptr_t s, uintptr_t e);
void alloc_begin_run (void); void alloc_watch (void *p);
void alloc_internal (int d);
struct Internal { Internal () { alloc_internal (1); } ~Internal () { alloc_internal (-1); } };

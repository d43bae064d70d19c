// The simulator's interface to workloads.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>

#ifdef __cplusplus
extern "C" {
#endif

enum SimFault {
  F_SPURIOUS,        // condition wait returns without a signal
  F_STALL,           // the clock reaches the next deadline although threads are runnable
  F_EINTR,           // read/write on a descriptor interrupted
  F_RING_INIT,       // io_uring_queue_init fails
  F_RING_REG,        // io_uring_register_* fails
  F_EVENTFD,         // eventfd() fails
  F_IO_ERROR,        // simulated disk reports an error
  F_IO_SHORT,        // short transfer
  F_IO_DELAY,        // completion delayed
  F_IO_REORDER,      // completion overtakes an earlier one
  F_SUBMIT,          // io_uring_submit transiently fails or submits only a part
  F_SIGNAL,          // signal delivered at an arbitrary instant
  F_OP,              // scripted GIO operation misbehaves (late, error, short)
  F_NUM
};
extern const char *sim_fault_names[F_NUM];

// ---- program generation (setup and single-threaded parts only) ----
int      sim_choose (int n);                 // [0,n)
int      sim_range (int lo, int hi);         // [lo,hi]
int      sim_chance (int num, int den);      // true with probability num/den

// ---- faults ----
// Draws from the fault stream: 0 = no fault, else 1..nkinds
int      sim_fault (int kind, int nkinds);
void     sim_fault_rate (int kind, double p);  // enable a fault kind for this run
void     sim_fault_fired (int kind);           // count a fault the workload itself injected

// ---- scheduling, time ----
void     sim_point (void);                   // explicit scheduling point
int64_t  sim_now_us (void);
uint64_t sim_seq (void);                     // global event sequence number
int      sim_self (void);                    // simulated thread id
int      sim_active (void);
void     sim_set_nprocs (int n);
void     sim_sleep_us (int64_t us);

// run the default main context until pred() or until nothing in the whole system can make progress;
// returns 1 if pred became true
int      sim_run_until (int (*pred)(void *), void *data);
// run until nothing can happen any more (all timers fired, all I/O delivered, all threads blocked)
void     sim_quiesce (void);
// harness threads wake the main loop when they are done, except in runs in which nothing but the library may wake it
void     sim_wake_main (void);
void     sim_always_wake (void);             // not in this workload
// timers beyond this instant are not waited for by the two functions above
void     sim_horizon_us (int64_t us);
// the clock jumps ahead, as it does for a process that was not running for a while
void     sim_clock_jump_us (int64_t us);
// stop injecting faults and adversarial scheduling: bounded-liveness phase
void     sim_calm (void);

// ---- verdicts, recording ----
void     sim_violation (const char *cls, const char *fmt, ...) __attribute__((noreturn, format (printf, 2, 3)));
#define SIM_CHECK(cls, cond, ...) do { if (!(cond)) sim_violation (cls, __VA_ARGS__); } while (0)
void     sim_event (uint64_t v);             // folded into the run's event hash
void     sim_probe (const char *name);       // "this rare condition was reached"
void     sim_note (const char *fmt, ...) __attribute__((format (printf, 1, 2)));  // description of the run (samples)
void     sim_eval (void);                    // counts an oracle evaluation
void     sim_expect_log (const char *substr);  // a critical/warning containing this is allowed (harness-provoked)
int      sim_verbose (void);
void     sim_trace (const char *fmt, ...) __attribute__((format (printf, 1, 2)));
int      sim_thread_total (void);            // ids given out so far
int      sim_thread_ended (int id);
int      sim_thread_count_alive (void);      // simulated threads not yet finished

// ---- simulated files and kernel log (C17) ----
typedef struct SimIo {
  int write, fd; uint64_t off; void *buf; uint64_t len;
  int64_t res;          // bytes or -errno, INT64_MIN while in flight
  int tid; int seq;
  int done_seq;         // order in which the kernel performed them, -1 while in flight
} SimIo;
int      sim_file_new (uint64_t size);       // memfd filled with a pattern; faults apply to it
int      sim_io_count (void);
int      sim_map_count (void);               // memory mappings (stacks of fibers) libdex has
size_t   sim_below (const void *at);          // bytes below an address that can be used
int      sim_ring_count (void);              // rings that exist
const SimIo *sim_io_get (int i);

// ---- heap ----
int      sim_ptr_freed (const void *p);      // 1 if p points into a freed heap block
int      sim_reuse (void);                   // 1 if freed blocks are recycled in this run (then sim_ptr_freed means nothing)
void     sim_track_mark (void);              // DexObject census: objects created from here on
void     sim_leak_mark (void); int sim_leaks (char *out, size_t cap);   // memory that nothing refers to
void     sim_made_mark (void); int sim_made_left (char kind);         // 's'ources, 'c'ontexts that libdex made and that still exist
int      sim_track_live (char *names, size_t cap);
int      sim_track_live_type (const char *name);
void     sim_raise_signal (int signum);      // deliver to the running thread now
void     sim_start_glib_worker (void);         // the thread that runs GLib's worker context, which passes signals on
void     sim_signal_later (int signum, int after_points);   // deliver on whichever thread runs then
int      sim_uring (void);                   // 1 if the io_uring backend is in use

#ifdef __cplusplus
}
#endif

#ifdef __cplusplus
typedef void (*SimWorkloadFn)(void);
struct SimWorkload { const char *prop; SimWorkloadFn fn; SimWorkload *next; SimWorkload (const char *p, SimWorkloadFn f); };
#define SIM_WORKLOAD(prop) static void wl_##prop (void); static SimWorkload wlreg_##prop (#prop, wl_##prop); static void wl_##prop (void)
#endif

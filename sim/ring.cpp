// A simulated io_uring kernel behind liburing's functions, and simulated files.
#include "sim_int.h"
#include <fcntl.h>
#include <vector>
#include <deque>
#include <liburing.h>

struct Op { uint8_t opcode; int fd; uint64_t off, addr; uint32_t len; uint64_t ud; int64_t due; int seq; bool waitfd; int dupfd; };
struct Ring {
  struct io_uring *r; int evfd; int owner; unsigned flags;
  std::vector<Op> inflight; std::deque<struct io_uring_cqe> overflow;
};
// the library initialises itself before static constructors of this file run
static std::vector<Ring *> *rings_p;
static std::vector<Ring *> &all_rings (void) { if (!rings_p) rings_p = new std::vector<Ring *> (); return *rings_p; }
#define rings (all_rings ())
static std::vector<SimIo> iolog;
uint64_t g_ring_submitted;
static std::vector<int> simfiles;

bool is_simfile (int fd) { for (int f : simfiles) if (f == fd) return true; return false; }
extern "C" int sim_file_new (uint64_t size)
{
  int fd = (int) syscall (SYS_memfd_create, "sim", 0);
  if (fd < 0) sim_internal_error ("memfd_create");
  std::vector<uint8_t> b (size);
  for (uint64_t i = 0; i < size; i++) b[i] = (uint8_t) (i * 131 + (i >> 8) * 7 + 3);
  if (size && syscall (SYS_pwrite64, fd, b.data (), size, 0) != (long) size) sim_internal_error ("memfd write");
  simfiles.push_back (fd);
  return fd;
}
extern "C" int sim_io_count (void) { return (int) iolog.size (); }
extern "C" const SimIo *sim_io_get (int i) { return &iolog[i]; }

static const int errs[] = { EIO, ENOSPC, EACCES, ECANCELED };
// the transfer itself, with the faults of a disk
static int64_t transfer (int fd, void *buf, uint64_t len, int64_t off, int write, int eintr_ok, int logidx)
{
  int64_t res; int e;
  if (eintr_ok && sim_fault (F_EINTR, 1)) res = -EINTR;
  else if ((e = sim_fault (F_IO_ERROR, 4))) res = -errs[e - 1];
  else
    {
      uint64_t n = len; int s;
      if (len > 1 && (s = sim_fault (F_IO_SHORT, 3))) n = s == 1 ? len / 2 : s == 2 ? 1 : len - 1;
      long r;
      if (off < 0) r = write ? syscall (SYS_write, fd, buf, n) : syscall (SYS_read, fd, buf, n);
      else r = write ? syscall (SYS_pwrite64, fd, buf, n, off) : syscall (SYS_pread64, fd, buf, n, off);
      res = r < 0 ? -errno : r;
    }
  static int done; iolog[logidx].res = res; iolog[logidx].done_seq = done++;
  return res;
}
static int log_op (int fd, void *buf, uint64_t len, int64_t off, int write)
{
  Internal guard;
  SimIo io; memset (&io, 0, sizeof io);
  io.write = write; io.fd = fd; io.off = off; io.buf = buf; io.len = len; io.res = INT64_MIN; io.done_seq = -1; io.tid = sim_self (); io.seq = (int) iolog.size ();
  iolog.push_back (io);
  return io.seq;
}
static int64_t delay_ns (void)
{
  int d = sim_fault (F_IO_DELAY, 6);
  static const int64_t t[] = { 0, 300, 2000, 20000, 1000000, 30000000, 3000000000ll };
  return t[d];
}
int64_t file_rw (int fd, void *buf, uint64_t len, int64_t off, int write)
{
  int i = log_op (fd, buf, len, off, write);
  int64_t d = delay_ns ();
  if (d) sim_sleep_us (d / 1000 ? d / 1000 : 1); else sim_pt (P_SYNC);
  return transfer (fd, buf, len, off, write, 1, i);
}

extern "C" int sim_ring_count (void) { return (int) rings.size (); }
static Ring *find (struct io_uring *r) { for (Ring *x : rings) if (x->r == r) return x; return NULL; }
static void post (Ring *R, const Op &op, int res)
{
  if (g_verbose) sim_trace ("kernel: operation %d on %d done, result %d", op.opcode, op.fd, res);
  struct io_uring *r = R->r; unsigned tail = *r->cq.ktail;
  struct io_uring_cqe c; memset (&c, 0, sizeof c); c.user_data = op.ud; c.res = res;
  if (tail - *r->cq.khead >= r->cq.ring_entries || !R->overflow.empty ())
    { R->overflow.push_back (c); __atomic_or_fetch (r->sq.kflags, IORING_SQ_CQ_OVERFLOW, __ATOMIC_SEQ_CST); sim_probe ("cq_overflow"); }
  else
    {
      r->cq.cqes[tail & r->cq.ring_mask] = c;
      __atomic_store_n (r->cq.ktail, tail + 1, __ATOMIC_RELEASE);
    }
  if (R->evfd >= 0) { uint64_t one = 1; (void) !syscall (SYS_write, R->evfd, &one, 8); g_fd_dirty = true; }
}
static void flush_overflow (Ring *R)
{
  struct io_uring *r = R->r;
  while (!R->overflow.empty ())
    {
      unsigned tail = *r->cq.ktail;
      if (tail - *r->cq.khead >= r->cq.ring_entries) return;
      r->cq.cqes[tail & r->cq.ring_mask] = R->overflow.front (); R->overflow.pop_front ();
      __atomic_store_n (r->cq.ktail, tail + 1, __ATOMIC_RELEASE);
    }
  __atomic_and_fetch (r->sq.kflags, ~IORING_SQ_CQ_OVERFLOW, __ATOMIC_SEQ_CST);
}
static bool fd_ready (int fd, short ev) { struct pollfd p = { fd, ev, 0 }; return syscall (SYS_poll, &p, 1, 0) != 0; }
static bool perform (Ring *R, Op &op)   // true if completed
{
  int write = op.opcode == IORING_OP_WRITE;
  int64_t res;
  if (op.opcode == IORING_OP_NOP) res = 0;
  else if (op.opcode != IORING_OP_READ && op.opcode != IORING_OP_WRITE) res = -EINVAL;
  else if (syscall (SYS_fcntl, op.fd, F_GETFD) < 0) res = -EBADF;
  else if (op.seq >= 0) res = transfer (op.fd, (void *) op.addr, op.len, op.off == (uint64_t) -1 ? -1 : (int64_t) op.off, write, 0, op.seq);
  else
    {
      if (!fd_ready (op.fd, write ? POLLOUT : POLLIN)) { if (g_verbose) sim_trace ("kernel: operation %d on %d waits", op.opcode, op.fd); op.waitfd = true; return false; }
      if (shadow_at ((void *) op.addr) == SHD_FREED && !write && op.seq >= 0)
        sim_violation ("memory:kernel-write-after-free", "an asynchronous read completes into a released buffer");
      long r = write ? syscall (SYS_write, op.fd, op.addr, op.len) : syscall (SYS_read, op.fd, op.addr, op.len);
      res = r < 0 ? -errno : r;
      if (res == -EAGAIN) { op.waitfd = true; return false; }
    }
  post (R, op, (int) res);
  if (op.dupfd >= 0) syscall (SYS_close, op.dupfd);
  return true;
}
bool ring_deliver_due (int64_t now)
{
  bool any = false;
  for (Ring *R : rings)
    for (size_t i = 0; i < R->inflight.size ();)
      {
        Op &op = R->inflight[i];
        if (op.due <= now && !op.waitfd)
          {
            if (perform (R, op)) { if (i > 0) SH->fired[F_IO_REORDER]++; R->inflight.erase (R->inflight.begin () + i); any = true; continue; }
          }
        i++;
      }
  return any;
}
int64_t ring_next_due (void)
{
  int64_t m = INT64_MAX;
  for (Ring *R : rings) for (Op &op : R->inflight) if (!op.waitfd && op.due < m) m = op.due;
  return m;
}
void ring_fd_activity (void)
{
  for (Ring *R : rings)
    for (size_t i = 0; i < R->inflight.size ();)
      {
        Op &op = R->inflight[i];
        if (op.waitfd) { op.waitfd = false; if (perform (R, op)) { R->inflight.erase (R->inflight.begin () + i); continue; } }
        i++;
      }
}

extern "C" {
int io_uring_queue_init_params (unsigned entries, struct io_uring *r, struct io_uring_params *p)
{
  if (!g_backend_uring) return -ENOSYS;
  sim_pt (P_SYNC);
  int f = sim_fault (F_RING_INIT, 3);
  if (f) return f == 1 ? -ENOMEM : f == 2 ? -EPERM : -EMFILE;
  unsigned sqn = 1; while (sqn < entries) sqn *= 2;
  unsigned cqn = sqn * 2;
  memset (r, 0, sizeof *r);
  unsigned *k = (unsigned *) calloc (16, sizeof (unsigned));
  r->sq.khead = k; r->sq.ktail = k + 1; r->sq.kflags = k + 2; r->sq.kdropped = k + 3;
  r->cq.khead = k + 4; r->cq.ktail = k + 5; r->cq.kflags = k + 6; r->cq.koverflow = k + 7;
  r->sq.array = (unsigned *) calloc (sqn, sizeof (unsigned));
  for (unsigned i = 0; i < sqn; i++) r->sq.array[i] = i;
  r->sq.sqes = (struct io_uring_sqe *) calloc (sqn, sizeof (struct io_uring_sqe));
  r->cq.cqes = (struct io_uring_cqe *) calloc (cqn, sizeof (struct io_uring_cqe));
  r->sq.ring_mask = sqn - 1; r->sq.ring_entries = sqn; r->cq.ring_mask = cqn - 1; r->cq.ring_entries = cqn;
  k[8] = sqn - 1; k[9] = sqn; k[10] = cqn - 1; k[11] = cqn;
  r->sq.kring_mask = k + 8; r->sq.kring_entries = k + 9; r->cq.kring_mask = k + 10; r->cq.kring_entries = k + 11;
  r->flags = p ? p->flags : 0; r->ring_fd = -1; r->enter_ring_fd = -1;
  Ring *R = new Ring (); R->r = r; R->evfd = -1; R->owner = sim_self () < 0 ? 0 : sim_self (); R->flags = r->flags;
  rings.push_back (R);
  return 0;
}
int io_uring_queue_init (unsigned entries, struct io_uring *r, unsigned flags)
{
  struct io_uring_params p; memset (&p, 0, sizeof p); p.flags = flags;
  return io_uring_queue_init_params (entries, r, &p);
}
void io_uring_queue_exit (struct io_uring *r)
{
  for (size_t i = 0; i < rings.size (); i++)
    if (rings[i]->r == r)
      {
        if (rings[i]->inflight.size ()) sim_probe ("ring_exit_with_inflight");
        for (Op &op : rings[i]->inflight) if (op.dupfd >= 0) syscall (SYS_close, op.dupfd);
        free (r->sq.khead); free (r->sq.array); free (r->sq.sqes); free (r->cq.cqes);
        delete rings[i]; rings.erase (rings.begin () + i);
        return;
      }
  // the real one would close whatever descriptor number the structure holds, usually 0
  sim_violation ("ring:never-set-up", "io_uring_queue_exit() on a ring that was never set up or was already released");
}
static bool wrong_task (Ring *R)
{
  int me = sim_self () < 0 ? 0 : sim_self ();
#ifdef IORING_SETUP_SINGLE_ISSUER
  return (R->flags & IORING_SETUP_SINGLE_ISSUER) && me != R->owner;
#else
  return false;
#endif
}
int io_uring_register_eventfd (struct io_uring *r, int fd)
{
  Ring *R = find (r); if (!R) return -EBADF;
  if (wrong_task (R)) return -EEXIST;
  if (sim_fault (F_RING_REG, 1)) return -ENOMEM;
  R->evfd = fd; return 0;
}
int io_uring_unregister_eventfd (struct io_uring *r) { Ring *R = find (r); if (!R) return -EBADF; R->evfd = -1; return 0; }
int io_uring_register_ring_fd (struct io_uring *r)
{
  Ring *R = find (r); if (!R) return -EBADF;
  if (wrong_task (R)) return -EEXIST;
  if (sim_fault (F_RING_REG, 1)) return -ENOMEM;
  return 1;
}
int io_uring_submit (struct io_uring *r)
{
  Ring *R = find (r); if (!R) return -EBADF;
  sim_pt (P_SYNC);
  struct io_uring_sq *sq = &r->sq;
  *sq->ktail = sq->sqe_tail; sq->sqe_head = sq->sqe_tail;
  unsigned n = *sq->ktail - *sq->khead;
  if (wrong_task (R)) { sim_probe ("submit_from_wrong_task"); return -EEXIST; }
  flush_overflow (R);
  if (n)
    {
      int f = sim_fault (F_SUBMIT, 3);
      if (f == 1) return -EAGAIN;
      if (f == 2) return -EBUSY;
      if (f == 3 && n > 1) n = 1;
    }
  for (unsigned i = 0; i < n; i++)
    {
      struct io_uring_sqe *e = &sq->sqes[(*sq->khead) & sq->ring_mask];
      Op op; memset (&op, 0, sizeof op);
      op.opcode = e->opcode; op.fd = e->fd; op.off = e->off; op.addr = e->addr; op.len = e->len; op.ud = e->user_data; op.seq = -1;
      op.due = sim_now_ns () + delay_ns ();
      bool write = op.opcode == IORING_OP_WRITE;
      op.dupfd = -1;
      // like the kernel, hold on to the open file and not to the number
      if (!is_simfile (op.fd)) { op.dupfd = (int) syscall (SYS_dup, op.fd); if (op.dupfd >= 0) op.fd = op.dupfd; }
      if (is_simfile (op.fd)) op.seq = log_op (op.fd, (void *) op.addr, op.len, (int64_t) op.off, write);
      __atomic_store_n (sq->khead, *sq->khead + 1, __ATOMIC_RELEASE);
      if (g_verbose) sim_trace ("kernel: operation %d on %d taken, due %lld", op.opcode, op.fd, (long long) op.due);
      R->inflight.push_back (op); g_ring_submitted++;
      sim_deadline_hint (op.due);
    }
  sim_pt (P_SYNC);
  return (int) n;
}
int io_uring_submit_and_wait (struct io_uring *r, unsigned) { return io_uring_submit (r); }
int __io_uring_get_cqe (struct io_uring *r, struct io_uring_cqe **c, unsigned submit, unsigned wait_nr, sigset_t *)
{
  Ring *R = find (r); *c = NULL; if (!R) return -EBADF;
  sim_pt (P_SYNC);
  flush_overflow (R);
  unsigned h = *r->cq.khead;
  if (*r->cq.ktail != h) { *c = &r->cq.cqes[h & r->cq.ring_mask]; return 0; }
  return -EAGAIN;
}
}

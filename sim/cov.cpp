// Development: which basic blocks of libdex the runs execute (make COV=1; DEXSIM_COV=FILE; tools/cov.py lists the rest).
#include "sim_int.h"
#include <fcntl.h>
#include <sys/mman.h>
static unsigned char *map; enum { BASE = 0x400000, LEN = 1 << 20 };
extern "C" void __sanitizer_cov_trace_pc (void)
{
  uintptr_t pc = (uintptr_t) __builtin_return_address (0) - BASE;
  if (map && pc < LEN) map[pc] = 1;
}
__attribute__ ((constructor)) static void cov_open (void)
{
  const char *f = getenv ("DEXSIM_COV"); if (!f) return;
  int fd = open (f, O_RDWR | O_CREAT, 0644); if (fd < 0 || ftruncate (fd, LEN)) return;
  void *m = mmap (NULL, LEN, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (m != MAP_FAILED) map = (unsigned char *) m;
  close (fd);
}

// Chosen before any constructor of libdex runs (libdex picks its AIO backend when the program starts).
#include "sim_int.h"
int g_backend_uring;
__attribute__((constructor (101))) static void pick_backend (void)
{
  const char *e = getenv ("DEXSIM_URING");
  g_backend_uring = !e || e[0] == '1';
}

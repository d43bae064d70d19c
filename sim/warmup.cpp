// Once per process, before any run: everything that is created lazily and then lives for ever, and the list of
// event descriptors that every run replaces by fresh ones.
#include "sim_int.h"
#include <fcntl.h>
#include <libdex.h>
#include <gio/gio.h>
#include <sys/eventfd.h>
#include <vector>

GType val_box_type (void); GType val_enum_type (void); GType val_flags_type (void);
struct EvFd { int fd, cloexec, flags; };
static std::vector<EvFd> evfds;
extern "C" void sim_zygote_warmup (void)
{
  g_type_ensure (G_TYPE_CANCELLABLE); g_type_ensure (G_TYPE_TASK); g_type_ensure (G_TYPE_ERROR); g_type_ensure (G_TYPE_ASYNC_RESULT);
  g_type_ensure (G_TYPE_MEMORY_INPUT_STREAM); g_type_ensure (G_TYPE_MEMORY_OUTPUT_STREAM); g_type_ensure (G_TYPE_BYTES); g_type_ensure (G_TYPE_VARIANT);
  g_object_unref (g_cancellable_new ());
  g_type_class_ref (val_enum_type ()); g_type_class_ref (val_flags_type ()); val_box_type ();
  dex_unref (dex_future_new_for_boolean (TRUE)); dex_unref (dex_future_new_for_boolean (FALSE));
  g_type_class_ref (DEX_TYPE_FIBER);   // has a static future
  g_quark_from_static_string ("g-io-error-quark"); (void) g_io_error_quark ();
  (void) g_get_monotonic_time ();
  g_free (g_strdup_printf ("%d", 1));
  for (int fd = 3; fd < 64; fd++)
    {
      char p[64], l[64]; snprintf (p, sizeof p, "/proc/self/fd/%d", fd);
      ssize_t n = readlink (p, l, sizeof l - 1); if (n <= 0) continue; l[n] = 0;
      if (strstr (l, "eventfd")) evfds.push_back ({ fd, fcntl (fd, F_GETFD), fcntl (fd, F_GETFL) });
    }
}
void sim_fresh_eventfds (void)
{
  for (auto &e : evfds)
    {
      int n = (int) syscall (SYS_eventfd2, 0, EFD_CLOEXEC | (e.flags & O_NONBLOCK));
      if (n < 0 || syscall (SYS_dup3, n, e.fd, e.cloexec & FD_CLOEXEC ? O_CLOEXEC : 0) < 0) sim_internal_error ("eventfd");
      syscall (SYS_close, n);
    }
}

#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef struct ShimWeak ShimWeak;
void *shim_object_new (void (*cb) (void *), void *data);
void *shim_object_data (void *o);
ShimWeak *shim_weak_new (void *o);
void shim_weak_set (ShimWeak *w, void *o);
void *shim_weak_get (ShimWeak *w);
void shim_weak_clear (ShimWeak *w);
struct _DexAioContext *shim_main_aio_context (void);
void *shim_semaphore_new (void);
void shim_semaphore_post (void *s);
void shim_semaphore_post_many (void *s, unsigned n);
DexFuture *shim_semaphore_wait (void *s);
void shim_semaphore_close (void *s);
#ifdef __cplusplus
}
#endif

// Read/write harness with background writers on virtual threads (C17, C20).
// ops and cfg as in h_io.c; dev bounds preemptions and kernel deviations together
// WRAP: pthread_create pthread_detach pthread_join pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
#define mc_setup io_setup
#include "h_io.c"
#undef mc_setup
#include "vth.h"
static void (*reset0)(void);
static void treset(void) { vth_reset(); reset0(); }
static ssize_t twrite(int fd, const void *b, size_t n) { v_point("write"); ssize_t r = vk_write(fd, b, n); int e = errno; mc_progress(); v_point("write"); errno = e; return r; }
static ssize_t tsend(int fd, const void *b, size_t n, int fl) { (void)fl; return twrite(fd, b, n); }
static void tend(void) { if (vth_left()) mc_fail("C20,C29", "a thread is left at the end of the runtime"); }
void mc_setup(void) {
    io_setup(); vth_setup();
    reset0 = mc_hooks.reset; mc_hooks.reset = treset; mc_hooks.write = twrite; mc_hooks.send = tsend; mc_hooks.end = tend;
}

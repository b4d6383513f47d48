// Dialing and serving by host name: the network harness with the resolver on a virtual thread (C27).
// ops and cfg as in h_net.c (address 5 is a host name); dev bounds preemptions and kernel deviations together
// WRAP: getaddrinfo freeaddrinfo pthread_create pthread_detach pthread_join pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
#include "prog.h"
#include "vth.h"
#define NET_POINT(x) do { if (vcur != 0) v_point(x); } while (0)
#define NET_RTTHREAD (vcur == 0)
#define NET_NOTHREADS 0
#define mc_setup net_setup
#include "h_net.c"
#undef mc_setup
static char pipesync;
static void (*reset0)(void);
static void treset(void) { vth_reset(); reset0(); }
#define PIPE 7777
static int n_pipe(int *f) {
    int k = 0; for (int i = 0; i < LIS && k < 2; i++) if (!vk[i].open) { memset(&vk[i], 0, offsetof(struct vfd, log)); f[k++] = VKBASE+i; vk[i].open = true; vk[i].type = PIPE; vk[i].fl = O_RDWR; }
    if (k < 2) mc_abandon();
    vk[f[0]-VKBASE].a = -1; vk[f[1]-VKBASE].a = f[0]-VKBASE; vk[f[1]-VKBASE].space = 64; vk[f[0]-VKBASE].b = f[1]-VKBASE; return 0;
}
static unsigned char pipebyte(int f, int k) { return vk[f].log[k]; }
static ssize_t n_write(int fd, const void *b, size_t n) {
    struct vfd *v = vkf(fd); if (!v || v->type != PIPE) return vk_write(fd, b, n);
    v_point("pwrite");
    if (!v->open || v->a < 0 || !vk[v->a].open) { mc_fail("C27,C28", "the resolver writes to a closed pipe"); errno = EPIPE; return -1; }
    vc_rel(v_obj(&pipesync)); memcpy(vk[v->a].log+vk[v->a].arr, b, n); vk[v->a].arr += (int)n; mc_progress(); v_poke(); v_point("pwrite"); return (ssize_t)n;
}
static ssize_t n_read(int fd, void *b, size_t n) { ssize_t r = vk_read(fd, b, n); if (r > 0 && vkf(fd) && vkf(fd)->type == PIPE) vc_acq(v_obj(&pipesync)); return r; }
static int n_close(int fd) { struct vfd *v = vkf(fd); if (v && v->open && v->type == PIPE && v->a >= 0) vk[v->a].eof = true; int r = vk_close(fd); if (v && v->type == PIPE) { mc_progress(); v_poke(); } return r; }
static void tend(void) {
    v_drain();
    if (vth_left()) mc_fail("C27,C28,C29", "a resolver thread outlives its answer");
    for (int i = 0; i < nR; i++) if (R[i].live) mc_fail("C27,C28,C29", "a resolver result is never released");
    if (mc_nfd) mc_fail("C27,C28,C29", "%zu descriptors are left open", mc_nfd);
    if (mc_nlive) mc_fail("C27,C28,C29", "%zu allocations are left", mc_nlive);
}
void mc_setup(void) {
    net_setup(); vth_setup();
    reset0 = mc_hooks.reset; mc_hooks.reset = treset; mc_hooks.write = n_write; mc_hooks.read = n_read; mc_hooks.pipe = n_pipe; mc_hooks.close = n_close; vk_in = pipebyte; mc_hooks.end = tend;
}

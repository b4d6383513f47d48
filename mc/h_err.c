// Misuse harness (C25): the table of public calls with their refusals.
// cfg: ctx = 0 outside of a runtime, 1 inside of a coroutine, 2 outside after a runtime ended, 3 in a generator, 4 inside of a later runtime than that of the objects; len = calls in a row; panic = 1 panic-on-error mode
// cfg: odd = also the calls that succeed, at every position of the sequence
// WRAP: popen dlopen dlsym dlclose
#include "mc.h"
#include <netdb.h>
#include <fcntl.h>
#include <limits.h>
FILE *__wrap_popen(const char *c, const char *t) { (void)c; (void)t; return NULL; }
static void fake_arc4(void *p, size_t n) { memset(p, 0x5a, n); }
void *__wrap_dlopen(const char *n, int f) { (void)n; (void)f; return (void*)1; }
void *__wrap_dlsym(void *h, const char *n) { (void)h; (void)n; return (void*)fake_arc4; }
int __wrap_dlclose(void *h) { (void)h; return 0; }
static int ctx, len, panicmode;
static neco_chan *ch, *ch2, *chnil; static neco_gen *gen; static neco_stream *st, *bst;
static union { neco_mutex mu; char b[128]; } mu, dead; static neco_cond cond; static neco_waitgroup wg;
static int fds[2], flagfd, sockfd; static char longpath[140]; static neco_stats stats; static int64_t self, other; static int iv; static bool bv; static struct addrinfo *res;
static char dummy[1024]; static void *nav[1]; static neco_chan *two[2]; static int64_t oldseed; static neco_gen *ngen; static neco_chan *nch; static neco_stream *nst;
static bool expect_panic; static const char *cur;
static void noco(int a, void **v) { (void)a; (void)v; }
static void nowork(void *u) { (void)u; }
#define ANY 1000            // any of INVAL, PERM
#define NA 1001             // not called in this context
#define NONNEG 1002
#define SYS(e) (2000+(e))   // -1 with errno e
#define GAI(e) (4000+(e)+100)
struct row { const char *name; int in, out; };
#define ROWS(X) \
 X(neco_start(NULL, 0), NECO_INVAL, NECO_INVAL) X(neco_start(noco, -1), NECO_INVAL, NECO_INVAL) X(neco_startv(NULL, 0, NULL), NECO_INVAL, NECO_INVAL) X(neco_startv(noco, -1, nav), NECO_INVAL, NECO_INVAL) X(neco_start(NULL, -5), NECO_INVAL, NECO_INVAL) \
 X(neco_yield(), NECO_OK, NECO_PERM) X(neco_sleep(1), NECO_OK, NECO_PERM) X(neco_sleep_dl(vt_now+1), NECO_OK, NECO_PERM) X(neco_sleep(INT64_MAX), NA, NECO_PERM) \
 X(neco_join(self), NECO_PERM, NECO_PERM) X(neco_join_dl(self, vt_now+MS), NECO_PERM, NECO_PERM) X(neco_join(999999), NECO_OK, NECO_PERM) X(neco_join(-1), NECO_OK, NECO_PERM) X(neco_join_dl(999999, vt_now-1), NECO_OK, NECO_PERM) X(neco_join(0), NECO_OK, NECO_PERM) \
 X(neco_suspend(), NA, NECO_PERM) X(neco_suspend_dl(vt_now+MS), NA, NECO_PERM) X(neco_resume(999999), NECO_NOTFOUND, NECO_PERM) X(neco_resume(self), NECO_NOTSUSPENDED, NECO_PERM) X(neco_resume(0), NECO_NOTFOUND, NECO_PERM) X(neco_resume(other), NECO_NOTSUSPENDED, NECO_PERM) \
 X(neco_getid(), NONNEG, NECO_PERM) X(neco_lastid(), NONNEG, NECO_PERM) X(neco_starterid(), NONNEG, NECO_PERM) X(neco_now(), NONNEG, NECO_PERM) X(neco_is_main_thread(), NONNEG, NECO_PERM) \
 X(neco_chan_make(NULL, 1, 1), NECO_INVAL, ANY) X(neco_chan_make(&nch, (size_t)INT_MAX+1, 0), NECO_INVAL, ANY) X(neco_chan_make(&nch, 1, (size_t)INT_MAX+1), NECO_INVAL, ANY) X(neco_chan_make(&nch, SIZE_MAX, SIZE_MAX), NECO_INVAL, ANY) X(neco_chan_make(&nch, 1, 1), NA, NECO_PERM) \
 X(neco_chan_retain(NULL), NECO_INVAL, ANY) X(neco_chan_release(NULL), NECO_INVAL, ANY) X(neco_chan_retain(ch), NA, NECO_PERM) X(neco_chan_release(ch), NA, NECO_PERM) \
 X(neco_chan_send(NULL, dummy), NECO_INVAL, ANY) X(neco_chan_send_dl(NULL, dummy, vt_now+MS), NECO_INVAL, ANY) X(neco_chan_broadcast(NULL, dummy), NECO_INVAL, ANY) X(neco_chan_recv(NULL, dummy), NECO_INVAL, ANY) X(neco_chan_recv_dl(NULL, dummy, vt_now-1), NECO_INVAL, ANY) X(neco_chan_tryrecv(NULL, dummy), NECO_INVAL, ANY) X(neco_chan_close(NULL), NECO_INVAL, ANY) \
 X(neco_chan_send(ch, dummy), NA, NECO_PERM) X(neco_chan_send_dl(ch, dummy, vt_now+MS), NA, NECO_PERM) X(neco_chan_broadcast(ch, dummy), NONNEG, NECO_PERM) X(neco_chan_recv(ch, dummy), NA, NECO_PERM) X(neco_chan_recv_dl(ch, dummy, vt_now+MS), NA, NECO_PERM) X(neco_chan_tryrecv(ch2, dummy+512), NECO_EMPTY, NECO_PERM) X(neco_chan_close(ch), NA, NECO_PERM) \
 X(neco_chan_recv_dl(ch2, dummy+512, vt_now-1), NECO_TIMEDOUT, NECO_PERM) X(neco_chan_send_dl(ch2, dummy, vt_now-1), NECO_TIMEDOUT, NECO_PERM) \
 X(neco_chan_select(-1), NECO_INVAL, ANY) X(neco_chan_select_dl(vt_now+MS, -1), NECO_INVAL, ANY) X(neco_chan_selectv(-1, two), NECO_INVAL, ANY) X(neco_chan_selectv_dl(-7, two, vt_now+MS), NECO_INVAL, ANY) X(neco_chan_tryselect(-1), NECO_INVAL, ANY) X(neco_chan_tryselectv(-1, two), NECO_INVAL, ANY) \
 X(neco_chan_select(2, ch, chnil), NECO_INVAL, ANY) X(neco_chan_selectv(2, two), NECO_INVAL, ANY) X(neco_chan_tryselect(1, chnil), NECO_INVAL, ANY) X(neco_chan_tryselect(3, ch, ch2, chnil), NECO_INVAL, ANY) X(neco_chan_tryselect(9, ch, ch2, ch, ch2, ch, ch2, ch, ch2, chnil), NECO_INVAL, ANY) X(neco_chan_select(1, ch), NA, NECO_PERM) X(neco_chan_tryselect(1, ch2), NECO_EMPTY, NECO_PERM) X(neco_chan_select_dl(vt_now-1, 1, ch2), NECO_TIMEDOUT, NECO_PERM) \
 X(neco_chan_case(NULL, dummy), NECO_INVAL, ANY) X(neco_chan_case(ch, dummy), NA, NECO_PERM) X(neco_chan_tryselect(0), NECO_EMPTY, NECO_PERM) \
 X(neco_gen_start(NULL, 4, noco, 0), NECO_INVAL, ANY) X(neco_gen_start(&ngen, (size_t)INT_MAX+1, noco, 0), NECO_INVAL, ANY) X(neco_gen_start(&ngen, 4, NULL, 0), NECO_INVAL, ANY) X(neco_gen_start(&ngen, 4, noco, -1), NECO_INVAL, ANY) X(neco_gen_startv(NULL, 4, noco, 0, nav), NECO_INVAL, ANY) X(neco_gen_startv(&ngen, 4, NULL, 0, nav), NECO_INVAL, ANY) X(neco_gen_startv(&ngen, 4, noco, -2, nav), NECO_INVAL, ANY) X(neco_gen_start(&ngen, 4, noco, 0), NA, NECO_PERM) X(neco_gen_startv(&ngen, 4, noco, 0, nav), NA, NECO_PERM) \
 X(neco_gen_retain(NULL), NECO_INVAL, ANY) X(neco_gen_release(NULL), NECO_INVAL, ANY) X(neco_gen_next(NULL, dummy), NECO_INVAL, ANY) X(neco_gen_next_dl(NULL, dummy, vt_now+MS), NECO_INVAL, ANY) X(neco_gen_close(NULL), NECO_INVAL, ANY) X(neco_gen_yield(dummy), NECO_NOTGENERATOR, NECO_PERM) X(neco_gen_yield_dl(dummy, vt_now+MS), NECO_NOTGENERATOR, NECO_PERM) \
 X(neco_gen_retain(gen), NA, NECO_PERM) X(neco_gen_release(gen), NA, NECO_PERM) X(neco_gen_next(gen, dummy), NA, NECO_PERM) X(neco_gen_next_dl(gen, dummy, vt_now+MS), NA, NECO_PERM) X(neco_gen_close(gen), NA, NECO_PERM) X(neco_gen_next_dl(gen, dummy, vt_now-1), NA, NECO_PERM) \
 X(neco_mutex_init(NULL), NECO_INVAL, ANY) X(neco_mutex_lock(NULL), NECO_INVAL, ANY) X(neco_mutex_lock_dl(NULL, vt_now+MS), NECO_INVAL, ANY) X(neco_mutex_trylock(NULL), NECO_INVAL, ANY) X(neco_mutex_unlock(NULL), NECO_INVAL, ANY) X(neco_mutex_rdlock(NULL), NECO_INVAL, ANY) X(neco_mutex_rdlock_dl(NULL, vt_now+MS), NECO_INVAL, ANY) X(neco_mutex_tryrdlock(NULL), NECO_INVAL, ANY) \
 X(neco_mutex_init(&mu.mu), NA, NECO_PERM) X(neco_mutex_lock(&mu.mu), NA, NECO_PERM) X(neco_mutex_lock_dl(&mu.mu, vt_now-1), NECO_TIMEDOUT, NECO_PERM) X(neco_mutex_trylock(&mu.mu), NECO_BUSY, NECO_PERM) X(neco_mutex_unlock(&mu.mu), NA, NECO_PERM) X(neco_mutex_rdlock(&mu.mu), NA, NECO_PERM) X(neco_mutex_rdlock_dl(&mu.mu, vt_now-1), NECO_TIMEDOUT, NECO_PERM) X(neco_mutex_tryrdlock(&mu.mu), NECO_BUSY, NECO_PERM) \
 X(neco_waitgroup_init(NULL), NECO_INVAL, ANY) X(neco_waitgroup_add(NULL, 1), NECO_INVAL, ANY) X(neco_waitgroup_done(NULL), NECO_INVAL, ANY) X(neco_waitgroup_wait(NULL), NECO_INVAL, ANY) X(neco_waitgroup_wait_dl(NULL, vt_now+MS), NECO_INVAL, ANY) \
 X(neco_waitgroup_init(&wg), NA, NECO_PERM) X(neco_waitgroup_add(&wg, 1), NA, NECO_PERM) X(neco_waitgroup_add(&wg, -2), NECO_NEGWAITGRP, NECO_PERM) X(neco_waitgroup_add(&wg, INT_MIN), NECO_NEGWAITGRP, NECO_PERM) X(neco_waitgroup_done(&wg), NA, NECO_PERM) X(neco_waitgroup_wait(&wg), NA, NECO_PERM) X(neco_waitgroup_wait_dl(&wg, vt_now-1), NECO_TIMEDOUT, NECO_PERM) \
 X(neco_cond_init(NULL), NECO_INVAL, ANY) X(neco_cond_signal(NULL), NECO_INVAL, ANY) X(neco_cond_broadcast(NULL), NECO_INVAL, ANY) X(neco_cond_wait(NULL, &mu.mu), NECO_INVAL, ANY) X(neco_cond_wait(&cond, NULL), NECO_INVAL, ANY) X(neco_cond_wait_dl(NULL, &mu.mu, vt_now+MS), NECO_INVAL, ANY) X(neco_cond_wait_dl(&cond, NULL, vt_now+MS), NECO_INVAL, ANY) \
 X(neco_cond_init(&cond), NA, NECO_PERM) X(neco_cond_signal(&cond), NECO_OK, NECO_PERM) X(neco_cond_broadcast(&cond), NECO_OK, NECO_PERM) X(neco_cond_wait(&cond, &mu.mu), NA, NECO_PERM) X(neco_cond_wait_dl(&cond, &mu.mu, vt_now-1), NECO_TIMEDOUT, NECO_PERM) \
 X(neco_read(-1, dummy, 4), SYS(EBADF), SYS(EPERM)) X(neco_read_dl(-1, dummy, 4, vt_now+MS), SYS(EBADF), SYS(EPERM)) X(neco_read_dl(fds[0], dummy, 4, vt_now-1), SYS(ETIMEDOUT), SYS(EPERM)) X(neco_write(-1, dummy, 4), SYS(EBADF), SYS(EPERM)) X(neco_write_dl(-1, dummy, 4, vt_now+MS), SYS(EBADF), SYS(EPERM)) X(neco_write_dl(fds[1], dummy, 4, vt_now-1), SYS(ETIMEDOUT), SYS(EPERM)) \
 X(neco_accept(-1, NULL, NULL), SYS(EBADF), SYS(EPERM)) X(neco_accept(fds[0], NULL, NULL), SYS(ENOTSOCK), SYS(EPERM)) X(neco_connect(-1, (void*)dummy, 16), SYS(EBADF), SYS(EPERM)) X(neco_connect_dl(-1, (void*)dummy, 16, vt_now-1), SYS(ETIMEDOUT), SYS(EPERM)) X(neco_accept_dl(fds[0], NULL, NULL, vt_now-1), SYS(ETIMEDOUT), SYS(EPERM)) \
 X(neco_read(fds[0], dummy, 4), NA, SYS(EPERM)) X(neco_write(fds[1], dummy, 4), NA, SYS(EPERM)) X(neco_wait(-1, NECO_WAIT_READ), SYS(EBADF), NECO_PERM) X(neco_wait(fds[0], 0), NECO_INVAL, ANY) X(neco_wait(fds[0], 3), NECO_INVAL, ANY) X(neco_wait(fds[0], -1), NECO_INVAL, ANY) X(neco_wait_dl(fds[0], 9, vt_now+MS), NECO_INVAL, ANY) X(neco_wait_dl(fds[0], NECO_WAIT_READ, vt_now-1), NECO_TIMEDOUT, NECO_PERM) X(neco_wait(fds[0], NECO_WAIT_READ), NA, NECO_PERM) \
 X(neco_setnonblock(-1, true, NULL), SYS(EBADF), SYS(EBADF)) X(neco_setnonblock(-1, false, &bv), SYS(EBADF), SYS(EBADF)) X(neco_setnonblock(flagfd, true, &bv), NECO_OK, NECO_OK) X(neco_setnonblock(flagfd, false, &bv), NECO_OK, NECO_OK) X(neco_setnonblock(flagfd, true, NULL), NECO_OK, NECO_OK) \
 X(neco_getaddrinfo("127.0.0.1", "80", NULL, &res), NA, GAI(EAI_SYSTEM)) X(neco_getaddrinfo_dl("127.0.0.1", "80", NULL, &res, vt_now-1), GAI(EAI_SYSTEM), GAI(EAI_SYSTEM)) X(neco_getaddrinfo("127.0.0.1", "no-such-service", NULL, &res), GAI(EAI_SERVICE), GAI(EAI_SYSTEM)) \
 X(neco_serve(NULL, "x"), NECO_INVAL, ANY) X(neco_serve("tcp", NULL), NECO_INVAL, ANY) X(neco_serve("nonet", "x"), NECO_INVAL, ANY) X(neco_serve("tcp", "noport"), NECO_INVAL, ANY) X(neco_dial(NULL, "x"), NECO_INVAL, ANY) X(neco_dial("tcp", NULL), NECO_INVAL, ANY) X(neco_dial("nonet", "x:1"), NECO_INVAL, ANY) X(neco_dial("tcp", "noport"), NECO_INVAL, ANY) X(neco_dial_dl("tcp", "noport", vt_now+MS), NECO_INVAL, ANY) X(neco_serve_dl("", "", vt_now+MS), NECO_INVAL, ANY) \
 X(neco_serve("tcp", ""), NECO_INVAL, ANY) X(neco_dial("tcp", ""), NECO_INVAL, ANY) X(neco_dial("unix", longpath), NECO_INVAL, ANY) X(neco_serve("unix", longpath), NECO_INVAL, ANY) X(neco_accept(sockfd, NULL, NULL), SYS(EINVAL), SYS(EPERM)) X(neco_serve("unix", "/nonexistent/s"), NA, NECO_PERM) X(neco_dial("unix", "/nonexistent/s"), NA, NECO_PERM) X(neco_serve("tcp", "127.0.0.1:0"), NA, NECO_PERM) X(neco_dial("tcp", "127.0.0.1:0"), NA, NECO_PERM) \
 X(neco_cancel(999999), NECO_NOTFOUND, NECO_PERM) X(neco_cancel_dl(999999, vt_now-1), NA, NECO_PERM) X(neco_cancel(-1), NECO_NOTFOUND, NECO_PERM) X(neco_cancel(0), NECO_NOTFOUND, NECO_PERM) \
 X(neco_setcanceltype(0, &iv), NECO_INVAL, ANY) X(neco_setcanceltype(NECO_CANCEL_ENABLE, &iv), NECO_INVAL, ANY) X(neco_setcanceltype(99, NULL), NECO_INVAL, ANY) X(neco_setcancelstate(0, &iv), NECO_INVAL, ANY) X(neco_setcancelstate(NECO_CANCEL_ASYNC, &iv), NECO_INVAL, ANY) X(neco_setcancelstate(-1, NULL), NECO_INVAL, ANY) X(neco_setcanceltype(NECO_CANCEL_INLINE, NULL), NECO_OK, NECO_PERM) X(neco_setcancelstate(NECO_CANCEL_ENABLE, NULL), NECO_OK, NECO_PERM) X(neco_setcanceltype(NECO_CANCEL_INLINE, &iv), NECO_OK, NECO_PERM) X(neco_setcancelstate(NECO_CANCEL_ENABLE, &iv), NECO_OK, NECO_PERM) \
 X(neco_rand(dummy, 4, 2), NECO_INVAL, ANY) X(neco_rand(dummy, 4, -1), NECO_INVAL, ANY) X(neco_rand(dummy, 4, NECO_PRNG), NA, NECO_PERM) X(neco_rand(dummy, 4, NECO_CSPRNG), NA, NECO_PERM) X(neco_rand_dl(dummy, 4, NECO_PRNG, vt_now-1), NECO_TIMEDOUT, NECO_PERM) X(neco_rand_setseed(4, &oldseed), NA, NECO_PERM) X(neco_rand_setseed(4, NULL), NA, NECO_PERM) \
 X(neco_signal_watch(0), NECO_INVAL, ANY) X(neco_signal_watch(-1), NECO_INVAL, ANY) X(neco_signal_watch(32), NECO_INVAL, ANY) X(neco_signal_unwatch(0), NECO_INVAL, ANY) X(neco_signal_unwatch(64), NECO_INVAL, ANY) X(neco_signal_wait(), NECO_NOSIGWATCH, NECO_PERM) X(neco_signal_wait_dl(vt_now+MS), NECO_NOSIGWATCH, NECO_PERM) X(neco_signal_watch(SIGUSR1), NA, NECO_PERM) X(neco_signal_unwatch(SIGUSR1), NECO_OK, NECO_PERM) \
 X(neco_work(-1, NULL, dummy), NECO_INVAL, ANY) X(neco_work(3, NULL, NULL), NECO_INVAL, ANY) X(neco_work(0, nowork, NULL), NA, NECO_PERM) X(neco_getstats(NULL), NECO_INVAL, ANY) X(neco_getstats(&stats), NECO_OK, NECO_PERM) \
 X(neco_stream_make(NULL, fds[0]), NECO_INVAL, ANY) X(neco_stream_make_buffered(NULL, fds[0]), NECO_INVAL, ANY) X(neco_stream_make(&nst, fds[0]), NA, NECO_PERM) X(neco_stream_make_buffered(&nst, fds[0]), NA, NECO_PERM) \
 X(neco_stream_read(NULL, dummy, 4), NECO_INVAL, ANY) X(neco_stream_write(NULL, dummy, 4), NECO_INVAL, ANY) X(neco_stream_readfull(NULL, dummy, 4), NECO_INVAL, ANY) X(neco_stream_read_byte(NULL), NECO_INVAL, ANY) X(neco_stream_unread_byte(NULL), NECO_INVAL, ANY) X(neco_stream_flush(NULL), NECO_INVAL, ANY) X(neco_stream_close(NULL), NECO_INVAL, ANY) X(neco_stream_buffered_read_size(NULL), NECO_INVAL, ANY) X(neco_stream_buffered_write_size(NULL), NECO_INVAL, ANY) \
 X(neco_stream_read_dl(NULL, dummy, 4, vt_now-1), NECO_INVAL, ANY) X(neco_stream_write_dl(NULL, dummy, 4, vt_now-1), NECO_INVAL, ANY) X(neco_stream_readfull_dl(NULL, dummy, 4, vt_now-1), NECO_INVAL, ANY) X(neco_stream_read_byte_dl(NULL, vt_now-1), NECO_INVAL, ANY) X(neco_stream_flush_dl(NULL, vt_now-1), NECO_INVAL, ANY) X(neco_stream_close_dl(NULL, vt_now-1), NECO_INVAL, ANY) \
 X(neco_stream_read(bst, dummy, 4), NA, NECO_PERM) X(neco_stream_write(bst, dummy, 4), NA, NECO_PERM) X(neco_stream_readfull(bst, dummy, 4), NA, NECO_PERM) X(neco_stream_read_byte(bst), NA, NECO_PERM) X(neco_stream_unread_byte(bst), NECO_UNREADFAIL, NECO_PERM) X(neco_stream_flush(bst), NECO_OK, NECO_PERM) X(neco_stream_close(bst), NA, NECO_PERM) X(neco_stream_buffered_read_size(bst), NONNEG, NECO_PERM) X(neco_stream_buffered_write_size(bst), NONNEG, NECO_PERM) X(neco_stream_unread_byte(st), NECO_UNREADFAIL, NECO_PERM) X(neco_stream_buffered_read_size(st), NECO_OK, NECO_PERM) X(neco_stream_buffered_write_size(st), NECO_OK, NECO_PERM)
#define STRUCTROW(e,i,o) { #e, i, o },
static int64_t callrow(int k) {
    int n = 0;
#define CALL(e,i,o) if (n++ == k) return (int64_t)(e);
    ROWS(CALL)
    return 0;
}
static struct row rows[] = { ROWS(STRUCTROW) };
#define NROWS ((int)(sizeof rows/sizeof rows[0]))
static bool fatal(int code) { return code == NECO_INVAL || code == NECO_PERM || code == NECO_NOMEM; }
static int want_code(int w) { return w >= 4000 ? NECO_GAIERROR : w >= 2000 ? (w-2000 == EPERM ? NECO_PERM : w-2000 == EINVAL ? NECO_INVAL : w-2000 == ETIMEDOUT ? NECO_TIMEDOUT : NECO_ERROR) : w >= 1000 ? 0 : w; }
static void aborted(void) {
    if (!expect_panic) mc_fail("C25", "%s ends the program", cur);
    mc_nontrivial(); mc_outcome(1); mc_abandon();
}
static void messages(void) {
    static const int codes[] = { NECO_OK, NECO_INVAL, NECO_PERM, NECO_NOMEM, NECO_EOF, NECO_NOTFOUND, NECO_NOSIGWATCH, NECO_CLOSED, NECO_EMPTY, NECO_TIMEDOUT, NECO_CANCELED, NECO_BUSY, NECO_NEGWAITGRP, NECO_UNREADFAIL, NECO_PARTIALWRITE, NECO_NOTGENERATOR, NECO_NOTSUSPENDED };
    int n = sizeof codes/sizeof codes[0]; char m[20][80];
    int le = neco_lasterr();
    for (int i = 0; i < n; i++) {
        const char *s = neco_strerror(codes[i]);
        if (!s || !*s || strstr(s, "ndefined")) { mc_fail("C25", "error code %d has no message", codes[i]); return; }
        snprintf(m[i], 80, "%s", s);
        for (int j = 0; j < i; j++) if (!strcmp(m[i], m[j])) mc_fail("C25", "error codes %d and %d have the same message", codes[i], codes[j]);
    }
    for (int e = 1; e < 100; e += 7) { errno = e; char a[100]; snprintf(a, 100, "%s", strerror(e)); errno = e; if (strcmp(neco_strerror(NECO_ERROR), a)) mc_fail("C25", "the message of a system error is not that of errno"); }
    const char *u = neco_strerror(-1000); if (!u || !strstr(u, "1000")) mc_fail("C25", "an unknown code has no message");
    if (neco_lasterr() != le) mc_fail("C25", "asking for a message changes the last error");
}
struct snap { neco_stats s; size_t live, fd, map; };
static struct snap snapshot(bool in) { struct snap s = { .live = mc_nlive, .fd = mc_nfd, .map = mc_nmap }; if (in) neco_getstats(&s.s); return s; }
static bool changed; static bool flagstate;
static bool foreign(const char *n) { return !strstr(n, "_init(") && !strstr(n, "_make") && (strstr(n, "(ch") || strstr(n, ", ch") || strstr(n, "two") || strstr(n, "(gen") || strstr(n, "&mu.mu") || strstr(n, "&wg") || strstr(n, "&cond") || strstr(n, "(st") || strstr(n, "(bst")); }
static void call_row(int k, bool in, bool gencx) {
    struct row *r = &rows[k]; int w = in && ctx != 4 ? r->in : r->out; cur = r->name;
    if (gencx && w == NECO_NOTGENERATOR) return;
    struct snap a = snapshot(in);
    memset(dummy, 0x3c, sizeof dummy); iv = 77; bool mine = k >= 0 && !strncmp(r->name, "neco_setnonblock(flagfd", 23);
    expect_panic = panicmode && (w == ANY || fatal(want_code(w)) || (w >= 4000 && !in));
    errno = 0;
    int64_t v = callrow(k); int e = errno, le = neco_lasterr();
    if (mc_verbose) mc_log("%s -> %ld (errno %d, last error %d)", r->name, (long)v, e, le);
    mc_outcome((uint64_t)(v+5000)*31+(uint64_t)k);
    if (expect_panic) mc_fail("C25", "%s returned in panic-on-error mode", r->name);
    if (w == ANY ? v != NECO_INVAL && v != NECO_PERM : w == NONNEG ? v < 0 : w >= 4000 ? v != w-4100 : w >= 2000 ? v != -1 || e != w-2000 : v != w)
        { mc_fail("C25", "%s %s a coroutine returned %ld (errno %d)", r->name, in ? "inside of" : "outside of", (long)v, e); return; }
    int wl = w == ANY ? (int)v : want_code(w);
    if (w < 4000 && le != wl) mc_fail("C25", "the last error after %s is %d instead of %d", r->name, le, wl);
    if (mine) flagstate = strstr(r->name, "true");
    struct snap b = snapshot(in);
    if (!mine && w != NONNEG && want_code(w) != 0) {
        mc_nontrivial();
        if (a.live != b.live || a.fd != b.fd || a.map != b.map) mc_fail("C25,C29", "%s was refused but acquired or released something", r->name);
        for (size_t i = 0; i < sizeof dummy; i++) if (dummy[i] != 0x3c) { mc_fail("C25", "%s was refused but wrote to the caller's memory", r->name); break; }
        if (iv != 77) mc_fail("C25", "%s was refused but reported an old value", r->name);
        if (in && !(gencx && !fatal(want_code(w))) && memcmp(&a.s, &b.s, sizeof a.s)) mc_fail("C25,C24", "%s was refused but changed the statistics", r->name);
    } else if (in && !gencx && memcmp(&a.s, &b.s, sizeof a.s)) mc_fail("C24,C25", "%s changed the statistics", r->name);
    bool fl = (fcntl(flagfd, F_GETFL) & O_NONBLOCK) != 0;
    if (fl != flagstate) mc_fail("C25", "the non-blocking state is wrong after %s", r->name);
    if ((fcntl(flagfd, F_GETFL) & O_APPEND) == 0) mc_fail("C25", "another flag of the descriptor changed after %s", r->name);
}
static void sequence(bool in, bool gencx) {
    int list[400], n = 0;
    for (int k = 0; k < NROWS; k++) if (ctx == 4 ? foreign(rows[k].name) : (in ? rows[k].in : rows[k].out) != NA) list[n++] = k;
    for (int i = 0; i < len; i++) { int k = mc_choose(n+(i > 0)); if (k == n) break; call_row(list[k], in, gencx); }
}
static void producer(int a, void **v) {
    (void)a; (void)v;
    int ot; neco_setcanceltype(NECO_CANCEL_INLINE, &ot);
    for (int x = 100; x < 104; x++) { if (ctx == 3 && x == 101) { int64_t o = self; self = neco_getid(); sequence(true, true); self = o; } if (neco_gen_yield(&x) != NECO_OK) return; }
}
static void sleeper(int a, void **v) { (void)a; (void)v; int ot; neco_setcanceltype(NECO_CANCEL_INLINE, &ot); neco_mutex_lock(&mu.mu); neco_sleep(3600*NECO_SECOND); neco_mutex_unlock(&mu.mu); }
#define OKAY(e) do { int64_t _v = (e); if (_v != NECO_OK) mc_fail("C25", "afterwards %s returned %ld", #e, (long)_v); } while (0)
static void second(int a, void **v) {
    (void)a; (void)v; int ot; neco_setcanceltype(NECO_CANCEL_INLINE, &ot);
    char m0[sizeof mu], c0[sizeof cond], w0[sizeof wg]; memcpy(m0, &mu, sizeof mu); memcpy(c0, &cond, sizeof cond); memcpy(w0, &wg, sizeof wg);
    void *ob[] = { ch, ch2, gen, st, bst }; char o0[5][48]; for (int i = 0; i < 5; i++) memcpy(o0[i], ob[i], 48);
    sequence(true, false);
    for (int i = 0; i < 5; i++) if (memcmp(o0[i], ob[i], 48)) mc_fail("C25,C21", "a refused call changed an object of another runtime");
    if (memcmp(m0, &mu, sizeof mu) || memcmp(c0, &cond, sizeof cond) || memcmp(w0, &wg, sizeof wg)) mc_fail("C25,C21", "a refused call changed an object of another runtime");
}
static void inside(int a, void **v) {
    (void)a; (void)v;
    int ot; neco_setcanceltype(NECO_CANCEL_INLINE, &ot);
    self = neco_getid();
    OKAY(neco_chan_make(&ch, 4, 2)); OKAY(neco_chan_make(&ch2, 4, 0)); two[0] = ch; two[1] = NULL; int x = 41; OKAY(neco_chan_send(ch, &x));
    OKAY(neco_gen_start(&gen, 4, producer, 0));
    OKAY(neco_start(sleeper, 0)); other = neco_lastid();
    OKAY(neco_waitgroup_init(&wg)); OKAY(neco_waitgroup_add(&wg, 1)); OKAY(neco_cond_init(&cond));
    OKAY(neco_stream_make(&st, fds[0])); OKAY(neco_stream_make_buffered(&bst, fds[1]));
    if (neco_wait_dl(fds[0], NECO_WAIT_READ, vt_now+MS) != NECO_TIMEDOUT) mc_fail("C25,C16", "a wait for a descriptor did not time out");
    if (ctx == 1) sequence(true, false);
    if (ctx == 4) { neco_cancel(other); while (neco_gen_next(gen, &x) == NECO_OK) {} return; }
    // nothing was changed
    x = 0; OKAY(neco_gen_next(gen, &x)); if (x != 100) mc_fail("C25", "a generator lost a value");
    OKAY(neco_gen_next(gen, &x)); if (x != 101) mc_fail("C25", "a generator lost a value");
    OKAY(neco_chan_recv(ch, &x)); if (x != 41) mc_fail("C25", "a channel lost its message");
    if (neco_chan_tryrecv(ch, &x) != NECO_EMPTY) mc_fail("C25", "a channel got a message");
    x = 7; OKAY(neco_chan_send(ch, &x)); x = 8; OKAY(neco_chan_send(ch, &x)); OKAY(neco_chan_recv(ch, &x));
    if (neco_mutex_trylock(&mu.mu) != NECO_BUSY) mc_fail("C25", "a mutex lost its owner");
    if (neco_waitgroup_wait_dl(&wg, vt_now+MS) != NECO_TIMEDOUT) mc_fail("C25", "a wait group lost its count");
    OKAY(neco_waitgroup_done(&wg)); OKAY(neco_waitgroup_wait(&wg));
    if (neco_getid() != self) mc_fail("C25", "the id of the coroutine changed");
    OKAY(neco_cancel(other)); OKAY(neco_join(other)); OKAY(neco_mutex_lock(&mu.mu)); OKAY(neco_mutex_unlock(&mu.mu));
    int tp = 0, sta = 0; OKAY(neco_setcanceltype(NECO_CANCEL_INLINE, &tp)); OKAY(neco_setcancelstate(NECO_CANCEL_ENABLE, &sta));
    if (tp != NECO_CANCEL_INLINE || sta != NECO_CANCEL_ENABLE) mc_fail("C25", "the cancelation type or state changed");
    OKAY(neco_gen_close(gen)); while (neco_gen_next(gen, &x) == NECO_OK) {} OKAY(neco_gen_release(gen)); OKAY(neco_chan_release(ch)); OKAY(neco_chan_release(ch2));
    messages();
    OKAY(neco_stream_close(st)); OKAY(neco_stream_close(bst));
}
static void openflag(void) { // a description of its own for every explorer process
    static pid_t owner; if (owner == getpid()) return;
    char t[] = "/tmp/mcerrXXXXXX"; if (owner) __real_close(flagfd);
    owner = getpid(); flagfd = mkstemp(t); if (flagfd >= 0) __real_unlink(t);
}
static void run(void) {
    openflag(); fcntl(flagfd, F_SETFL, O_APPEND); flagstate = false;
    if (__real_pipe(fds)) mc_abandon();
    if (panicmode) neco_env_setpaniconerror(true);
    if (ctx != 0) { expect_panic = false; cur = "the program"; if (ctx == 2) ctx = 5; int r = neco_start(inside, 0); if (ctx == 5) ctx = 2; if (r != NECO_OK) mc_fail("C25", "start returned %d", r); }
    if (ctx == 4) { int r = neco_start(second, 0); if (r != NECO_OK) mc_fail("C25", "start returned %d", r); if (panicmode) neco_env_setpaniconerror(false); mc_abandon(); }
    if (!ctx) { __real_close(fds[0]); __real_close(fds[1]); }
    if (ctx == 0 || ctx == 2) {
        ch = ch2 = (void*)dummy; gen = (void*)dummy; st = bst = (void*)dummy; two[0] = two[1] = ch; self = 1; other = 2;
        memset(&mu, 0, sizeof mu); memset(&cond, 0, sizeof cond); memset(&wg, 0, sizeof wg);
        sequence(false, false); messages();
        for (size_t i = 0; i < sizeof mu; i++) if (mu.b[i]) { mc_fail("C25", "a refused call changed a mutex"); break; }
    }
    if (panicmode) neco_env_setpaniconerror(false);
}
static void quiesce(void) { mc_fail("C25", "the program hangs after %s", cur); mc_abandon(); }
static void reset(void) { ch = ch2 = nch = NULL; gen = ngen = NULL; st = bst = nst = NULL; memset(&mu, 0, sizeof mu); memset(&cond, 0, sizeof cond); memset(&wg, 0, sizeof wg); res = NULL; expect_panic = false; (void)changed; (void)dead; }
void mc_setup(void) {
    ctx = mc_cfg("ctx", 1); len = mc_cfg("len", 2); panicmode = mc_cfg("panic", 0);
    mc_hooks.run = run; mc_hooks.reset = reset; mc_hooks.aborted = aborted; mc_hooks.quiesce = quiesce; mc_notrack = 2;
    sockfd = __real_socket(AF_UNIX, SOCK_STREAM, 0); memset(longpath, 'a', 139); memcpy(longpath, "/nonexistent/", 13);
    openflag(); freopen("/dev/null", "w", stderr);
}

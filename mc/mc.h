// Stateless model checker for neco: explorer, virtual environment, tracking.
#ifndef MC_H
#define MC_H
#define _GNU_SOURCE 1
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include "neco.h"

// ---------------------------------------------------------------- explorer --
int  mc_choose(int n);                // exhaustive choice 0..n-1
int  mc_dev(int n);                   // 0 is the default; others cost one deviation
int  mc_cfg(const char *key, int def);
const char *mc_cfgs(const char *key, const char *def);
extern int mc_blame; extern const char *mc_evprop;   // kind of the operation to blame, property of descriptor waits
void mc_fail(const char *props, const char *fmt, ...) __attribute__((format(printf,2,3)));
void mc_abandon(void) __attribute__((noreturn)); // end this execution here
void mc_outcome(uint64_t v);          // fold a value into the outcome hash
void mc_log(const char *fmt, ...) __attribute__((format(printf,1,2)));
extern int mc_verbose;
bool mc_selected(const char *props);
void mc_nontrivial(void);             // mark this execution as non-trivial

// --------------------------------------------------------- virtual platform --
extern int64_t vt_now;                // virtual nanoseconds
extern bool mc_inmain;                // execution finished by itself
#define MS INT64_C(1000000)
#define VT0 (INT64_C(1000)*1000*MS)   // virtual time at which every execution starts
extern size_t mc_nlive;               // library allocations alive
extern size_t mc_nmap;                // library mappings alive
extern size_t mc_nfd;                 // library descriptors alive
extern int mc_faults;                 // resource faults injected in this execution
extern bool mc_memchecks;
extern bool mc_realmap;               // use real mmap/munmap

// fault kinds for the fault hook
enum { F_MALLOC=1, F_MMAP, F_PTHREAD_CREATE, F_EPOLL_CREATE, F_EPOLL_CTL, F_PIPE,
       F_SOCKET, F_BIND, F_LISTEN, F_SETSOCKOPT, F_FCNTL, F_CONNECT, F_ACCEPT,
       F_READ, F_WRITE, F_GETADDRINFO, F_MPROTECT };

struct mc_hooks {
    void (*run)(void);                // one execution (calls neco_start)
    void (*quiesce)(void);            // everything is blocked for good
    void (*idle)(void);               // the scheduler is about to sleep until the next deadline
    int  (*external)(void);           // let the environment act; nonzero if it did (2: a signal arrived)
    void (*end)(void);                // natural end of the execution
    void (*init)(void);               // once per process, after fork
    bool (*fault)(int kind);          // true: make this call fail
    void (*point)(void);              // about to release memory
    void (*reset)(void);              // before every execution
    bool (*dlexempt)(int co);         // deadline or cancelation of this coroutine need not end its call now
    // system call overrides (NULL: the real one)
    ssize_t (*read)(int,void*,size_t);
    ssize_t (*write)(int,const void*,size_t);
    ssize_t (*recv)(int,void*,size_t,int);
    ssize_t (*send)(int,const void*,size_t,int);
    int (*accept)(int,struct sockaddr*,socklen_t*);
    int (*connect)(int,const struct sockaddr*,socklen_t);
    int (*socket)(int,int,int);
    int (*bind)(int,const struct sockaddr*,socklen_t);
    int (*listen)(int,int);
    int (*setsockopt)(int,int,int,const void*,socklen_t);
    int (*getsockopt)(int,int,int,void*,socklen_t*);
    int (*fcntl)(int,int,long);
    int (*close)(int);
    int (*pipe)(int*);
    int (*unlink)(const char*);
    int (*epoll_create1)(int);
    int (*epoll_ctl)(int,int,int,struct epoll_event*);
    int (*epoll_wait)(int,struct epoll_event*,int); // non-blocking poll of the queue
    int (*sigaction)(int,const struct sigaction*,struct sigaction*);
    void (*exitnow)(int);
    void (*aborted)(void);
    // virtual threads (vth.h)
    void (*sleep)(int64_t ns, bool forever); // the current thread wants to sleep
    void (*relax)(void);              // sched_yield and non-blocking polls
    void (*mapped)(void*,size_t);     // fresh memory
};
extern struct mc_hooks mc_hooks;
void mc_setup(void);                  // defined by the harness: fills mc_hooks

// real functions
#define REAL(ret,name,args) ret __real_##name args;
REAL(int,clock_gettime,(clockid_t,struct timespec*))
REAL(int,epoll_wait,(int,struct epoll_event*,int,int))
REAL(int,epoll_ctl,(int,int,int,struct epoll_event*))
REAL(int,epoll_create1,(int))
REAL(int,close,(int))
REAL(int,pipe,(int*))
REAL(int,fcntl,(int,int,...))
REAL(ssize_t,read,(int,void*,size_t))
REAL(ssize_t,write,(int,const void*,size_t))
REAL(ssize_t,recv,(int,void*,size_t,int))
REAL(ssize_t,send,(int,const void*,size_t,int))
REAL(int,accept,(int,struct sockaddr*,socklen_t*))
REAL(int,connect,(int,const struct sockaddr*,socklen_t))
REAL(int,socket,(int,int,int))
REAL(int,bind,(int,const struct sockaddr*,socklen_t))
REAL(int,listen,(int,int))
REAL(int,setsockopt,(int,int,int,const void*,socklen_t))
REAL(int,getsockopt,(int,int,int,void*,socklen_t*))
REAL(int,unlink,(const char*))
REAL(int,sigaction,(int,const struct sigaction*,struct sigaction*))
REAL(void*,mmap,(void*,size_t,int,int,int,off_t))
REAL(int,munmap,(void*,size_t))
REAL(int,mprotect,(void*,size_t,int))

// ------------------------------------------------------- coroutine tracking --
// kinds of library calls, by the statistic that counts a coroutine blocked in it
enum { K_NONE, K_OTHER, K_SEND, K_RECV, K_SEL, K_BCAST, K_SLEEP, K_EV, K_SIG, K_LOCK, K_WG, K_COND, K_SUSP, K_WORK };
void mc_stats_upper(void);            // C24: no statistic exceeds the calls in progress
void mc_stats_exact(int extra);       // C24: idle state, `extra` untracked coroutines
// The harness keeps one record per coroutine it starts. `busy` is true from
// op_begin to op_end, that is while the coroutine is inside a library call.
#define MAXCO 64
struct cot {
    bool used, alive, busy;
    bool mustrun;                     // inside a call that may not block for good
    const char *op;                   // name of the current call
    int kind;                         // harness-defined
    int64_t dl;                       // deadline of the current call or INT64_MAX
    int a, b;                         // harness-defined
    int64_t id;                       // library id
    uint64_t inv;                     // invocation sequence number
    int nops, th;
    bool disturbed;                   // canceled or resumed since the current call began
    int waited;                       // turns of others since it could run
    // cancelation bookkeeping (see cot_cancel_*)
    int pend0;                        // cancelations pending when the current call began
    int cpend;                        // cancel requests accepted and not yet seen
    int cseen;
};
extern struct cot cot[MAXCO];
extern int (*mc_pend)(int);           // pending cancelations of a coroutine, kept by the harness
extern int ncot;
void mc_next_runtime(void); // a runtime has ended and another one starts in the same execution
extern uint64_t mc_seq;               // global event counter
struct cot *cot_new(void);            // at coroutine start (by the coroutine itself)
void op_begin(struct cot *c, const char *op, int kind, int64_t dl);
void op_beginx(struct cot *c, const char *op, int kind, int64_t dl); // must not block
int  op_end(struct cot *c, int ret);
void cot_exit(struct cot *c);
void mc_disturb(int64_t id);
#define neco_cancel(id) (mc_disturb(id), neco_cancel(id))
#define neco_cancel_dl(id, dl) (mc_disturb(id), neco_cancel_dl(id, dl))
#define neco_resume(id) (mc_disturb(id), neco_resume(id))
void mc_idle(int64_t timeout);        // main context wants to sleep
void mc_progress(void);
extern int mc_notrack;
extern int mc_curth;                  // current virtual thread
extern uint64_t mc_spinmax, mc_prog;  // mc_prog counts events of the harness
void mc_quiescent(const char *how);
bool mc_live(const void *p);
void mc_calibrate(void (*fn)(void)); // run fn as an execution without choices (from hooks.init)
void mc_sigtab_set(int s, struct sigaction *a);
void mc_sigtab_get(int s, struct sigaction *a);
void mc_sigstk_set(stack_t s);
stack_t mc_sigstk_get(void);
void mc_tls_range(char **base, size_t *size, char **init);
bool mc_addr_mapped(const void *a, const void *b);
#define op_call(c,name,kind,dl,expr) ({ op_begin(c,name,kind,dl); int64_t _r=(expr); op_end(c,(int)_r); _r; })
#define op_callx(c,name,kind,expr) ({ op_beginx(c,name,kind,INT64_MAX); int64_t _r=(expr); op_end(c,(int)_r); _r; })

// coroutines the coming call certainly wakes: they get control before it returns
struct woken { int n; int co[16]; uint64_t inv[16]; };
static inline void wk_add(struct woken *w, int i) { if (w->n < 16) { w->co[w->n] = i; w->inv[w->n++] = cot[i].inv; } }
static inline void wk_check(struct woken *w, const char *what) {
    for (int i = 0; i < w->n; i++) { struct cot *o = &cot[w->co[i]];
        if (o->alive && o->busy && o->inv == w->inv[i]) mc_fail("C13", "%s returned before coroutine %d, which it woke from %s, got control", what, w->co[i], o->op); }
}
static inline uint64_t mc_hash(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2);
    h *= 0xff51afd7ed558ccdull; h ^= h>>32; return h;
}
#endif

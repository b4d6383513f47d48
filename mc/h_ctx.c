// Context harness (C22): what a coroutine finds after every switch - registers,
// local memory down to the configured depth, arguments - and where its stack lies.
// ops: n start another  v suspend  m resume  s send  r receive  f fills the stack and yields there  F fills it to its very end
//      x starts another from the depth of the stack   Y yield  P sleep   y T p k
// cfg: n, m (at most so many), deep=1: every operation is made from the bottom of a filled stack
#define PROG_ENTRY(i) entry, 4, (void*)(intptr_t)(i), (void*)tok(i,1), (void*)tok(i,2), (void*)tok(i,3)
#include <stdint.h>
static uint64_t tok(int i, int k) { return (uint64_t)(i+1)*0x9e3779b97f4a7c15u ^ (uint64_t)k*0xbf58476d1ce4e5b9u; }
static void entry(int argc, void **argv);
#include "prog.h"
#include <alloca.h>
#ifndef NECO_STACKSIZE
#define NECO_STACKSIZE 8388608
#endif
#define SS ((uintptr_t)(NECO_STACKSIZE+4095)/4096*4096)
#define SLACK 32768          // what the harness itself needs below a filled stack
static int M, deep, nst; static neco_chan *ch;
static struct st { bool live; uintptr_t top; int argc; void **argv; int i; } ST[MAXCO];

// run fn(arg) with known values in the registers a call must preserve
long regcall(long (*fn)(void*), void *arg, const uint64_t *in, uint64_t *out);
__asm__(".text\n.globl regcall\nregcall:\n"
    " push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n push %rcx\n"
    " mov %rdi,%rax\n mov %rsi,%rdi\n"
    " mov 0(%rdx),%rbx\n mov 8(%rdx),%rbp\n mov 16(%rdx),%r12\n mov 24(%rdx),%r13\n mov 32(%rdx),%r14\n mov 40(%rdx),%r15\n"
    " call *%rax\n"
    " pop %rcx\n mov %rbx,0(%rcx)\n mov %rbp,8(%rcx)\n mov %r12,16(%rcx)\n mov %r13,24(%rcx)\n mov %r14,32(%rcx)\n mov %r15,40(%rcx)\n"
    " pushf\n pop 48(%rcx)\n"
    " pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n");
static uint64_t regseq;
struct call { struct cot *c; int i; char o; int v; };
static long thunk(void *a) {
    struct call *k = a; struct cot *c = k->c;
    switch (k->o) {
    case 'y': return op_callx(c, "yield", K_OTHER, neco_yield());
    case 'v': return op_call(c, "suspend", K_SUSP, INT64_MAX, neco_suspend());
    case 'm': { int me = (int)(c-cot), j = k->v < me ? k->v : k->v+1; return op_callx(c, "resume", K_OTHER, neco_resume(cot[j].id)); }
    case 's': { char b = 1; return op_call(c, "send", K_SEND, INT64_MAX, neco_chan_send(ch, &b)); }
    case 'r': { char b; return op_call(c, "receive", K_RECV, INT64_MAX, neco_chan_recv(ch, &b)); }
    case 'p': { int64_t dl = dl_in(1); return op_call(c, "sleep", K_SLEEP, dl, neco_sleep_dl(dl)); }
    case 'n': { int j = nst++; return op_callx(c, "start", K_OTHER, neco_start(PROG_ENTRY(j))); }
    case 'Y': return neco_yield();
    }
    return 0;
}
static void stacks(int i) {
    struct st *s = &ST[i];
    if (s->argc != 4 || s->argv[0] != (void*)(intptr_t)i || s->argv[1] != (void*)tok(i,1) || s->argv[2] != (void*)tok(i,2) || s->argv[3] != (void*)tok(i,3))
        mc_fail("C22,C11", "the arguments of coroutine %d changed", i);
    for (int j = 0; j < nst; j++) if (ST[j].live) {
#ifndef NECO_USEHEAPSTACK
        if (!mc_addr_mapped((void*)(ST[j].top-SS), (void*)ST[j].top)) mc_fail("C22", "the stack of coroutine %d is not inside of a mapping", j);
#endif
        if (j != i) { uintptr_t d = s->top > ST[j].top ? s->top-ST[j].top : ST[j].top-s->top;
            if (d < SS) mc_fail("C22", "the stacks of coroutines %d and %d overlap", i, j); }
#if defined(NECO_USEGUARDS) && !defined(NECO_USEHEAPSTACK)
        if (access((void*)(ST[j].top-SS-1024), F_OK) == 0 || errno != EFAULT || access((void*)(ST[j].top+1024), F_OK) == 0 || errno != EFAULT)
            mc_fail("C22", "the stack of coroutine %d is not guarded", j);
#endif
    }
}
static long ctx_call(struct cot *c, int i, char o, int v) {
    uint64_t in[6], out[7]; struct call k = { c, i, o, v };
    volatile uint64_t loc[64]; uint64_t sq = ++regseq;
    for (int r = 0; r < 6; r++) in[r] = mc_hash(sq, (uint64_t)r);
    for (int r = 0; r < 64; r++) loc[r] = in[r%6] + (uint64_t)r;
    long ret = regcall(thunk, &k, in, out);
    static const char *const nm[] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
    for (int r = 0; r < 6; r++) if (out[r] != in[r]) mc_fail("C22", "coroutine %d: register %s changed across %c", i, nm[r], o);
    if (out[6] & 0x400) mc_fail("C22", "coroutine %d: the direction flag is set after %c", i, o);
    for (int r = 0; r < 64; r++) if (loc[r] != in[r%6] + (uint64_t)r) mc_fail("C22", "coroutine %d: a local variable changed across %c", i, o);
    stacks(i);
    return ret;
}
static uintptr_t bottom(int i) { return ST[i].top-SS; }
static void __attribute__((noinline)) filled(struct cot *c, int i, uintptr_t leave, void (*fn)(struct cot*, int, void*), void *arg) {
    uintptr_t here = (uintptr_t)__builtin_frame_address(0)-512;
    if (here < bottom(i)+leave) mc_fail("*", "harness: no room (%ld)", (long)(here-bottom(i)));
    size_t n = (here-bottom(i)-leave)/8;
    uint64_t *volatile b = alloca(n*8); uint64_t k = tok(i, 7)+mc_seq, *p = b;
    for (size_t x = 0; x < n; x++) p[x] = k+x;
    fn(c, i, arg);
    p = b;
    for (size_t x = 0; x < n; x++) if (p[x] != k+x) { mc_fail("C22", "coroutine %d: its stack changed %zu bytes below the top", i, SS-(size_t)((uintptr_t)(p+x)-bottom(i))); break; }
    mc_nontrivial();
}
static void fn_call(struct cot *c, int i, void *arg) { ctx_call(c, i, *(char*)arg, 0); }
static void fn_end(struct cot *c, int i, void *arg) { (void)i; (void)arg; c->busy = true; neco_yield(); c->busy = false; }
static void fn_body(struct cot *c, int i, void *arg) { (void)c; (void)i; bodyfn(1, arg); }
static void entry(int argc, void **argv) {
    uintptr_t fp = (uintptr_t)__builtin_frame_address(0);
    int i = (int)(intptr_t)argv[0];
    if (fp%16) mc_fail("C22", "the stack of coroutine %d is not aligned", i);
    if (i >= nst) nst = i+1;
    ST[i] = (struct st){ true, (fp+4095)/4096*4096, argc, argv, i };
    mc_outcome((uint64_t)(ST[i].top-ST[0].top)*31+(uint64_t)i);
    stacks(i);
    void *av[1] = { (void*)(intptr_t)i };
    if (deep) filled(NULL, i, SLACK, fn_body, av); else bodyfn(1, av);
    stacks(i);
    ST[i].live = false;
}
static int prog_expand(char o) { return o == 'm' ? M-1 : 1; }
static bool prog_enabled(struct cot *c, int i, char o, int v) {
    (void)i; int me = (int)(c-cot);
    if (o == 'm') { int j = v < me ? v : v+1; return j < ncot && cot[j].alive && cot[j].busy && cot[j].kind == K_SUSP; }
    if (o == 'n' || o == 'x') return nst < M;
    if (o == 'f' || o == 'F' || o == 'x') return !deep;
    return true;
}
static void prog_op(struct cot *c, int i, char o, int v) {
    long r = 0;
    switch (o) {
    case 'f': filled(c, i, SLACK, fn_call, "y"); break;
    case 'x': filled(c, i, SLACK, fn_call, "n"); break;
    case 'F': filled(c, i, 4096, fn_end, NULL); break;
    default: r = ctx_call(c, i, o == 'Y' ? 'y' : o == 'P' ? 'p' : o, v);
    }
    if (r == NECO_CANCELED) chk(c, (int)r, INT64_MAX);
    else if (r && !(o == 'm' && r == NECO_NOTSUSPENDED)) mc_fail("*", "operation %c returned %ld", o, r);
}
static void prog_root(void) { if (strchr(mc_cfgs("ops", ""), 's') && neco_chan_make(&ch, 1, 0) != NECO_OK) mc_fail("*", "neco_chan_make"); }
static void prog_leave(struct cot *c, int i) { (void)c; (void)i; }
static void prog_judge(void) {}
static void prog_inspect(struct cot *c) { (void)c; }
static void prog_last(struct cot *c) { (void)c; if (ch) { neco_chan_release(ch); ch = NULL; } }
static void prog_reset(void) { memset(ST, 0, sizeof ST); nst = N; ch = NULL; regseq = 0; }
void mc_setup(void) {
    N = mc_cfg("n", 3); M = mc_cfg("m", N); deep = mc_cfg("deep", 0);
    prog_setup();
}

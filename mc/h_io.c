// Read/write harness on the virtual kernel (C17).
// ops: r R read (v: descriptor and size)   w W write   a data arrives   z end of input   g space appears   x peer stops reading   e input fails
//      y T p k
// cfg: nf descriptors, in0 / sp0 initially available bytes / space, kd kernel deviations allowed, dev how many per execution, mul size factor
#include "prog.h"
#include "vk.h"
static int nf, in0, sp0, mul;
static const int RS[] = {1,3}, WS[] = {1,4,0};
#define MAXIO 40
static struct wr { int fd, size, acc; bool done; int ret; } WR[MAXIO]; static int nWR;
static struct blk { int co, fd; bool rd, done; int64_t dl; } B[MAXIO*2]; static int nB;
static bool taken[4][4096]; static int taken_n[4];
static unsigned char inb(int f, int k) { return (unsigned char)(f*97 + k*7 + k/256); }
static unsigned char outb(int w, int k) { return (unsigned char)(((w+1)<<3) | ((k+k/mul) & 7)); }
static int count_bytes(int w) { int n = 0; struct vfd *v = &vk[WR[w].fd]; for (int i = 0; i < v->nlog; i++) if (v->log[i]>>3 == w+1) n++; return n; }

static void do_read(struct cot *c, int f, int size, int64_t dl) {
    if (nB >= 70) mc_abandon();
    struct blk *b = &B[nB++]; *b = (struct blk){ .co = (int)(c-cot), .fd = f, .rd = true, .dl = dl };
    static char bufs[MAXCO][9000]; char *buf = bufs[c-cot]; memset(buf, 0xEE, (size_t)size+64);
    struct vfd *v = &vk[f]; int eof0 = v->neof, err0 = v->nerr;
    op_begin(c, dl == INT64_MAX ? "read" : "read_dl", K_EV, dl);
    errno = 0;
    ssize_t n = dl == INT64_MAX ? neco_read(VKBASE+f, buf, (size_t)size) : neco_read_dl(VKBASE+f, buf, (size_t)size, dl); int en = errno, le = neco_lasterr();
    op_end(c, (int)n); if (n < 0) mc_log("    (errno %d)", en);
    b->done = true;
    for (int i = n > 0 ? (int)n : 0; i < size+64; i++) if ((unsigned char)buf[i] != 0xEE) mc_fail("C17", "read of %d bytes returned %zd and wrote beyond that", size, n);
    int r;
    if (n > 0) {
        if (n > size) mc_fail("C17", "read of %d bytes returned %zd", size, n);
        // the bytes must be the next ones nobody got yet, in one run
        int k = -1;
        for (int p = 0; p < v->got && k < 0; p++) if (!taken[f][p]) { bool m = true; for (int i = 0; i < n && m; i++) m = p+i < v->got && !taken[f][p+i] && (unsigned char)buf[i] == inb(f, p+i); if (m) k = p; }
        if (k < 0) mc_fail("C17", "read returned bytes that are not the next ones that arrived");
        for (int i = 0; i < n; i++) taken[f][k+i] = true;
        taken_n[f] += (int)n;
        r = NECO_OK; mc_nontrivial();
    } else if (n == 0) {
        if (v->neof == eof0) mc_fail("C17", "read reports the end of input although the kernel did not");
        r = NECO_OK;
    } else {
        if (n != -1) mc_fail("C17", "read returned %zd", n);
        r = en == ECANCELED ? NECO_CANCELED : en == ETIMEDOUT ? NECO_TIMEDOUT : NECO_ERROR;
        if (r == NECO_ERROR && (v->nerr == err0 || en != v->lasterr)) mc_fail("C17", "read fails with errno %d, which the kernel did not report", en);
    }
    if (le != r) mc_fail("C25,C17", "read returned %zd with errno %d but the last error is %d", n, en, le);
    // without other readers in progress everything the kernel gave must have been delivered
    bool other = false; for (int i = 0; i < nB; i++) if (!B[i].done && B[i].rd && B[i].fd == f) other = true;
    if (!other && taken_n[f] != v->got) mc_fail("C17", "%d bytes were taken from the kernel and delivered to nobody", v->got-taken_n[f]);
    chk(c, r, dl);
}
static void do_write(struct cot *c, int f, int size, int64_t dl) {
    if (nWR >= 30 || nB >= 70) mc_abandon();
    struct blk *b = &B[nB++]; *b = (struct blk){ .co = (int)(c-cot), .fd = f, .dl = dl };
    int w = nWR++; WR[w] = (struct wr){ .fd = f, .size = size };
    static char bufs[MAXCO][9000]; char *buf = bufs[c-cot]; for (int i = 0; i < size; i++) buf[i] = (char)outb(w, i);
    buf[size] = (char)0xFF;
    struct vfd *v = &vk[f]; int err0 = v->nerr, me = (int)(c-cot);
    op_begin(c, dl == INT64_MAX ? "write" : "write_dl", K_EV, dl);
    errno = 0;
    ssize_t n = dl == INT64_MAX ? neco_write(VKBASE+f, buf, (size_t)size) : neco_write_dl(VKBASE+f, buf, (size_t)size, dl); int en = errno, le = neco_lasterr();
    op_end(c, (int)n); if (n < size) mc_log("    (errno %d)", en);
    b->done = true; WR[w].done = true; WR[w].ret = (int)n;
    memset(buf, 0xDC, (size_t)size);
    // what arrived at the peer: a prefix of the data, in order
    int got = 0; for (int i = 0; i < v->nlog; i++) if (v->log[i]>>3 == w+1) { if (v->log[i] != outb(w, got)) mc_fail("C17", "byte %d of a write arrived out of order or twice", got); got++; }
    if (n > size) mc_fail("C17", "write of %d bytes returned %zd", size, n);
    if (n >= 0 && got != n) mc_fail("C17", "write returned %zd but %d bytes were handed to the kernel", n, got);
    if (n < 0 && got) mc_fail("C17", "write failed although %d bytes were handed to the kernel", got);
    int r = NECO_OK;
    if (n < size) { // a reason is needed
        bool canc = cpend[me]+cextra[me] > 0, tim = dl != INT64_MAX && vt_now > dl, kerr = v->nerr > err0;
        if (n >= 0) {
            if (!canc && !tim && !kerr) mc_fail("C17", "write returned %zd of %d bytes for no reason", n, size);
            if (le != NECO_PARTIALWRITE) mc_fail("C17,C25", "partial write but the last error is %d", le);
            mc_outcome(77);
        } else {
            r = en == ECANCELED ? NECO_CANCELED : en == ETIMEDOUT ? NECO_TIMEDOUT : NECO_ERROR;
            if (r == NECO_ERROR && (!kerr || en != v->lasterr)) mc_fail("C17", "write fails with errno %d, which the kernel did not report", en);
            if (le != r) mc_fail("C25,C17", "write failed with errno %d but the last error is %d", en, le);
        }
    } else if (le != NECO_OK) mc_fail("C25,C17", "complete write but the last error is %d", le);
    if (n > 0) mc_nontrivial();
    chk(c, r, dl);
}
static int prog_expand(char o) { switch (o) { case 'r': case 'R': return 2*nf; case 'w': return 3*nf; case 'W': return 2*nf; } return nf; }
static bool prog_enabled(struct cot *c, int i, char o, int v) {
    (void)c; (void)i;
    switch (o) {
    case 'a': return !vk[v].eof && vk[v].arr < 3000;
    case 'z': return !vk[v].eof;
    case 'x': return !vk[v].broken;
    case 'e': return !vk[v].rerr && !vk[v].eof;
    }
    return true;
}
static void prog_op(struct cot *c, int i, char o, int v) {
    (void)i;
    if (strchr("azgxe", o)) mc_log("co%d: %c on %d", i, o, v);
    switch (o) {
    case 'r': case 'R': do_read(c, v/2, RS[v%2]*mul, o == 'r' ? INT64_MAX : dl_in(1)); break;
    case 'w': do_write(c, v/3, WS[v%3]*mul, INT64_MAX); break;
    case 'W': do_write(c, v/2, WS[v%2]*mul, dl_in(1)); break;
    case 'a': vk[v].arr += 2*mul; break;
    case 'z': vk[v].eof = true; break;
    case 'g': vk[v].space += 2*mul; break;
    case 'x': vk[v].broken = true; break;
    case 'e': vk[v].rerr = ECONNRESET; break;
    }
}
static void prog_root(void) {}
static void prog_leave(struct cot *c, int i) { (void)c; (void)i; }
static void prog_judge(void) {
    for (int i = 0; i < nB; i++) if (!B[i].done) {
        struct vfd *v = &vk[B[i].fd];
        if (B[i].rd && vk_ready(v) & (EPOLLIN|EPOLLERR)) mc_fail("C17,C16", "coroutine %d is blocked in a read although there is something to read", B[i].co);
        if (!B[i].rd && vk_ready(v) & EPOLLOUT) mc_fail("C17,C16", "coroutine %d is blocked in a write although writing is possible", B[i].co);
    }
}
static void prog_inspect(struct cot *c) { (void)c; }
static void prog_last(struct cot *c) {
    (void)c;
    for (int f = 0; f < nf; f++) {
        if (vk[f].nonblock_changes) mc_fail("C17", "the blocking mode of a descriptor was changed");
        if (taken_n[f] != vk[f].got) mc_fail("C17", "%d bytes were taken from the kernel and delivered to nobody", vk[f].got-taken_n[f]);
        for (int i = 0; i < vk[f].nlog; i++) { int w = (vk[f].log[i]>>3)-1; if (w < 0 || w >= nWR || WR[w].fd != f) mc_fail("C17", "a byte of no write to descriptor %d arrived there", f); }
    }
    for (int w = 0; w < nWR; w++) if (WR[w].done && count_bytes(w) != (WR[w].ret > 0 ? WR[w].ret : 0)) mc_fail("C17", "bytes of a write arrived after it returned");
}
static void prog_reset(void) {
    vk_reset(); nWR = nB = 0; memset(taken, 0, sizeof taken); memset(taken_n, 0, sizeof taken_n);
    for (int f = 0; f < nf; f++) { vk[f].open = true; vk[f].fl = O_NONBLOCK|O_RDWR; vk[f].arr = in0*mul; vk[f].space = sp0*mul; }
}
void mc_setup(void) {
    mc_evprop = "C17";
    nf = mc_cfg("nf", 1); in0 = mc_cfg("in0", 0); sp0 = mc_cfg("sp0", 0); mul = mc_cfg("mul", 1);
    vk_in = inb;
    prog_setup(); mc_hooks.idle = idle; vk_setup();
}

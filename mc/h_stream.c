// Stream harness on the virtual kernel (C18).
// ops: r R read   f F full read   b B read byte   u unread   w W write   l L flush   c C close   a z e g x environment as in h_io   y T p k
// cfg: cap buffer size (0: not buffered, -1: default size), in0, sp0, kd, dev, sz=<read sizes>, wz=<write sizes> (letters a=1 b=2 ... A=1024 B=2048 ...)
#include "prog.h"
#include "vk.h"
static int cap, in0, sp0, alen; static char rz[16], wz[16];
static neco_stream *S; static bool closing, isclosed, rdbusy, wrbusy; static int64_t bdl[2]; static int bco[2];
static int rpos;               // bytes delivered, net of un-reads
static bool lastok;            // the latest read operation delivered something and nothing was un-read since
static int acc;                // bytes accepted by writes
static unsigned char inb(int f, int k) { return (unsigned char)(f*97 + k*7 + k/256 + 1); }
static unsigned char outb(int k) { return (unsigned char)(k*5 + k/256 + 3); }
#define V (&vk[0])
static int zof(char c) { return c >= 'a' ? c-'a'+1 : (c-'A'+1)*1024; }
static bool reason(int me, int64_t dl, int err0) { return cpend[me]+cextra[me] > 0 || (dl != INT64_MAX && vt_now > dl) || V->nerr > err0; }
static int code(int n, int en) { // result as an error code
    if (n == NECO_ERROR || cap == 0) return n >= 0 ? NECO_OK : n == NECO_EOF ? NECO_EOF : en == ECANCELED ? NECO_CANCELED : en == ETIMEDOUT ? NECO_TIMEDOUT : n;
    return n >= 0 ? NECO_OK : n;
}
static void sizes(void) {
    if (isclosed) return;
    ssize_t r = neco_stream_buffered_read_size(S), w = neco_stream_buffered_write_size(S);
    if (!rdbusy && r != (cap ? V->got-rpos : 0)) mc_fail("C18", "the stream claims %zd buffered input bytes but there are %d", r, V->got-rpos);
    if (!wrbusy && w != acc-V->nlog) mc_fail("C18", "the stream claims %zd buffered output bytes but there are %d", w, acc-V->nlog);
}
static void logcheck(int limit) {
    if (V->nlog > limit) mc_fail("C18", "%d bytes arrived at the peer but only %d were written", V->nlog, limit);
    for (int i = 0; i < V->nlog; i++) if (V->log[i] != outb(i)) mc_fail("C18", "byte %d arriving at the peer is not byte %d of what was written", i, i);
}
static void do_read(struct cot *c, char o, int size, int64_t dl) {
    static char bufs[MAXCO][9000]; char *buf = bufs[c-cot]; memset(buf, 0xEE, (size_t)size+64);
    int eof0 = V->neof, err0 = V->nerr, me = (int)(c-cot), avail = V->got-rpos; bool will = reason(me, dl, err0);
    rdbusy = true; bdl[0] = dl; bco[0] = me;
    const char *nm = o == 'r' ? "stream_read" : o == 'f' ? "stream_readfull" : "stream_read_byte";
    bool fast = cap && (o == 'f' ? avail >= size : avail > 0) && !will;
    if (fast) op_beginx(c, nm, K_EV, dl); else op_begin(c, nm, K_EV, dl);
    errno = 0; ssize_t n;
    if (o == 'r') n = dl == INT64_MAX ? neco_stream_read(S, buf, (size_t)size) : neco_stream_read_dl(S, buf, (size_t)size, dl);
    else if (o == 'f') n = dl == INT64_MAX ? neco_stream_readfull(S, buf, (size_t)size) : neco_stream_readfull_dl(S, buf, (size_t)size, dl);
    else { n = dl == INT64_MAX ? neco_stream_read_byte(S) : neco_stream_read_byte_dl(S, dl); if (n >= 0) { if (n > 255) mc_fail("C18", "read_byte returned %zd", n); buf[0] = (char)n; n = 1; } }
    int en = errno, le = neco_lasterr();
    op_end(c, (int)n);
    rdbusy = false;
    if (n > size) mc_fail("C18", "%s of %d bytes returned %zd", nm, size, n);
    for (int i = n > 0 ? (int)n : 0; i < size+64; i++) if ((unsigned char)buf[i] != 0xEE) {
        if (o == 'f' && n < 0) mc_fail("C18", "%s failed (%zd) although it had read something", nm, n);
        if (i >= size || n >= 0) mc_fail("C18", "%s of %d bytes returned %zd and wrote beyond that", nm, size, n);
    }
    for (int i = 0; i < n; i++) if ((unsigned char)buf[i] != inb(0, rpos+i)) mc_fail("C18", "%s delivers wrong data at input position %d", nm, rpos+i);
    int r = code((int)n, en);
    if (n > 0) { rpos += (int)n; lastok = V->neof == eof0; mc_nontrivial(); if (rpos > V->got) mc_fail("C18", "more bytes delivered than arrived"); }
    if (n == 0 && size) mc_fail("C18", "%s of %d bytes returned 0", nm, size);
    if (r == NECO_EOF) { if (V->neof == eof0 || rpos < V->arr) mc_fail("C18", "%s reports the end of input at position %d of %d", nm, rpos, V->arr); lastok = false; }
    if (n < 0 && r != NECO_EOF && !reason(me, dl, err0)) mc_fail("C18", "%s fails with %zd (errno %d) for no reason", nm, n, en);
    if (r == NECO_ERROR && (V->nerr == err0 || en != V->lasterr)) mc_fail("C18", "%s fails with errno %d, which the kernel did not report", nm, en);
    if (o == 'f' && n > 0 && n < size && V->neof == eof0 && !reason(me, dl, err0)) mc_fail("C18", "readfull returned %zd of %d bytes for no reason", n, size);
    if (fast && n < (o == 'f' ? size : 1)) mc_fail("C18", "%s fails although enough bytes are buffered", nm);
    if (n < 0 && le != (r == NECO_ERROR || cap == 0 ? r : (int)n)) mc_fail("C25", "%s returned %zd (errno %d) but the last error is %d", nm, n, en, le);
    if (n > 0 && n == size && le != NECO_OK) mc_fail("C25", "%s succeeded but the last error is %d", nm, le);
    sizes();
    if (n >= 0 || r == NECO_EOF) r = NECO_OK;
    chk(c, r, dl);
}
static void do_unread(struct cot *c) {
    int r = op_callx(c, "unread_byte", K_OTHER, neco_stream_unread_byte(S));
    if (r == NECO_OK) { if (rpos == 0) mc_fail("C18", "unread succeeds although nothing was read"); rpos--; }
    else if (r != NECO_UNREADFAIL) mc_fail("C18", "unread returned %d", r);
    else if (cap && lastok) mc_fail("C18", "the last byte read cannot be un-read");
    lastok = false;
    sizes();
}
static void do_write(struct cot *c, int size, int64_t dl) {
    static char bufs[MAXCO][9000]; char *buf = bufs[c-cot]; for (int i = 0; i < size; i++) buf[i] = (char)outb(acc+i); buf[size] = (char)0xFF;
    int err0 = V->nerr, me = (int)(c-cot); bool fast = cap && acc-V->nlog + size <= cap;
    wrbusy = true; bdl[1] = dl; bco[1] = me;
    if (fast) op_beginx(c, "stream_write", K_EV, dl); else op_begin(c, "stream_write", K_EV, dl);
    errno = 0; ssize_t n = dl == INT64_MAX ? neco_stream_write(S, buf, (size_t)size) : neco_stream_write_dl(S, buf, (size_t)size, dl); int en = errno, le = neco_lasterr();
    op_end(c, (int)n);
    wrbusy = false; memset(buf, 0xDC, (size_t)size);
    if (n > size) mc_fail("C18", "write of %d bytes returned %zd", size, n);
    if (n > 0) { acc += (int)n; mc_nontrivial(); }
    int r = cap ? (n < 0 ? (int)n : NECO_OK) : code((int)n, en);
    if (n < size && !reason(me, dl, err0)) mc_fail("C18", "write returned %zd of %d bytes for no reason", n, size);
    if (r == NECO_ERROR && (V->nerr == err0 || en != V->lasterr)) mc_fail("C18", "write fails with errno %d, which the kernel did not report", en);
    if (n < 0 && le != r) mc_fail("C25", "stream write returned %zd (errno %d) but the last error is %d", n, en, le);
    logcheck(acc); sizes();
    if (!cap && V->nlog != acc) mc_fail("C18", "unbuffered write returned before its bytes were handed on");
    if (r == NECO_PARTIALWRITE) r = NECO_OK;
    chk(c, r, dl);
}
static void do_flush(struct cot *c, int64_t dl, bool close_) {
    int err0 = V->nerr, me = (int)(c-cot), log0 = V->nlog;
    wrbusy = true; bdl[1] = dl; bco[1] = me; if (close_) closing = true;
    const char *nm = close_ ? "stream_close" : "stream_flush";
    if (acc == V->nlog) op_beginx(c, nm, K_EV, dl); else op_begin(c, nm, K_EV, dl);
    errno = 0;
    int r = close_ ? (dl == INT64_MAX ? neco_stream_close(S) : neco_stream_close_dl(S, dl)) : (dl == INT64_MAX ? neco_stream_flush(S) : neco_stream_flush_dl(S, dl)), en = errno, le = neco_lasterr();
    op_end(c, r);
    wrbusy = false;
    if (close_) { isclosed = true; if (V->open) mc_fail("C18,C29", "the descriptor is still open after closing the stream"); }
    if (le != r) mc_fail("C25", "%s returned %d but the last error is %d", nm, r, le);
    logcheck(acc);
    if (r == NECO_OK && V->nlog != acc) mc_fail("C18", "%s succeeded but %d bytes did not reach the peer", nm, acc-V->nlog);
    if (r != NECO_OK && !reason(me, dl, err0)) mc_fail("C18", "%s fails with %d for no reason", nm, r);
    if (r == NECO_PARTIALWRITE && V->nlog == log0) mc_fail("C18", "%s reports a partial write but nothing was written", nm);
    if (r == NECO_ERROR && (V->nerr == err0 || en != V->lasterr)) mc_fail("C18", "%s fails with errno %d, which the kernel did not report", nm, en);
    if (V->nlog > log0) mc_nontrivial();
    sizes();
    if (r == NECO_PARTIALWRITE || (r != NECO_CANCELED && r != NECO_TIMEDOUT)) r = NECO_OK;
    chk(c, r, dl);
}
static int prog_expand(char o) { switch (o) { case 'r': case 'R': case 'f': case 'F': return (int)strlen(rz); case 'w': case 'W': return (int)strlen(wz); } return 1; }
static bool prog_enabled(struct cot *c, int i, char o, int v) {
    (void)c; (void)i; (void)v;
    if (strchr("rRfFbBu", o)) return !rdbusy && !closing;
    if (strchr("wWlL", o)) return !wrbusy && !closing;
    if (o == 'c' || o == 'C') return !wrbusy && !rdbusy && !closing;
    switch (o) {
    case 'a': return !V->eof && V->arr < 20000;
    case 'z': return !V->eof;
    case 'x': return !V->broken;
    case 'e': return !V->rerr && !V->eof;
    }
    return true;
}
static void prog_op(struct cot *c, int i, char o, int v) {
    (void)i;
    if (strchr("azgxe", o)) mc_log("co%d: %c", i, o);
    switch (o) {
    case 'r': case 'R': do_read(c, 'r', zof(rz[v]), o == 'r' ? INT64_MAX : dl_in(1)); break;
    case 'f': case 'F': do_read(c, 'f', zof(rz[v]), o == 'f' ? INT64_MAX : dl_in(1)); break;
    case 'b': case 'B': do_read(c, 'b', 1, o == 'b' ? INT64_MAX : dl_in(1)); break;
    case 'u': do_unread(c); break;
    case 'w': case 'W': do_write(c, zof(wz[v]), o == 'w' ? INT64_MAX : dl_in(1)); break;
    case 'l': case 'L': do_flush(c, o == 'l' ? INT64_MAX : dl_in(1), false); break;
    case 'c': case 'C': do_flush(c, o == 'c' ? INT64_MAX : dl_in(1), true); break;
    case 'a': V->arr += alen; break;
    case 'z': V->eof = true; break;
    case 'g': V->space += 3; break;
    case 'x': V->broken = true; break;
    case 'e': V->rerr = ECONNRESET; break;
    }
}
static void prog_root(void) {
    int r = cap == 0 ? neco_stream_make(&S, VKBASE) : cap < 0 ? neco_stream_make_buffered(&S, VKBASE) : neco_stream_make_buffered_size(&S, VKBASE, (size_t)cap);
    if (r != NECO_OK) mc_fail("C18", "making a stream returned %d", r);
    if (cap < 0) cap = 4096;
}
static void prog_leave(struct cot *c, int i) { (void)c; (void)i; }
static void prog_judge(void) {
    if (rdbusy && vk_ready(V) & (EPOLLIN|EPOLLERR)) mc_fail("C18", "coroutine %d is blocked reading although there is something to read", bco[0]);
    if (rdbusy && V->got > rpos && !strcmp(cot[bco[0]].op, "stream_read")) mc_fail("C18", "a read is blocked although bytes are buffered");
    if (wrbusy && vk_ready(V) & EPOLLOUT) mc_fail("C18", "coroutine %d is blocked writing although writing is possible", bco[1]);
}
static void prog_inspect(struct cot *c) { (void)c; }
static void prog_last(struct cot *c) {
    (void)c;
    if (!isclosed) { // whatever happened, nothing was lost: the rest is still there
        sizes(); int sv = vk_dev; vk_dev = 0;
        if (cap) { V->broken = false; V->space = 1000000; cpend[c-cot] = cextra[c-cot] = 0; neco_cancel(-1);
            int r = neco_stream_flush(S); if (r == NECO_CANCELED || r == NECO_PARTIALWRITE) r = neco_stream_flush(S);
            if (r != NECO_OK) mc_fail("C18", "flushing at the end returned %d", r);
            logcheck(acc); if (V->nlog != acc) mc_fail("C18", "%d bytes accepted by writes were lost", acc-V->nlog);
            while (rpos < V->got) { int b = neco_stream_read_byte(S); if (b != inb(0, rpos)) mc_fail("C18", "buffered input byte %d was lost", rpos); rpos++; } }
        if (neco_stream_release(S) != NECO_OK) mc_fail("C18", "releasing the stream fails");
        vk_dev = sv;
    }
    if (V->nonblock_changes) mc_fail("C17,C18", "the blocking mode of the descriptor was changed");
}
static void prog_reset(void) { pend_lenient = 1;
    vk_reset(); V->open = true; V->fl = O_NONBLOCK|O_RDWR; V->arr = in0; V->space = sp0;
    closing = isclosed = rdbusy = wrbusy = lastok = false; rpos = acc = 0; cap = mc_cfg("cap", 4);
}
void mc_setup(void) {
    mc_evprop = "C18";
    in0 = mc_cfg("in0", 0); sp0 = mc_cfg("sp0", 0); alen = mc_cfg("alen", 3);
    snprintf(rz, sizeof rz, "%s", mc_cfgs("rz", "be")); snprintf(wz, sizeof wz, "%s", mc_cfgs("wz", "cf"));
    vk_in = inb;
    prog_setup(); mc_hooks.idle = idle; vk_setup();
}

// Resource faults (C23): every allocation, mapping, protection, event queue call made by an operation may fail.
// ops: n start a coroutine (with more arguments than fit)  c make, use and release a channel  x select over many channels  g generator
//      s buffered stream: write, flush, other end reads  r buffered stream: read  e wait for a descriptor  d read with a deadline  l unbuffered write
//      N starts a generation of coroutines that end together   y T p
// cfg: kd 1 memory 2 mappings 4 protection 8 event queue creation 16 event registration;  start=1: the outermost start may fail too;  msz, cap
// After a refusal the same call is made again without faults and has to succeed.
#include "prog.h"
#include <sys/socket.h>
#include <fcntl.h>
static int kd, startflt, msz, cap;
#define NID 4096
static bool inf[NID]; static int flts[NID];     // per coroutine: an operation under test is in progress; faults it has met (slot 0: no coroutine)
#define infault inf[slot()]
#define flt flts[slot()]
static int slot(void);
static struct kid { bool started, refused, ran, ended; int n; } K[64]; static int nK;
static int sp[2]; static unsigned char wrote[256], seen[256]; static int nwrote, nseen;
static neco_stream *sw; static bool rooted;
static int slot(void) { int e = errno; int64_t id = neco_getid(); errno = e; return id <= 0 ? 0 : 1+(int)(id%(NID-1)); }
static bool f_fault(int kind) {
    int b = kind == F_MALLOC ? 1 : kind == F_MMAP ? 2 : kind == F_MPROTECT ? 4 : kind == F_EPOLL_CREATE ? 8 : kind == F_EPOLL_CTL ? 16 : 0;
    if (!(kd & b) || draining) return false;
    int me = slot(); bool any = inf[me];
    if (!me && rooted) for (int i = 1; i < NID; i++) any |= inf[i]; // the scheduler on behalf of somebody
    if (!any || !mc_dev(2)) return false;
    for (int i = 0; i < NID; i++) if (i == me || (!me && inf[i])) flts[i]++; mc_log("    (fault: %s)", b == 1 ? "memory" : b == 2 ? "mapping" : b == 4 ? "protection" : b == 8 ? "event queue" : "event registration"); mc_nontrivial(); return true;
}
static size_t live0, map0, fd0;
static void begin(void) { infault = true; flt = 0; errno = 0; live0 = mc_nlive; map0 = mc_nmap; fd0 = mc_nfd; }
static void over(const char *what, bool refused) {
    int le = neco_lasterr(); infault = false;
    if (refused && (mc_nlive > live0 || mc_nfd > fd0)) mc_fail("C23,C29", "%s was refused but %zu allocations and %zu descriptors remain", what, mc_nlive-live0, mc_nfd-fd0);
    if (refused && le == NECO_OK) mc_fail("C23,C25", "%s was refused, the last error is none", what);
}
// call e (a neco code) with faults; when refused for lack of memory, again without
#define TRY(what, r, e) do { begin(); r = (int)(e); over(what, r < 0); \
    if (r == NECO_NOMEM) { if (!flt) mc_fail("C23", "%s reports out of memory although nothing failed", what); mc_log("    (%s refused)", what); r = (int)(e); \
        if (r < 0) mc_fail("C23", "%s fails (%d) although memory is available again", what, r); } \
    else if (r < 0) mc_fail("C23", "%s returned %d", what, r); } while (0)
static void kid(int argc, void **argv) {
    struct kid *k = &K[(intptr_t)argv[0]];
    if (k->refused) mc_fail("C23,C11", "a coroutine runs although its start was refused");
    if (k->ran) mc_fail("C23,C11", "a coroutine runs twice");
    k->ran = true;
    if (argc != k->n) mc_fail("C23,C11", "a coroutine got %d arguments instead of %d", argc, k->n);
    for (int i = 1; i < argc; i++) if ((intptr_t)argv[i] != i+40) mc_fail("C23,C11", "a coroutine got a wrong argument");
    neco_yield();
    for (int i = 1; i < argc; i++) if ((intptr_t)argv[i] != i+40) mc_fail("C23,C11", "the argument of a coroutine changed");
    k->ended = true;
}
static void start_kid(int nargs) {
    if (nK >= 60) mc_abandon();
    struct kid *k = &K[nK++]; k->n = nargs; void *av[9]; av[0] = (void*)(intptr_t)(k-K); for (int i = 1; i < 9; i++) av[i] = (void*)(intptr_t)(i+40);
    neco_stats s0, s1; neco_getstats(&s0); bool alone = true; for (int i = 0; i < NID; i++) if (inf[i]) alone = false;
    begin(); int r = neco_startv(kid, nargs, av), le = neco_lasterr(); infault = false;
    neco_getstats(&s1);
    if (r == NECO_NOMEM) {
        k->refused = true;
        if (!flt) mc_fail("C23", "start reports out of memory although nothing failed");
        if (s1.coroutines != s0.coroutines) mc_fail("C23,C24", "a refused start is counted as a coroutine");
        if (mc_nlive > live0) mc_fail("C23,C29", "a refused start leaves %zu allocations behind", mc_nlive-live0);
        if (le != NECO_NOMEM) mc_fail("C23,C25", "a refused start sets the last error %d", le);
        k = &K[nK++]; k->n = nargs; av[0] = (void*)(intptr_t)(k-K); r = neco_startv(kid, nargs, av);
    }
    if (r != NECO_OK) mc_fail("C23", "start returned %d", r);
    k->started = true;
    if (!k->ran) mc_fail("C23,C11", "a started coroutine did not run");
}
static void genfn(int a, void **v) { (void)a; (void)v; for (int i = 1; i < 4; i++) if (neco_gen_yield(&i) != NECO_OK) return; }
static void do_chan(void) {
    neco_chan *ch = NULL; int r; char b[600], d[600]; memset(b, 7, sizeof b); memset(d, 0, sizeof d);
    TRY("chan_make", r, neco_chan_make(&ch, (size_t)msz, (size_t)cap));
    if (!ch) mc_fail("C23", "chan_make gives no channel");
    begin(); if (cap) { r = neco_chan_send(ch, b); if (r != NECO_OK) mc_fail("C23", "send returned %d", r); r = neco_chan_recv(ch, d); if (r != NECO_OK || memcmp(b, d, (size_t)msz)) mc_fail("C23", "receive returned %d", r); }
    r = neco_chan_release(ch); over("release", false); if (r != NECO_OK) mc_fail("C23", "release returned %d", r);
}
static void do_select(void) {
    neco_chan *c9[12] = { 0 }; int r; for (int i = 0; i < 10; i++) if (neco_chan_make(&c9[i], 64, 1) != NECO_OK) mc_fail("C23", "chan_make");
    char b[64], d[64]; memset(b, 9, 64); memset(d, 0, 64); neco_chan_send(c9[8], b);
    TRY("select", r, neco_chan_selectv(10, c9)); if (r != 8) mc_fail("C23,C04", "select returned %d", r);
    begin(); r = neco_chan_case(c9[8], d); over("case", false); if (r != NECO_OK || memcmp(b, d, 64)) mc_fail("C23,C04", "case returned %d", r);
    for (int i = 0; i < 10; i++) neco_chan_release(c9[i]);
}
static void do_gen(void) {
    neco_gen *g = NULL; int r, x = 0;
    TRY("gen_start", r, neco_gen_start(&g, sizeof x, genfn, 0));
    begin(); r = neco_gen_next(g, &x); over("next", false); if (r != NECO_OK || x != 1) mc_fail("C23,C06", "next returned %d", r);
    begin(); r = neco_gen_next(g, &x); over("next", false); if (r != NECO_OK || x != 2) mc_fail("C23,C06", "next returned %d", r);
    begin(); neco_gen_close(g); while ((r = neco_gen_next(g, &x)) == NECO_OK) {} neco_gen_release(g); over("close", false);
}
static void do_swrite(void) {
    if (nwrote > 200) return;
    unsigned char b[3]; for (int i = 0; i < 3; i++) b[i] = (unsigned char)(nwrote+i);
    int r; bool was = sw != NULL;
    if (!was) TRY("stream_make", r, neco_stream_make_buffered(&sw, sp[1]));
    begin(); r = (int)neco_stream_write(sw, b, 3); over("stream write", false);
    if (r == NECO_NOMEM || r < 0) { if (!flt) mc_fail("C23", "stream write returned %d", r); r = (int)neco_stream_write(sw, b, 3); }
    if (r != 3) mc_fail("C23,C18", "stream write returned %d", r);
    memcpy(wrote+nwrote, b, 3); nwrote += 3;
    begin(); r = neco_stream_flush(sw); over("flush", false);
    if (r < 0) { if (!flt) mc_fail("C23", "flush returned %d", r); r = neco_stream_flush(sw); } if (r < 0) mc_fail("C23,C18", "flush returned %d", r);
    int n = (int)__real_read(sp[0], seen+nseen, (size_t)(nwrote-nseen)); if (n != nwrote-nseen || memcmp(seen+nseen, wrote+nseen, (size_t)n)) mc_fail("C23,C18", "the other end of the stream sees %d bytes instead of %d", n, nwrote-nseen);
    nseen += n;
}
static int rd;
static void do_sread(void) {
    if (rd > 200) return;
    int r; if (!sw) TRY("stream_make", r, neco_stream_make_buffered(&sw, sp[1]));
    unsigned char b[4] = { (unsigned char)rd, (unsigned char)(rd+1) }, d[8] = { 0 }; __real_write(sp[0], b, 2);
    begin(); r = (int)neco_stream_read_byte(sw); over("stream read", false);
    if (r < 0) { if (!flt) mc_fail("C23", "stream read returned %d", r); r = (int)neco_stream_read_byte(sw); }
    if (r != rd%256) mc_fail("C23,C18", "stream read returned %d instead of %d", r, rd);
    begin(); r = (int)neco_stream_readfull(sw, d, 1); over("stream read", false);
    if (r < 0) { if (!flt) mc_fail("C23", "stream read returned %d", r); r = (int)neco_stream_readfull(sw, d, 1); }
    if (r != 1 || d[0] != b[1]) mc_fail("C23,C18", "stream read returned %d", r);
    rd += 2;
}
static void later(int a, void **v) { (void)a; int fd = (int)(intptr_t)v[0]; neco_yield(); neco_yield(); __real_write(fd, "z", 1); }
static void do_wait(struct cot *c, bool deadline) { // a descriptor becomes readable later
    (void)c; int p[2]; if (__real_pipe(p)) mc_abandon();
    fcntl(p[0], F_SETFL, O_NONBLOCK);
    begin(); int64_t dl = deadline ? vt_now+20*MS : INT64_MAX; char ch = 0;
    if (!deadline) __real_write(p[1], "q", 1);
    errno = 0; int r = (int)neco_wait_dl(p[0], NECO_WAIT_READ, dl), e = errno; infault = false;
    if (deadline ? r == NECO_OK : r == NECO_TIMEDOUT) mc_fail("C23,C16", "wait returned %d", r);
    if (r < 0 && r != NECO_TIMEDOUT && !flt) mc_fail("C23,C16", "wait returned %d (errno %d) although nothing failed", r, e);
    if (deadline && r == NECO_TIMEDOUT && vt_now < dl) mc_fail("C23,C14", "wait timed out early");
    if (r < 0 && r != NECO_TIMEDOUT) { if (mc_nfd != fd0 && mc_nfd != fd0+1) mc_fail("C23,C29", "a refused wait leaves descriptors behind"); r = (int)neco_wait_dl(p[0], NECO_WAIT_READ, dl); }
    if (!deadline && (r != NECO_OK)) mc_fail("C23,C16", "wait returned %d although the descriptor is ready", r);
    if (!deadline) { begin(); r = (int)neco_read(p[0], &ch, 1); infault = false; if (r != 1 || ch != 'q') { if (!flt) mc_fail("C23,C17", "read returned %d", r); r = (int)neco_read(p[0], &ch, 1); if (r != 1 || ch != 'q') mc_fail("C23,C17", "read returned %d", r); } }
    __real_close(p[0]); __real_close(p[1]);
}
static void do_blockread(void) { // nothing to read at first: the event queue is needed
    int p[2]; if (__real_pipe(p)) mc_abandon();
    fcntl(p[0], F_SETFL, O_NONBLOCK); 
    if (neco_start(later, 1, (void*)(intptr_t)p[1]) != NECO_OK) mc_fail("C23", "start");
    char ch = 0; begin(); int r = (int)neco_read(p[0], &ch, 1), e = errno; infault = false;
    if (r != 1) { if (!flt) mc_fail("C23,C17", "read returned %d (errno %d)", r, e); r = (int)neco_read(p[0], &ch, 1); if (r != 1) mc_fail("C23,C17", "read returned %d afterwards", r); }
    if (ch != 'z') mc_fail("C23,C17", "read gave a wrong byte");
    __real_close(p[0]); __real_close(p[1]);
}
static int prog_expand(char o) { (void)o; return 1; }
static bool prog_enabled(struct cot *c, int i, char o, int v) { (void)c; (void)v; return i == 0 || (o != 's' && o != 'r'); }
static void prog_op(struct cot *c, int i, char o, int v) {
    (void)v; (void)i; static const char *const nm = "operation"; int me = (int)(c-cot); (void)me; mc_log("co%d does %c", i, o);
    op_begin(c, nm, K_OTHER, INT64_MAX);
    switch (o) {
    case 'n': start_kid(7); break;
    case 'N': start_kid(1); start_kid(4); start_kid(2); break;
    case 'c': do_chan(); break;
    case 'x': do_select(); break;
    case 'g': do_gen(); break;
    case 's': do_swrite(); break;
    case 'r': do_sread(); break;
    case 'e': do_wait(c, false); break;
    case 'd': do_wait(c, true); break;
    case 'b': do_blockread(); break;
    }
    op_end(c, 0); mc_progress();
    mc_outcome((uint64_t)flt*31+(uint64_t)o);
}
static void prog_root(void) { rooted = true; infault = false; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) mc_abandon(); for (int i = 0; i < 2; i++) fcntl(sp[i], F_SETFL, O_NONBLOCK); }
static void prog_leave(struct cot *c, int i) { (void)c; (void)i; }
static void prog_judge(void) { mc_fail("C23", "an operation never returns"); }
static void prog_inspect(struct cot *c) { (void)c; }
static void prog_last(struct cot *c) {
    (void)c; infault = false;
    if (sw) neco_stream_close(sw); else __real_close(sp[1]);
    __real_close(sp[0]); sw = NULL;
    for (int t = 0; t < 4; t++) neco_yield();
    for (int k = 0; k < nK; k++) if (K[k].started ? !K[k].ended : K[k].ran) mc_fail("C23,C11", "a coroutine did not run to its end");
}
static void prog_reset(void) { memset(K, 0, sizeof K); nK = nwrote = nseen = rd = 0; sw = NULL; rooted = false; memset(inf, 0, sizeof inf); memset(flts, 0, sizeof flts); }
static void first(void) {
    if (startflt) {
        infault = true; flt = 0; int r = neco_start(PROG_ENTRY(0)), le = neco_lasterr(); infault = false;
        if (!rooted) {
            if (r == NECO_OK) mc_fail("C23", "the outermost start succeeds without running its coroutine");
            if (!flt) mc_fail("C23", "the outermost start returned %d", r);
            if (r != NECO_NOMEM) mc_fail("C23", "the outermost start returned %d when out of memory", r);
            if (mc_nlive || mc_nmap || mc_nfd) mc_fail("C23,C29", "a refused outermost start leaves %zu allocations, %zu mappings, %zu descriptors behind", mc_nlive, mc_nmap, mc_nfd);
            if (neco_getid() >= 0) mc_fail("C23", "a runtime exists after a refused start");
            if (le != r) mc_fail("C23,C25", "a refused start sets the last error %d", le);
            for (int k = 0; k < 2; k++) { left_total = budget; }
            run(); return;
        }
        if (r != NECO_OK) mc_fail("C23", "the outermost start returned %d", r);
        return;
    }
    run();
}
void mc_setup(void) {
    kd = mc_cfg("kd", 31); startflt = mc_cfg("start", 0); msz = mc_cfg("msz", 8); cap = mc_cfg("cap", 1);
    prog_setup(); mc_hooks.run = first; mc_hooks.fault = f_fault; mc_notrack = 2;
}

// Network harness (C27) on the virtual kernel: sockets, a resolver that answers at once, socket files.
// ops: d D dial address v (D with a deadline)   v serve on address v   a A accept on the listening socket   c C connect a socket of one's own
//      i a connection comes in   e f the oldest connection in progress is established / refused   x close a descriptor one got   y T p k
// addresses: 0 one address  1 two addresses  2 tcp6 in brackets  3 tcp4 without host  4 unix  5 a host name (h_nett only)  6 tcp6 without host  7 8 9 malformed
// cfg: adr=<addresses>, kd 1 EINTR 2 connect errors 4 resource failures 8 aborted connections 16 resolver failures 32 out of memory,
//      ext=<completions while idle>, async=1, pre=1 the socket file exists already, in0 connections waiting, connect=<0 in progress or at once, 1 at once, 2 in progress>
// WRAP: getaddrinfo freeaddrinfo
#include "prog.h"
#include "vk.h"
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/un.h>
#ifndef NET_POINT
#define NET_POINT(x) (void)0
#define NET_RTTHREAD 1
#define NET_NOTHREADS 1
#endif
static int kd, ext, ext0, async, pre, in0, cmode; static char adr[16];
enum { S_NEW = 1, S_BOUND, S_LISTEN, S_PROG, S_EST, S_FAIL };
static const struct { const char *net, *addr, *node, *serv; int fam, n; } A[] = {
    {"tcp", "10.0.0.1:80", "10.0.0.1", "80", 0, 1}, {"tcp", "10.0.0.2:81", "10.0.0.2", "81", 0, 2}, {"tcp6", "[::1]:82", "::1", "82", AF_INET6, 1},
    {"tcp4", ":83", "0.0.0.0", "83", AF_INET, 1}, {"unix", "/x/sock", 0, 0, AF_UNIX, 0}, {"tcp", "name00:84", "name00", "84", 0, 2}, {"tcp6", ":85", "::", "85", AF_INET6, 1}, {"tcp", "nocolon", 0, 0, 0, 0},
    {"unix", "/x/0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345", 0, 0, 0, 0}, {"udp", "10.0.0.1:80", 0, 0, 0, 0} };
#define BADADR(a) ((a) >= 7)
#define LIS (NVK-1)
struct res { bool live; struct addrinfo ai[2]; struct sockaddr_in6 sa[2]; int adr; };
static struct res R[64]; static int nR;
static bool sockfile, filemine;               // the socket file exists; it was made by a successful bind
struct call { int co; char kind; int adr, sock; bool done; int tried, nerr, lasterr, gai, noent; bool nomem, okconn; };
static struct call CL[64]; static int nCL; static struct call *curcl[MAXCO];
static int owned[64], nown; static int pend, nextpend, accn;  // connections waiting, next to be accepted
static struct call *cc(void) { int64_t id = neco_getid(); for (int i = 0; i < ncot; i++) if (cot[i].alive && cot[i].id == id) return curcl[i]; return NULL; }
static int kerr(int e) { if (e == EMFILE || e == ENFILE || e == ENOMEM || e == ENOBUFS) mc_faults++; struct call *k = cc(); if (k) { k->nerr++; k->lasterr = e; } mc_log("    (kernel: errno %d)", e); errno = e; return -1; }
static int dv(int bit, int n) { return (kd & bit) && !draining ? mc_dev(n) : 0; }
static void upd(int f) { struct vfd *v = &vk[f]; v->rdy = v->state == S_EST ? EPOLLOUT : v->state == S_FAIL ? EPOLLOUT|EPOLLERR|EPOLLHUP|EPOLLIN : v->state == S_NEW ? EPOLLOUT|EPOLLHUP : v->state == S_LISTEN && pend ? EPOLLIN : 0; }
static int n_socket(int d, int t, int p) {
    (void)p; if (!(t & SOCK_STREAM)) mc_fail("C27", "a socket of type %d is created", t);
    struct call *k = cc(); if (k && k->kind == 'd') k->tried++;
    if (dv(4,2)) return kerr(EMFILE);
    for (int f = 0; f < LIS; f++) if (!vk[f].open) { memset(&vk[f], 0, offsetof(struct vfd, log)); vk[f].open = true; vk[f].fl = O_RDWR | (t & SOCK_NONBLOCK ? O_NONBLOCK : 0); vk[f].state = S_NEW; vk[f].type = d; vk[f].a = -1; upd(f); return VKBASE+f; }
    mc_abandon();
}
static int port_of(const struct sockaddr *sa, socklen_t l) { (void)l; return sa->sa_family == AF_UNIX ? 4000 : ntohs(((const struct sockaddr_in6*)sa)->sin6_port); }
static int n_connect(int fd, const struct sockaddr *sa, socklen_t l) {
    struct vfd *v = vkf(fd); struct call *k = cc();
    NET_POINT("connect");
    if (!v || !v->open) return kerr(EBADF);
    if (!(v->fl & O_NONBLOCK)) mc_fail("C27", "connect is called on a blocking descriptor: other coroutines are held up");
    if (k) k->sock = fd-VKBASE;
    switch (v->state) {
    case S_NEW: {
        v->a = port_of(sa, l);
        if (k && k->kind == 'd') { int i = v->a - k->adr*1000; if (i != k->tried-1) mc_fail("C27", "dial connects to something else than the next address"); }
        int intr = dv(1,4), alt = intr ? 0 : dv(2, v->type == AF_UNIX ? 4 : 3);
        if (intr) { v->state = intr == 1 ? S_PROG : intr == 2 ? S_EST : S_FAIL; upd(fd-VKBASE); mc_log("    (kernel: connect interrupted)"); errno = EINTR; return -1; }
        if (alt == 3) return kerr(EAGAIN);
        if (alt == 2) return kerr(ENETUNREACH);
        if (alt == 1) return kerr(ECONNREFUSED);
        if (cmode == 1 || (cmode == 0 && mc_choose(2))) { v->state = S_EST; v->b = 1; upd(fd-VKBASE); if (k) k->okconn = true; mc_log("    (connected at once)"); mc_nontrivial(); return 0; }
        v->state = S_PROG; upd(fd-VKBASE); mc_log("    (connection in progress)"); errno = EINPROGRESS; return -1; }
    case S_PROG: if (dv(1,2)) { errno = EINTR; return -1; } errno = EALREADY; return -1;
    case S_EST: if (k) k->okconn = true; if (!v->b) { v->b = 1; mc_nontrivial(); if (!dv(1,2)) return 0; } errno = EISCONN; return -1;
    case S_FAIL: v->state = S_NEW; upd(fd-VKBASE); return kerr(ECONNREFUSED);
    }
    return kerr(EINVAL);
}
static int n_getsockopt(int fd, int lv, int opt, void *p, socklen_t *l) {
    struct vfd *v = vkf(fd); if (!v || !v->open) return kerr(EBADF);
    if (lv == SOL_SOCKET && opt == SO_ERROR && *l >= sizeof(int)) { int e = 0; if (v->state == S_FAIL) { e = ECONNREFUSED; kerr(e); v->state = S_NEW; upd(fd-VKBASE); } else if (v->state == S_EST) { struct call *k = cc(); if (k) k->okconn = true; } *(int*)p = e; return 0; }
    if (*l >= sizeof(int)) *(int*)p = 0; return 0;
}
static int n_setsockopt(int fd, int lv, int opt, const void *p, socklen_t l) { (void)lv; (void)opt; (void)p; (void)l; struct vfd *v = vkf(fd); if (!v || !v->open) return kerr(EBADF); if (dv(4,2)) return kerr(ENOPROTOOPT); if (lv == SOL_SOCKET && opt == SO_REUSEADDR && *(const int*)p) v->got = 1; return 0; }
static int n_bind(int fd, const struct sockaddr *sa, socklen_t l) {
    struct vfd *v = vkf(fd); if (!v || !v->open) return kerr(EBADF);
    if (v->state != S_NEW) return kerr(EINVAL);
    if (sa->sa_family == AF_UNIX) {
        const struct sockaddr_un *u = (const void*)sa; if (strcmp(u->sun_path, A[4].addr)) mc_fail("C27", "the socket is bound to '%s'", u->sun_path);
        if (sockfile) return kerr(EADDRINUSE);
        if (dv(4,2)) return kerr(EACCES);
        sockfile = filemine = true;
    } else if (dv(4,2)) return kerr(EADDRINUSE);
    v->a = port_of(sa, l); v->state = S_BOUND; return 0;
}
static int n_listen(int fd, int bl) { struct vfd *v = vkf(fd); if (!v || !v->open) return kerr(EBADF); if (v->state != S_BOUND) return kerr(EINVAL); if (bl < 1) mc_fail("C27", "listen with a backlog of %d", bl); if (dv(4,2)) return kerr(EADDRINUSE); v->state = S_LISTEN; return 0; }
static int n_unlink(const char *p) { if (strcmp(p, A[4].addr)) mc_fail("C27", "'%s' is deleted", p); if (!sockfile) { errno = ENOENT; return -1; } if (!filemine) mc_fail("C27", "the socket file of somebody else is deleted"); sockfile = filemine = false; return 0; }
static int n_accept(int s, struct sockaddr *sa, socklen_t *l) {
    struct vfd *v = vkf(s); if (!v || !v->open) return kerr(EBADF);
    if (v->state != S_LISTEN) return kerr(EINVAL);
    if (!(v->fl & O_NONBLOCK)) mc_fail("C27", "accept is called on a blocking descriptor");
    if (dv(1,2)) { errno = EINTR; return -1; }
    if (!pend) { errno = EAGAIN; return -1; }
    if (kd & 8 && dv(8,2)) { pend--; nextpend++; upd(s-VKBASE); return kerr(ECONNABORTED); }
    if (dv(4,2)) return kerr(EMFILE);
    if (kd & 8 && dv(8,2)) { errno = EAGAIN; return -1; }
    for (int f = 0; f < LIS; f++) if (!vk[f].open) {
        memset(&vk[f], 0, offsetof(struct vfd, log)); vk[f].open = true; vk[f].fl = O_RDWR; vk[f].state = S_EST; vk[f].b = 1; vk[f].a = 5000+nextpend; vk[f].type = AF_INET;
        if (sa && l) { struct sockaddr_in in = { .sin_family = AF_INET, .sin_port = htons((uint16_t)(5000+nextpend)) }; memcpy(sa, &in, *l < sizeof in ? *l : sizeof in); *l = sizeof in; }
        pend--; nextpend++; upd(s-VKBASE); upd(f); mc_nontrivial(); return VKBASE+f;
    }
    mc_abandon();
}
static int n_fcntl(int fd, int cmd, long a) { struct vfd *v = vkf(fd); if (v && v->open && cmd == F_SETFL && dv(4,2)) return kerr(EPERM); if (v && v->open && cmd == F_GETFL && dv(64,2)) return kerr(EPERM); return vk_fcntl(fd, cmd, a); }
static bool n_fault(int kind) { if (kind == F_MALLOC && kd & 32 && !draining && cc() && !cc()->done && NET_RTTHREAD && mc_dev(2)) { cc()->nomem = true; mc_log("    (out of memory)"); mc_nontrivial(); return true; } return false; }
int __wrap_getaddrinfo(const char *node, const char *serv, const struct addrinfo *h, struct addrinfo **res) {
    int a = -1; for (int i = 0; i < 8; i++) if (A[i].node && node && serv && (i == 5 ? !strncmp("name", node, 4) && strlen(node) == 6 && atoi(node+4) < nCL : !strcmp(A[i].node, node)) && !strcmp(A[i].serv, serv)) a = i;
    if (a < 0) { mc_fail("C27", "the resolver is asked for '%s' '%s'", node ? node : "-", serv ? serv : "-"); return EAI_FAIL; }
    if (!h || h->ai_family != A[a].fam || h->ai_socktype != SOCK_STREAM) mc_fail("C27", "the resolver is not asked for a stream socket of the requested family");
    NET_POINT("resolver");
    struct call *k = a == 5 ? &CL[atoi(node+4)] : cc();
    int alt = dv(16,5); mc_progress();
    if (alt) { mc_log("    (resolver failure %d)", alt); mc_nontrivial(); }
    if (alt == 1) { if (k) k->gai = EAI_NONAME; return EAI_NONAME; }
    if (alt == 2) { if (k) { k->gai = EAI_MEMORY; k->nomem = true; } return EAI_MEMORY; }
    if (alt == 3) { if (k) { k->gai = EAI_SYSTEM; k->nerr++; k->lasterr = EIO; } errno = EIO; return EAI_SYSTEM; }
    if (alt == 4) { if (k) { k->gai = EAI_FAIL; k->noent = 1; } *res = NULL; return 0; }
    if (nR >= 60) mc_abandon();
    struct res *r = &R[nR++]; memset(r, 0, sizeof *r); r->live = true; r->adr = a;
    for (int i = 0; i < A[a].n; i++) {
        r->sa[i].sin6_family = A[a].fam == AF_INET6 || i ? AF_INET6 : AF_INET; r->sa[i].sin6_port = htons((uint16_t)(a*1000+i));
        r->ai[i].ai_family = r->sa[i].sin6_family; r->ai[i].ai_socktype = SOCK_STREAM; r->ai[i].ai_protocol = IPPROTO_TCP; r->ai[i].ai_addr = (void*)&r->sa[i];
        r->ai[i].ai_addrlen = i ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in); r->ai[i].ai_next = i+1 < A[a].n ? &r->ai[i+1] : NULL;
    }
    *res = r->ai; NET_POINT("resolver");
    return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *ai) {
    if (!ai) return;
    for (int i = 0; i < nR; i++) if (ai == R[i].ai) { if (!R[i].live) mc_fail("C27,C28,C29", "a resolver result is released twice"); R[i].live = false; memset(R[i].ai, 0xDD, sizeof R[i].ai); memset(R[i].sa, 0xDD, sizeof R[i].sa); return; }
    mc_fail("C27,C28", "something else than a resolver result is released");
}
static int in_progress(int j) { for (int f = 0; f < LIS; f++) if (vk[f].open && vk[f].state == S_PROG && j-- == 0) return f; return -1; }
static void complete(int f, bool ok) { vk[f].state = ok ? S_EST : S_FAIL; upd(f); mc_log("    (connection of descriptor %d %s)", f, ok ? "established" : "refused"); mc_progress(); }
static int external(void) {
    int n = 0; while (in_progress(n) >= 0) n++;
    if (!n || !ext || draining) return 0;
    int k = mc_choose(1+2*n);
    if (!k) { ext = 0; return 0; }
    ext--; complete(in_progress((k-1)/2), (k-1)%2 == 0); return 1;
}
// ---------------------------------------------------------------- operations
static struct call *begin(struct cot *c, char kind, int a, int sock) { if (nCL >= 60) mc_abandon(); struct call *k = &CL[nCL++]; *k = (struct call){ .co = (int)(c-cot), .kind = kind, .adr = a, .sock = sock }; curcl[c-cot] = k; return k; }
static void own(int f) { if (nown >= 60) mc_abandon(); owned[nown++] = f; }
static void judge_ret(struct cot *c, struct call *k, int r, int en, int64_t dl, const char *what) { // r: neco error code of a failed call
    int rr = NECO_OK;
    if (r == NECO_CANCELED) rr = r;
    else if (r == NECO_TIMEDOUT) rr = r;
    else if (r == NECO_NOMEM) { if (!k->nomem) mc_fail("C27", "%s reports being out of memory", what); }
    else if (r == NECO_GAIERROR) { if (!k->gai) mc_fail("C27", "%s reports a resolver failure that did not happen", what); else if (!k->noent && neco_gai_lasterr() != k->gai) mc_fail("C27,C25", "%s: the resolver said %d, neco_gai_lasterr says %d", what, k->gai, neco_gai_lasterr()); }
    else if (r == NECO_INVAL) { if (!BADADR(k->adr)) mc_fail("C27", "%s reports an invalid argument", what); }
    else if (r == NECO_PERM) { if (!k->nerr || k->lasterr != EPERM) mc_fail("C27", "%s reports a permission problem that did not happen", what); }
    else if (r == NECO_ERROR) { int le = k->lasterr == EAGAIN ? ECONNREFUSED : k->lasterr; if (!k->nerr) mc_fail("C27", "%s fails (errno %d) for no reason", what, en); else if (en != le) mc_fail("C27", "%s fails with errno %d but the system said %d", what, en, le); }
    else mc_fail("C27", "%s returned %d", what, r);
    if (rr == NECO_OK && r != NECO_INVAL) mc_nontrivial();
    mc_outcome((uint64_t)(r+300)*7+(uint64_t)en); chk(c, r, dl);
}
static void check_sock(int fd, const char *what, int st) {
    struct vfd *v = vkf(fd);
    if (!v || !v->open) { mc_fail("C27", "%s returns a descriptor that is not open", what); return; }
    for (int i = 0; i < nown; i++) if (owned[i] == fd-VKBASE) mc_fail("C27", "%s returns a descriptor somebody else owns", what);
    if (!(v->fl & O_NONBLOCK)) mc_fail("C27", "%s returns a blocking descriptor", what);
    if ((v->fl & O_RDWR) != O_RDWR) mc_fail("C27", "%s changes other flags of the descriptor", what);
    if (v->state != st) mc_fail("C27", "%s returns a descriptor that is not %s", what, st == S_EST ? "connected" : "listening");
}
static int neco_of(int en) { return en == ECANCELED ? NECO_CANCELED : en == ETIMEDOUT ? NECO_TIMEDOUT : en == EPERM ? NECO_PERM : en == EINVAL ? NECO_INVAL : en == ENOMEM ? NECO_NOMEM : NECO_ERROR; }
static void do_dial(struct cot *c, int a, int64_t dl) {
    struct call *k = begin(c, 'd', a, -1);
    char ad[160]; snprintf(ad, sizeof ad, "%s", A[a].addr); if (a == 5) snprintf(ad, sizeof ad, "name%02d:84", (int)(k-CL));
    op_begin(c, "dial", K_EV, dl);
    if (mc_verbose) mc_log("co%d dials %s", k->co, A[a].addr);
    errno = 0; int r = dl == INT64_MAX ? neco_dial(A[a].net, ad) : neco_dial_dl(A[a].net, ad, dl), en = errno, le = neco_lasterr();
    op_end(c, r); k->done = true;
    if (le != (r == -1 ? neco_of(en) : r < 0 ? r : 0)) mc_fail("C27,C25", "dial returned %d, the last error is %d", r, le);
    if (r >= 0) {
        check_sock(r, "dial", S_EST);
        int i = vk[r-VKBASE].a - a*1000; if (i < 0 || i >= (a == 4 ? 1 : A[a].n)) mc_fail("C27", "dial connected to something else than requested");
        if (BADADR(a)) mc_fail("C27", "dialing a malformed address succeeds");
        own(r-VKBASE); chk(c, NECO_OK, dl);
        return;
    }
    if (k->okconn && r != NECO_CANCELED) mc_fail("C27", "dial fails (%d) although a connection was established", r);
    if (r == NECO_ERROR && !k->gai && a != 4 && k->tried < A[a].n) mc_fail("C27", "dial gives up after %d of %d addresses", k->tried, A[a].n);
    judge_ret(c, k, r, en, dl, "dial");
}
static void do_serve(struct cot *c, int a) {
    struct call *k = begin(c, 'v', a, -1); bool pre_ = sockfile;
    char ad[160]; snprintf(ad, sizeof ad, "%s", A[a].addr); if (a == 5) snprintf(ad, sizeof ad, "name%02d:84", (int)(k-CL));
    op_begin(c, "serve", K_EV, INT64_MAX);
    errno = 0; int r = neco_serve(A[a].net, ad), en = errno, le = neco_lasterr();
    op_end(c, r); k->done = true;
    if (le != (r == -1 ? neco_of(en) : r < 0 ? r : 0)) mc_fail("C27,C25", "serve returned %d, the last error is %d", r, le);
    if (r >= 0) {
        check_sock(r, "serve", S_LISTEN);
        if (vk[r-VKBASE].a / 1000 != a) mc_fail("C27", "serve listens on something else than requested");
        if (a != 4 && !vk[r-VKBASE].got) mc_fail("C27", "serve does not allow the address to be reused");
        own(r-VKBASE); mc_nontrivial(); chk(c, NECO_OK, INT64_MAX);
        if (a == 4) filemine = false;       // belongs to the server now
        return;
    }
    if (a == 4 && pre_ != sockfile) mc_fail("C27", "a failed serve %s", sockfile ? "leaves its socket file behind" : "removes the socket file of somebody else");
    judge_ret(c, k, r, en, INT64_MAX, "serve");
}
static void do_accept(struct cot *c, int64_t dl) {
    struct call *k = begin(c, 'a', -1, LIS);
    struct sockaddr_in6 sa; memset(&sa, 0, sizeof sa); socklen_t l = sizeof sa; int mode = k->co % 2;
    op_begin(c, "accept", K_EV, dl);
    errno = 0; int r = dl == INT64_MAX ? neco_accept(VKBASE+LIS, mode ? (void*)&sa : NULL, mode ? &l : NULL) : neco_accept_dl(VKBASE+LIS, mode ? (void*)&sa : NULL, mode ? &l : NULL, dl), en = errno;
    op_end(c, r); k->done = true;
    if (r >= 0) {
        check_sock(r, "accept", S_EST);
        int id = vk[r-VKBASE].a - 5000; if (id < 0) mc_fail("C27", "accept returns something else than an incoming connection");
        if (mode && (l != sizeof(struct sockaddr_in) || ntohs(sa.sin6_port) != 5000+id)) mc_fail("C27", "accept does not return the address of the peer");
        own(r-VKBASE); accn++; chk(c, NECO_OK, dl);
        return;
    }
    if (r != -1) mc_fail("C27", "accept returned %d", r);
    int e = neco_of(en); if (e == NECO_PERM && k->lasterr == EPERM) e = NECO_ERROR;
    if (neco_lasterr() == NECO_OK) mc_fail("C27,C25", "accept fails but the last error is 0");
    judge_ret(c, k, e, en, dl, "accept");
}
static int tw_port = 3000;
static void do_connect(struct cot *c, int64_t dl, int again) {
    int f = -1; for (int i = 0; i < LIS; i++) if (!vk[i].open) { f = i; break; }
    if (f < 0) mc_abandon();
    memset(&vk[f], 0, offsetof(struct vfd, log)); vk[f].open = true; vk[f].fl = O_RDWR|O_NONBLOCK; vk[f].state = S_NEW; vk[f].type = AF_INET; upd(f); own(f);
    struct sockaddr_in in = { .sin_family = AF_INET, .sin_port = htons((uint16_t)tw_port) };
    for (int t = 0; t <= again; t++) {
        struct call *k = begin(c, 'c', -1, f);
        op_begin(c, "connect", K_EV, dl);
        errno = 0; int r = dl == INT64_MAX ? neco_connect(VKBASE+f, (void*)&in, sizeof in) : neco_connect_dl(VKBASE+f, (void*)&in, sizeof in, dl), en = errno;
        op_end(c, r); k->done = true;
        if (!vk[f].open) mc_fail("C27", "connect closes the caller's descriptor");
        if (t == 0 ? r == 0 : false) {
            if (vk[f].state != S_EST) mc_fail("C27", "connect succeeds although the connection is not established");
            chk(c, NECO_OK, dl); continue;
        }
        if (r == 0) { mc_fail("C27", "connecting a connected socket succeeds"); return; }
        if (r != -1) mc_fail("C27", "connect returned %d", r);
        if (t == 1) { if (en == EISCONN) return; }
        else if (k->okconn && en != ECANCELED && en != ETIMEDOUT) mc_fail("C27", "connect fails (errno %d) although the connection was established", en);
        if (neco_lasterr() == NECO_OK) mc_fail("C27,C25", "connect fails but the last error is 0");
        judge_ret(c, k, neco_of(en), en, dl, "connect");
        return;
    }
}
static void gone(void *arg) { struct cot *c = arg; mc_log("co%d is canceled asynchronously", (int)(c-cot)); if (curcl[c-cot]) curcl[c-cot]->done = true; c->busy = false; cpend[c-cot] = 0; cot_exit(c); nrunning--; if (nrunning == 0 && !inspecting) { draining = true; inspecting = 2; prog_last(c); } }
static int prog_expand(char o) { return o == 'd' || o == 'D' || o == 'v' ? 10 : 1; }
static bool prog_enabled(struct cot *c, int i, char o, int v) {
    (void)c; (void)i;
    switch (o) { case 'd': case 'D': case 'v': return strchr(adr, '0'+v) != NULL; case 'i': return pend < 3; case 'e': case 'f': return in_progress(0) >= 0; case 'x': return nown > 0; }
    return true;
}
static void op1(struct cot *c, char o, int v) {
    switch (o) {
    case 'd': do_dial(c, v, INT64_MAX); break;
    case 'D': do_dial(c, v, dl_in(1)); break;
    case 'v': do_serve(c, v); break;
    case 'a': do_accept(c, INT64_MAX); break;
    case 'A': do_accept(c, dl_in(1)); break;
    case 'c': do_connect(c, INT64_MAX, 0); break;
    case 'n': do_connect(c, INT64_MAX, 1); break;
    case 'C': do_connect(c, dl_in(1), 0); break;
    }
}
int __wrap_close(int fd);
static void prog_op(struct cot *c, int i, char o, int v) {
    switch (o) {
    case 'i': pend++; upd(LIS); mc_log("co%d: a connection comes in", i); return;
    case 'e': case 'f': complete(in_progress(0), o == 'e'); return;
    case 'x': { int f = owned[0]; memmove(owned, owned+1, sizeof(int)*(size_t)--nown); mc_log("co%d closes descriptor %d", i, f); __wrap_close(VKBASE+f); return; }
    }
    if (async && i > 0) { neco_setcanceltype(NECO_CANCEL_ASYNC, NULL); neco_cleanup_push(gone, c); op1(c, o, v); neco_cleanup_pop(0); neco_setcanceltype(NECO_CANCEL_INLINE, NULL); }
    else op1(c, o, v);
}
static void prog_root(void) {} static void prog_leave(struct cot *c, int i) { (void)c; (void)i; }
static void prog_judge(void) {
    for (int i = 0; i < nCL; i++) if (!CL[i].done && cot[CL[i].co].alive && cot[CL[i].co].busy) {
        struct call *k = &CL[i];
        if (k->kind == 'a') { if (pend) mc_fail("C27,C16", "coroutine %d stays blocked in accept although a connection waits", k->co); }
        else if (k->sock < 0 || !vk[k->sock].open || vk[k->sock].state != S_PROG) mc_fail("C27,C16", "coroutine %d stays blocked in %s although nothing is in progress", k->co, cot[k->co].op);
    }
}
static void prog_inspect(struct cot *c) { (void)c; }
static void prog_last(struct cot *c) {
    (void)c;
    while (nown) __wrap_close(VKBASE+owned[--nown]);
    int n = 0; for (int f = 0; f < LIS; f++) if (vk[f].open && vk[f].type != 7777) n++;
    if (n) mc_fail("C27,C29", "%d sockets are left open", n);
    if (NET_NOTHREADS) for (int i = 0; i < nR; i++) if (R[i].live) mc_fail("C27,C29", "a resolver result is never released");
    if (filemine) mc_fail("C27", "a socket file is left behind");
}
static void prog_reset(void) {
    vk_reset(); nR = nCL = nown = 0; memset(curcl, 0, sizeof curcl); sockfile = pre; filemine = false; pend = in0; nextpend = 0; accn = 0; ext = ext0;
    vk[LIS].open = true; vk[LIS].fl = O_RDWR|O_NONBLOCK; vk[LIS].state = S_LISTEN; upd(LIS);
}
void mc_setup(void) {
    mc_evprop = "C27";
    kd = mc_cfg("kd", 0); ext0 = mc_cfg("ext", 2); async = mc_cfg("async", 0); pre = mc_cfg("pre", 0); in0 = mc_cfg("in0", 0); cmode = mc_cfg("connect", 0);
    snprintf(adr, sizeof adr, "%s", mc_cfgs("adr", "0")); adr[strcspn(adr, ",")] = 0;
    prog_setup(); vk_setup(); vk_dev = 0;
    mc_hooks.socket = n_socket; mc_hooks.connect = n_connect; mc_hooks.bind = n_bind; mc_hooks.listen = n_listen; mc_hooks.accept = n_accept; mc_hooks.setsockopt = n_setsockopt; mc_hooks.getsockopt = n_getsockopt;
    mc_hooks.unlink = n_unlink; mc_hooks.fcntl = n_fcntl; mc_hooks.fault = n_fault; mc_hooks.external = external;
}

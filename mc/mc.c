#include "mc.h"
#include <stdarg.h>
#include <setjmp.h>
#include <link.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <stdatomic.h>
#include <pthread.h>
#include <sys/eventfd.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define ASAN 1
#else
#define ASAN 0
#define ASAN_POISON_MEMORY_REGION(a,b) ((void)0)
#define ASAN_UNPOISON_MEMORY_REGION(a,b) ((void)0)
#endif

struct mc_hooks mc_hooks;
int mc_verbose = 0;
int64_t vt_now;
struct cot cot[MAXCO];
int ncot;
uint64_t mc_seq;
size_t mc_nlive, mc_nmap, mc_nfd;
bool mc_memchecks = true, mc_realmap = false, mc_inmain = false;

// ------------------------------------------------------------------ explorer
#define MAXCH 20000
#define MAXW 64
#define MSGSZ 4000
struct slot {                      // per worker, shared
    atomic_int len;
    int fixed;                     // prefix length that must not be changed
    uint16_t ch[MAXCH], n[MAXCH];
    uint8_t dev[MAXCH];
    atomic_ullong execs, steps, quiesced, nontrivial, maxlen, nodes;
    int slen; uint16_t sch[400];   // a sample execution
    atomic_int failed;             // 1: violation found, 2: engine error
    char msg[MSGSZ];
    atomic_int inexec;
};
#define OUTBITS (1u<<24)
struct shared {
    struct slot s[MAXW];
    atomic_int nexttask, ntasks, stop;
    atomic_uchar out[OUTBITS/8];
};
static struct shared *sh;
static struct slot *me;
static int pos;                    // next choice in this execution
static int replaylen;              // choices below this come from the trace
static int devs, maxdevs;
static char cfgstr[2000];
static char propsel[400];
static uint64_t outh;
static bool outnt;
static sigjmp_buf jb;
static bool in_exec;
static bool abandoned_flag;
static bool fatal_engine;

static void engine_error(const char *m) {
    snprintf(me->msg, MSGSZ, "engine: %s", m);
    me->failed = 2;
    _exit(3);
}

static int choose(int n, bool dev) {
    if (n <= 0) engine_error("choose(<=0)");
    if (n == 1) return 0;
    if (!in_exec) engine_error("choose outside execution");
    if (dev && devs >= maxdevs) return 0;
    if (pos >= MAXCH) engine_error("too many choices in one execution");
    int c;
    if (pos < replaylen) {
        if (me->n[pos] != n) {
            if (me->n[pos] != 0) engine_error("divergence while replaying a prefix");
            me->n[pos] = (uint16_t)n;
        }
        c = me->ch[pos];
        if (c >= n) engine_error("choice out of range while replaying");
    } else {
        c = 0;
        me->ch[pos] = 0; me->n[pos] = (uint16_t)n;
    }
    pos++;
    if (pos > me->len) me->len = pos;
    if (dev && c) devs++;
    return c;
}
int mc_choose(int n) { return choose(n, false); }
int mc_dev(int n) { return choose(n, true); }

const char *mc_cfgs(const char *key, const char *def) {
    static char val[8][200]; static int rot;
    size_t kl = strlen(key);
    const char *p = cfgstr;
    while (*p) {
        if (!strncmp(p, key, kl) && p[kl]=='=') {
            p += kl+1;
            char *v = val[rot++ & 7]; int i = 0;
            while (*p && *p != ',' && i < 199) v[i++] = *p++;
            v[i] = 0; return v;
        }
        while (*p && *p != ',') p++;
        if (*p == ',') p++;
    }
    return def;
}
int mc_cfg(const char *key, int def) {
    const char *v = mc_cfgs(key, NULL);
    return v ? atoi(v) : def;
}

bool mc_selected(const char *props) {
    if (!propsel[0] || !strcmp(props,"*")) return true;
    char buf[200]; snprintf(buf, sizeof buf, "%s", props);
    for (char *s, *t = strtok_r(buf, ",", &s); t; t = strtok_r(NULL, ",", &s))
        if (strstr(propsel, t)) return true;
    return false;
}

void mc_log(const char *fmt, ...) {
    if (!mc_verbose) return;
    va_list ap; va_start(ap, fmt);
    printf("  [%6.3fms] ", (double)(vt_now-VT0)/1e6);
    vprintf(fmt, ap); printf("\n"); fflush(stdout);
    va_end(ap);
}

void mc_abandon(void) {
    abandoned_flag = true;
    siglongjmp(jb, 1);
}
// failures of deadlines and cancelations also count against the property of the operation that shows them
int mc_blame; const char *mc_evprop;
static const char *kindprop(int k) {
    switch (k) { case K_SEND: case K_RECV: return "C01,C02"; case K_SEL: return "C04"; case K_LOCK: return "C08"; case K_WG: return "C10"; case K_COND: return "C09"; case K_SUSP: return "C12"; case K_WORK: return "C20"; case K_SIG: return "C19"; case K_EV: return mc_evprop; }
    return NULL;
}
void mc_fail(const char *props, const char *fmt, ...) {
    char buf[96]; const char *kp = kindprop(mc_blame); mc_blame = 0;
    if (kp && strcmp(props, "*")) { snprintf(buf, sizeof buf, "%s,%s", props, kp); props = buf; }
    char buf2[112]; if (mc_faults && strcmp(props, "*")) { snprintf(buf2, sizeof buf2, "%s,C23", props); props = buf2; } // whatever goes wrong after a fault
    if (!mc_selected(props)) return;
    if (!me->failed) {
        int n = snprintf(me->msg, MSGSZ, "[%s] ", props);
        va_list ap; va_start(ap, fmt);
        vsnprintf(me->msg+n, (size_t)(MSGSZ-n), fmt, ap);
        va_end(ap);
        me->failed = 1;
        if (mc_verbose) { printf("  FAIL %s\n", me->msg); fflush(stdout); }
    }
    mc_abandon();
}
void mc_outcome(uint64_t v) { outh = mc_hash(outh, v); }
void mc_nontrivial(void) { outnt = true; }

// ----------------------------------------------------------- thread-local reset
static char *tls_base; static size_t tls_size; static char *tls_copy;
static int phdr_cb(struct dl_phdr_info *i, size_t sz, void *d) {
    (void)sz; (void)d;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        if (i->dlpi_phdr[k].p_type == PT_TLS) {
            tls_base = i->dlpi_tls_data; tls_size = i->dlpi_phdr[k].p_memsz;
        }
    }
    return 1; // main program only
}
static void tls_snapshot(void) {
    dl_iterate_phdr(phdr_cb, NULL);
    if (tls_base) { tls_copy = malloc(tls_size); memcpy(tls_copy, tls_base, tls_size); }
}
void mc_tls_range(char **base, size_t *size, char **init) { *base = tls_base; *size = tls_size; *init = tls_copy; }

// ------------------------------------------------ static data of the library
extern char mc_lib_data_a[], mc_lib_data_z[], mc_lib_bss_a[], mc_lib_bss_z[];
__attribute__((no_sanitize_address,noinline)) static void rawcpy(char *d, const char *s, size_t n) {
    if (!ASAN) { memcpy(d, s, n); return; }
    for (size_t i = 0; i+8 <= n; i += 8) *(volatile uint64_t*)(d+i) = *(const volatile uint64_t*)(s+i);
}
static char *lib_copy; static size_t lib_nd, lib_nb;
static void lib_snapshot(void) {
    lib_nd = (size_t)(mc_lib_data_z - mc_lib_data_a); lib_nb = (size_t)(mc_lib_bss_z - mc_lib_bss_a);
    if (mc_lib_data_z < mc_lib_data_a || mc_lib_bss_z < mc_lib_bss_a || lib_nd > 1<<20 || lib_nb > 1<<22) { fprintf(stderr, "unexpected link layout\n"); exit(2); }
    lib_copy = malloc(lib_nd+lib_nb); rawcpy(lib_copy, mc_lib_data_a, lib_nd); rawcpy(lib_copy+lib_nd, mc_lib_bss_a, lib_nb);
}
static void lib_restore(void) { // every execution starts with a fresh library
    rawcpy(mc_lib_data_a, lib_copy, lib_nd); rawcpy(mc_lib_bss_a, lib_copy+lib_nd, lib_nb);
    if (tls_base) memcpy(tls_base, tls_copy, tls_size);
}

// ----------------------------------------------------------------- allocator
struct hdr { uint32_t magic, size; uint32_t state; uint32_t seq; };
#define HM 0x6e65636fu
static char *arena; static size_t arena_sz = 96u<<20, arena_pos;
static size_t arena_peak;
static uint32_t alloc_seq;
bool mc_thread_ok = true;
int mc_faults;                  // faults injected in this execution
static bool fault(int kind) { if (in_exec && mc_hooks.fault && mc_hooks.fault(kind)) { mc_faults++; return true; } return false; }

static struct sigaction sigtab[65], sigtab0[65];
static stack_t sigstk, sigstk0;     // the alternate signal stack of the (first) thread
static void sig_snapshot(void) { memcpy(sigtab0, sigtab, sizeof sigtab); sigstk0 = sigstk; }
static void sig_restored(void) {    // a runtime that ended has given back what it took over
    for (int i = 1; i < 65; i++) if (sigtab[i].sa_sigaction != sigtab0[i].sa_sigaction || sigtab[i].sa_flags != sigtab0[i].sa_flags)
        mc_fail("C19,C29", "the runtime ended but the handler of signal %d is not the one that was installed before", i);
    if (sigstk.ss_sp != sigstk0.ss_sp || sigstk.ss_flags != sigstk0.ss_flags || sigstk.ss_size != sigstk0.ss_size)
        mc_fail("C19,C29", "the runtime ended but the alternate signal stack is not the one that was there before");
}
// only the first bytes of huge blocks are poisoned and verified (speed)
static size_t pois(size_t n) { return n > 600 ? 600 : n; }
// blocks too big for the arena
static struct { char *p; size_t n; bool live; } big[16]; static int nbig;
static void *big_new(size_t n) {
    if (nbig == 16) { errno = ENOMEM; return NULL; }
    char *p = __real_mmap(NULL, (n+4095)/4096*4096 + 8192, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { errno = ENOMEM; return NULL; }
    madvise(p, (n+4095)/4096*4096 + 8192, MADV_HUGEPAGE);
    size_t m = (n+4095)/4096*4096;
    __real_mprotect(p, 4096, PROT_NONE); __real_mprotect(p+4096+m, 4096, PROT_NONE);
    big[nbig].p = p+4096 + (m-n)/16*16; big[nbig].n = n; big[nbig].live = true; mc_nlive++;
    return big[nbig++].p;
}
static bool big_free(void *p) {
    for (int i = 0; i < nbig; i++) if (big[i].p == p) {
        if (!big[i].live) mc_fail("*", "free of memory already released (%zu bytes)", big[i].n);
        big[i].live = false; mc_nlive--;
        __real_mmap((void*)((uintptr_t)p/4096*4096), big[i].n, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED, -1, 0);
        return true;
    }
    return false;
}
static void big_reset(void) { for (int i = 0; i < nbig; i++) __real_munmap((void*)((uintptr_t)big[i].p/4096*4096-4096), (big[i].n+4095)/4096*4096+8192); nbig = 0; }
static void *a_malloc(size_t n) {
    if (fault(F_MALLOC)) return NULL;
    if (n > 32u<<20) return big_new(n);
    size_t need = sizeof(struct hdr) + ((n+31)&~(size_t)15);
    if (arena_pos + need > arena_sz) { errno = ENOMEM; return NULL; }
    struct hdr *h = (void*)(arena + arena_pos);
    ASAN_UNPOISON_MEMORY_REGION(h, sizeof *h + n);
    arena_pos += need;
    h->magic = HM; h->size = (uint32_t)n; h->state = 1; h->seq = alloc_seq++;
    char *p = (char*)(h+1);
    memset(p, 0xA5, pois(n));
    if (!ASAN) memset(p+n, 0x5A, 16);
    ASAN_POISON_MEMORY_REGION(h, sizeof *h);
    mc_nlive++;
    return p;
}
static void a_check(struct hdr *h, const char *what) {
    if (h->magic != HM) mc_fail("*", "%s of a pointer that was never allocated", what);
    if (h->state != 1) mc_fail("*", "%s of memory already released (allocation #%u, %u bytes)", what, h->seq, h->size);
    if (!ASAN) for (int i = 0; i < 16; i++)
        if (((unsigned char*)(h+1))[h->size+(size_t)i] != 0x5A)
            mc_fail("*", "heap overflow past allocation #%u of %u bytes", h->seq, h->size);
}
static void a_free(void *p) {
    if (!p) return;
    if (in_exec && mc_hooks.point) mc_hooks.point();
    if (nbig && big_free(p)) return;
    struct hdr *h = (struct hdr*)p - 1;
    if ((char*)h < arena || (char*)h >= arena+arena_pos) mc_fail("*", "free of a foreign pointer");
    ASAN_UNPOISON_MEMORY_REGION(h, sizeof *h);
    a_check(h, "free");
    if (in_exec && sigstk.ss_sp == p && !(sigstk.ss_flags & SS_DISABLE)) mc_fail("C19,C29", "the alternate signal stack in use is released");
    h->state = 2; mc_nlive--;
    memset(p, 0xDD, pois(h->size));
    ASAN_POISON_MEMORY_REGION(h, sizeof *h + h->size);
}
bool mc_live(const void *p) {      // p is an allocation of the library that is not released
    struct hdr *h = (struct hdr*)p - 1;
    if ((char*)h < arena || (char*)h >= arena+arena_pos) return false;
    ASAN_UNPOISON_MEMORY_REGION(h, sizeof *h);
    bool r = h->magic == HM && h->state == 1;
    ASAN_POISON_MEMORY_REGION(h, sizeof *h);
    return r;
}
static void *a_realloc(void *p, size_t n) {
    if (!p) return a_malloc(n);
    struct hdr *h = (struct hdr*)p - 1;
    ASAN_UNPOISON_MEMORY_REGION(h, sizeof *h);
    a_check(h, "realloc");
    void *q = a_malloc(n);
    if (!q) { ASAN_POISON_MEMORY_REGION(h, sizeof *h); return NULL; }
    memcpy(q, p, h->size < n ? h->size : n);
    a_free(p);
    return q;
}
static void arena_reset(void) {
    if (nbig) big_reset();
    if (arena_pos) ASAN_UNPOISON_MEMORY_REGION(arena, arena_pos);
    arena_pos = 0; alloc_seq = 0; mc_nlive = 0;
}
static void arena_verify(bool natural) {
    if (!mc_memchecks) return;
    if (natural) for (int i = 0; i < nbig; i++) if (big[i].live) mc_fail("C29,C23,C06,C27,C28", "memory leaked at the end of the runtime (%zu bytes)", big[i].n);
    size_t p = 0;
    while (p < arena_pos) {
        struct hdr *h = (void*)(arena+p);
        ASAN_UNPOISON_MEMORY_REGION(h, sizeof *h);
        uint32_t sz = h->size, st = h->state;
        ASAN_UNPOISON_MEMORY_REGION(h+1, sz);
        unsigned char *d = (unsigned char*)(h+1);
        if (st == 2 && !ASAN) {
            uint32_t i = 0, e = (uint32_t)pois(sz); uint64_t bad = 0;
            for (; i+8 <= e; i += 8) { uint64_t w; memcpy(&w, d+i, 8); bad |= w ^ 0xDDDDDDDDDDDDDDDDull; }
            if (bad) i = 0;
            for (; i < e; i++) if (d[i] != 0xDD)
                mc_fail("*", "memory written after release (allocation #%u of %u bytes, offset %u)", h->seq, sz, i);
        } else if (st == 1 && natural) {
            mc_fail("C29,C23,C06,C27,C28", "memory leaked at the end of the runtime (allocation #%u of %u bytes)", h->seq, sz);
        }
        p += sizeof(struct hdr) + (((size_t)sz+31)&~(size_t)15);
    }
}

// -------------------------------------------------------------------- mapping
struct mapent { char *p; size_t n; bool live; };
static struct mapent maps[4096]; static int nmaps;
static bool guards_used;
void *__wrap_mmap(void *addr, size_t n, int prot, int flags, int fd, off_t off) {
    if (!in_exec || addr || fd != -1) return __real_mmap(addr,n,prot,flags,fd,off);
    if (fault(F_MMAP)) { errno = ENOMEM; return MAP_FAILED; }
    mc_nmap++;
    if (!mc_realmap) {
        for (int i = 0; i < nmaps; i++) if (!maps[i].live && maps[i].p && maps[i].n == n) {
            maps[i].live = true; if (mc_hooks.mapped) mc_hooks.mapped(maps[i].p, n);
            if (prot != (PROT_READ|PROT_WRITE)) __real_mprotect(maps[i].p, n, prot); else memset(maps[i].p, 0, n < 4096 ? n : 4096);
            return maps[i].p;
        }
    }
    char *p = __real_mmap(addr, n, prot, flags, fd, off);
    if (p == MAP_FAILED) { mc_nmap--; return p; }
    int k = -1;
    for (int i = 0; i < nmaps; i++) if (!maps[i].p) { k = i; break; }
    if (k < 0) { if (nmaps == 4096) engine_error("too many mappings"); k = nmaps++; }
    maps[k] = (struct mapent){ p, n, true };
    if (mc_hooks.mapped) mc_hooks.mapped(p, n);
    return p;
}
int __wrap_munmap(void *addr, size_t n) {
    if (!in_exec) return __real_munmap(addr, n);
    for (int i = 0; i < nmaps; i++) if (maps[i].p == addr) {
        if (!maps[i].live) mc_fail("*", "munmap of a region already unmapped");
        if (maps[i].n != n) mc_fail("C22,C29,C23", "munmap of %zu bytes of a mapping of %zu", n, maps[i].n);
        mc_nmap--;
        maps[i].live = false;
        if (mc_realmap || guards_used) { __real_munmap(addr, maps[i].n); maps[i].p = NULL; }
        return 0;
    }
    // partial or foreign
    mc_fail("C22,C29,C23", "munmap of a region the library did not map");
    return __real_munmap(addr, n);
}
int __wrap_mprotect(void *addr, size_t n, int prot) {
    guards_used = true;
    if (fault(F_MPROTECT)) { errno = ENOMEM; return -1; }
    return __real_mprotect(addr, n, prot);
}
bool mc_addr_mapped(const void *a, const void *b) { // inside one live library mapping?
    for (int i = 0; i < nmaps; i++) if (maps[i].live && (char*)a >= maps[i].p && (char*)b <= maps[i].p+maps[i].n) return true;
    return false;
}
static void maps_reset(void) {
    for (int i = 0; i < nmaps; i++) {
        if (maps[i].p && maps[i].live && (mc_realmap || guards_used)) { __real_munmap(maps[i].p, maps[i].n); maps[i].p = NULL; }
        maps[i].live = false;
    }
    guards_used = false;
    mc_nmap = 0;
}

// ----------------------------------------------------------------- descriptors
static unsigned char fdlive[1024];
static void fd_add(int fd) { if (fd >= 0 && fd < 1024 && in_exec) { fdlive[fd] = 1; mc_nfd++; } }
bool mc_fd_isopen(int fd) { return fd >= 0 && fd < 1024 && fdlive[fd]; }
void mc_fd_forget(int fd) { if (mc_fd_isopen(fd)) { fdlive[fd] = 0; mc_nfd--; } }
int __wrap_epoll_create1(int f) {
    if (fault(F_EPOLL_CREATE)) { errno = EMFILE; return -1; }
    int fd = mc_hooks.epoll_create1 ? mc_hooks.epoll_create1(f) : __real_epoll_create1(f);
    fd_add(fd); return fd;
}
int __wrap_epoll_create(int n) { (void)n; return __wrap_epoll_create1(0); }
int __wrap_epoll_ctl(int q, int op, int fd, struct epoll_event *ev) {
    if (fault(F_EPOLL_CTL)) { errno = ENOMEM; return -1; }
    return mc_hooks.epoll_ctl ? mc_hooks.epoll_ctl(q,op,fd,ev) : __real_epoll_ctl(q,op,fd,ev);
}
int __wrap_close(int fd) {
    if (in_exec && fd >= 0 && fd < 1024 && fdlive[fd]) { fdlive[fd] = 0; mc_nfd--; }
    return mc_hooks.close ? mc_hooks.close(fd) : __real_close(fd);
}
int __wrap_pipe(int *f) {
    if (fault(F_PIPE)) { errno = EMFILE; return -1; }
    int r = mc_hooks.pipe ? mc_hooks.pipe(f) : __real_pipe(f);
    if (r == 0) { fd_add(f[0]); fd_add(f[1]); } return r;
}
int __real_pipe2(int*,int);
int __wrap_pipe2(int *f, int fl) {
    if (fault(F_PIPE)) { errno = EMFILE; return -1; }
    int r = mc_hooks.pipe ? mc_hooks.pipe(f) : __real_pipe2(f, fl);
    if (r == 0) { fd_add(f[0]); fd_add(f[1]); } return r;
}
int __real_eventfd(unsigned,int);
int __wrap_eventfd(unsigned v, int fl) { int fd = __real_eventfd(v, fl); fd_add(fd); return fd; }
int __wrap_socket(int d, int t, int p) {
    if (fault(F_SOCKET)) { errno = EMFILE; return -1; }
    int fd = mc_hooks.socket ? mc_hooks.socket(d,t,p) : __real_socket(d,t,p);
    fd_add(fd); return fd;
}
int __wrap_accept(int s, struct sockaddr *a, socklen_t *l) {
    int fd = mc_hooks.accept ? mc_hooks.accept(s,a,l) : __real_accept(s,a,l);
    if (fd >= 0) fd_add(fd);
    return fd;
}
int __real_accept4(int,struct sockaddr*,socklen_t*,int);
int __wrap_accept4(int s, struct sockaddr *a, socklen_t *l, int fl) {
    int fd = mc_hooks.accept ? mc_hooks.accept(s,a,l) : __real_accept4(s,a,l,fl);
    if (fd >= 0) fd_add(fd);
    return fd;
}
#define WRAP(ret,name,params,args) ret __wrap_##name params { return mc_hooks.name ? mc_hooks.name args : __real_##name args; }
WRAP(ssize_t,read,(int a,void*b,size_t c),(a,b,c))
WRAP(ssize_t,write,(int a,const void*b,size_t c),(a,b,c))
WRAP(ssize_t,recv,(int a,void*b,size_t c,int d),(a,b,c,d))
WRAP(ssize_t,send,(int a,const void*b,size_t c,int d),(a,b,c,d))
WRAP(int,connect,(int a,const struct sockaddr*b,socklen_t c),(a,b,c))
WRAP(int,bind,(int a,const struct sockaddr*b,socklen_t c),(a,b,c))
WRAP(int,listen,(int a,int b),(a,b))
WRAP(int,setsockopt,(int a,int b,int c,const void*d,socklen_t e),(a,b,c,d,e))
WRAP(int,getsockopt,(int a,int b,int c,void*d,socklen_t*e),(a,b,c,d,e))
WRAP(int,unlink,(const char*a),(a))
int __wrap_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    return mc_hooks.fcntl ? mc_hooks.fcntl(fd,cmd,a) : __real_fcntl(fd,cmd,a);
}
int __wrap_fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    return mc_hooks.fcntl ? mc_hooks.fcntl(fd,cmd,a) : __real_fcntl(fd,cmd,a);
}

// --------------------------------------------------------------------- signals
static uint64_t sigset_by_lib;
int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *o) {
    if (mc_hooks.sigaction) return mc_hooks.sigaction(s,a,o);
    if (s < 1 || s > 64) { errno = EINVAL; return -1; }
    if (o) *o = sigtab[s];
    if (a) sigtab[s] = *a;
    return 0;
}
void mc_sigtab_set(int s, struct sigaction *a) { sigtab[s] = *a; }
void mc_sigtab_get(int s, struct sigaction *a) { *a = sigtab[s]; }
int __wrap_sigaltstack(const stack_t *a, stack_t *b) {
    if (b) *b = sigstk;
    if (a && in_exec && !(a->ss_flags & SS_DISABLE)) {
        if (!a->ss_sp) mc_fail("C19,C23,C29", "the alternate signal stack is set to no memory");
        if (!mc_live(a->ss_sp) && (char*)a->ss_sp >= arena && (char*)a->ss_sp < arena+arena_sz) mc_fail("C19,C29", "the alternate signal stack is set to released memory");
    }
    if (a) sigstk = *a;
    return 0;
}
void mc_sigstk_set(stack_t s) { sigstk = s; }
stack_t mc_sigstk_get(void) { return sigstk; }
void __wrap__Exit(int code) {
    if (mc_hooks.exitnow) mc_hooks.exitnow(code);
    if (in_exec) mc_fail("*", "the library ended the process with status %d", code);
    _exit(code);
}
void __wrap_abort(void) {
    if (in_exec && mc_hooks.aborted) mc_hooks.aborted();
    if (in_exec) mc_fail("*", "the library aborted the process");
    _exit(134);
}

// ------------------------------------------------------------------------ time
int mc_notrack;                    // 1: tracking is done by the harness, 2: not at all
static uint64_t spin;              // clock reads since the last progress
static uint64_t turns;             // steps in this execution
int mc_curth; uint64_t mc_spinmax = 6000, mc_prog;
void mc_progress(void) { spin = 0; mc_prog++; }

void mc_quiescent(const char *how) {
    mc_log("-- quiescent (%s)", how);
    me->quiesced++;
    if (mc_hooks.quiesce) mc_hooks.quiesce();
    mc_abandon();
}
static bool any_runnable(int *who) {
    for (int i = 0; i < ncot; i++) if (cot[i].used && cot[i].alive && cot[i].th == mc_curth && (!cot[i].busy || cot[i].mustrun)) { *who = i; return true; }
    return false;
}
static int64_t earliest(int *who) {
    int64_t e = INT64_MAX;
    for (int i = 0; i < ncot; i++) if (cot[i].used && cot[i].alive && cot[i].th == mc_curth && cot[i].busy && cot[i].dl < e && !(mc_hooks.dlexempt && mc_hooks.dlexempt(i))) { e = cot[i].dl; *who = i; }
    return e;
}
static bool idle_intr;             // a signal interrupts the call
void mc_idle(int64_t timeout) {
    if (!in_exec) return;
    int who = -1;
    idle_intr = false;
    if (mc_hooks.external) { int x = mc_hooks.external(); if (x) { spin = 0; idle_intr = x == 2; return; } }
    if (!mc_notrack && any_runnable(&who))
        mc_fail("C13", "the scheduler sleeps %lld ns although coroutine %d can run (in %s)",
            (long long)timeout, who, cot[who].op ? cot[who].op : "its own code");
    int64_t e = earliest(&who);
    if (e == INT64_MAX && !mc_notrack && !mc_hooks.sleep) mc_quiescent("sleeping");
    if (e < vt_now - 2*MS)
        mc_blame = cot[who].kind, mc_fail("C14", "the scheduler sleeps although the deadline of %s in coroutine %d passed %lld ns ago", cot[who].op, who, (long long)(vt_now-e));
    if (e < INT64_MAX && vt_now + timeout > e + 2*MS)
        mc_blame = cot[who].kind, mc_fail("C14", "the scheduler sleeps %lld ns, beyond the deadline of %s in coroutine %d by %lld ns",
            (long long)timeout, cot[who].op, who, (long long)(vt_now+timeout-e));
    if (mc_hooks.sleep) { mc_hooks.sleep(timeout, e == INT64_MAX); return; }
    if (mc_hooks.idle && !mc_notrack) mc_hooks.idle();
    vt_now += timeout;
    if (++spin > 4000) { spin = 0; mc_quiescent("timers only"); }
}
static uint64_t late_at, nlate;    // the rest of a round of the scheduler may go by after a deadline
static void tick_spin(void) {
    if (!in_exec) return;
    if (++spin > mc_spinmax) {
        if (mc_hooks.external && mc_hooks.external()) { spin = 0; return; }
        int who = -1;
        if (!mc_notrack && any_runnable(&who))
            mc_fail("C13,C14", "the scheduler spins without running coroutine %d, which can run (in %s)", who, cot[who].op ? cot[who].op : "its own code");
        int64_t e = earliest(&who);
        if (e < vt_now) {
            if (late_at != mc_prog) { late_at = mc_prog; nlate = 0; }
            if (++nlate > 200) mc_blame = cot[who].kind, mc_fail("C14", "deadline of %s in coroutine %d passed %lld ns ago and it is never woken", cot[who].op, who, (long long)(vt_now-e));
            vt_now += MS/50;
        } else {
            if (e == INT64_MAX || mc_notrack) mc_quiescent("spinning");
            vt_now += MS/2;
        }
        if (spin > mc_spinmax+194000) mc_quiescent("spinning");
    }
}
int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
    (void)id;
    if (!in_exec) return __real_clock_gettime(id, ts);
    vt_now++;
    tick_spin();
    ts->tv_sec = vt_now/1000000000; ts->tv_nsec = vt_now%1000000000;
    return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z) {
    (void)z; vt_now++; tick_spin();
    tv->tv_sec = vt_now/1000000000; tv->tv_usec = vt_now%1000000000/1000; return 0;
}
static void do_sleep(int64_t ns) { if (ns > 0) mc_idle(ns); else tick_spin(); }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) {
    (void)b; do_sleep(a->tv_sec*INT64_C(1000000000)+a->tv_nsec);
    if (idle_intr) { idle_intr = false; errno = EINTR; return -1; }
    return 0;
}
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
    (void)c; (void)b; int64_t t = a->tv_sec*INT64_C(1000000000)+a->tv_nsec;
    if (fl) t -= vt_now;
    do_sleep(t); return 0;
}
int __wrap_usleep(useconds_t u) { do_sleep((int64_t)u*1000); return 0; }
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    (void)n; (void)r; (void)w; (void)e;
    do_sleep(tv ? tv->tv_sec*INT64_C(1000000000)+tv->tv_usec*1000 : 500*MS); return 0;
}
int __real_poll(struct pollfd*,nfds_t,int);
int __wrap_poll(struct pollfd *p, nfds_t n, int t) {
    int r = __real_poll(p, n, 0);
    if (r) return r;
    if (t) do_sleep(t < 0 ? 500*MS : (int64_t)t*MS);
    return __real_poll(p, n, 0);
}
static int ep_poll(int q, struct epoll_event *ev, int n) {
    return mc_hooks.epoll_wait ? mc_hooks.epoll_wait(q, ev, n) : __real_epoll_wait(q, ev, n, 0);
}
int __wrap_epoll_wait(int q, struct epoll_event *ev, int n, int t) {
    if (!in_exec) return __real_epoll_wait(q,ev,n,t);
    int r = ep_poll(q, ev, n);
    if (r != 0) { tick_spin(); return r; }
    if (t == 0) {
        int who;
        tick_spin();
        if (mc_hooks.relax) mc_hooks.relax();
        // Everyone is blocked: let the rest of a millisecond pass.
        if (mc_notrack == 2) vt_now += 20000;
        if (!mc_notrack && !any_runnable(&who)) {
            int64_t e = earliest(&who);
            if (e < INT64_MAX && e >= vt_now) vt_now += 100000;
        }
        return 0;
    }
    mc_idle(t < 0 ? 500*MS : (int64_t)t*MS);
    if (idle_intr) { idle_intr = false; errno = EINTR; return -1; }
    return ep_poll(q, ev, n);
}
int __wrap_epoll_pwait(int q, struct epoll_event *ev, int n, int t, const sigset_t *s) { (void)s; return __wrap_epoll_wait(q,ev,n,t); }
int __wrap_sched_yield(void) { tick_spin(); if (mc_hooks.relax) mc_hooks.relax(); return 0; }

// ------------------------------------------------------------------- tracking
struct cot *cot_new(void) {
    if (ncot >= MAXCO) engine_error("too many coroutines");
    struct cot *c = &cot[ncot++];
    memset(c, 0, sizeof *c);
    c->used = c->alive = true; c->dl = INT64_MAX; c->id = neco_getid(); c->th = mc_curth;
    spin = 0; mc_prog++;
    return c;
}
int (*mc_pend)(int);
static void op_begin0(struct cot *c, const char *op, int kind, int64_t dl, bool x) {
    c->op = op; c->kind = kind; c->dl = dl; c->mustrun = x; c->busy = true; c->disturbed = false;
    c->inv = ++mc_seq; c->nops++; c->waited = 0; c->pend0 = mc_pend ? mc_pend((int)(c-cot)) : 0;
    spin = 0; mc_prog++; me->steps++;
    if (++turns > 200000) { mc_fail("*", "execution does not end"); mc_abandon(); }
}
void op_begin(struct cot *c, const char *op, int kind, int64_t dl) { op_begin0(c,op,kind,dl,false); }
void op_beginx(struct cot *c, const char *op, int kind, int64_t dl) { op_begin0(c,op,kind,dl,true); }
static void fairness(struct cot *c) { // a turn of c: nobody else may have to wait for too many
    int lim = 8*ncot+40;
    for (struct cot *o = cot; o < cot+ncot; o++) {
        if (o == c || !o->alive || !o->busy || o->th != c->th) continue;
        if (o->mustrun) {
            if (++o->waited > lim) mc_fail("C13", "coroutine %d, which can run (in %s), waited for %d turns of others", (int)(o-cot), o->op, lim);
        } else if (o->dl < vt_now - 1000 && !(mc_hooks.dlexempt && mc_hooks.dlexempt((int)(o-cot)))) {
            if (++o->waited > lim) mc_blame = o->kind, mc_fail("C14", "the deadline of %s in coroutine %d has passed but it waited for %d turns of others", o->op, (int)(o-cot), lim);
        }
    }
}
int op_end(struct cot *c, int ret) {
    if (!mc_notrack) fairness(c);
    c->busy = false; spin = 0; mc_prog++; mc_seq++;
    if (mc_verbose) mc_log("co%d %s -> %d%s%s", (int)(c-cot), c->op, ret, ret < 0 ? " " : "", ret < 0 ? neco_strerror(ret) : "");
    return ret;
}
void cot_exit(struct cot *c) { c->alive = false; spin = 0; mc_prog++; }

// ------------------------------------------------------------------ statistics
static void stats_count(size_t *n, size_t *al) {
    memset(n, 0, sizeof(size_t)*16); *al = 0;
    for (int i = 0; i < ncot; i++) if (cot[i].alive && cot[i].th == mc_curth) { (*al)++; if (cot[i].busy) n[cot[i].kind & 15]++; }
}
void mc_next_runtime(void) {
    mc_log("-- runtime ended, the next one starts");
    if (mc_hooks.end) mc_hooks.end();
    sig_restored();
    if (mc_nlive || mc_nmap || mc_nfd) mc_fail("C29", "%zu allocations, %zu mappings, %zu descriptors are left by a runtime", mc_nlive, mc_nmap, mc_nfd);
    memset(cot, 0, sizeof(struct cot)*(size_t)ncot); ncot = 0;
    if (mc_hooks.reset) mc_hooks.reset();
    sig_snapshot();
}
void mc_disturb(int64_t id) { for (int i = 0; i < ncot; i++) if (cot[i].alive && cot[i].id == id) cot[i].disturbed = true; }
// certainly still in that state: nothing can have woken it
static size_t stats_sure(int kind) { size_t n = 0; for (int i = 0; i < ncot; i++) if (cot[i].alive && cot[i].th == mc_curth && cot[i].busy && cot[i].kind == kind && !cot[i].disturbed && cot[i].dl > vt_now + 100000) n++; return n; }
static void stats_cmp(bool exact, size_t extra) {
    if (!mc_selected("C24")) return;
    size_t n[16], al; stats_count(n, &al); al += extra;
    neco_stats s; memset(&s, 0xff, sizeof s);
    if (neco_getstats(&s) != NECO_OK) { mc_fail("C24", "neco_getstats fails"); return; }
    struct { const char *name; size_t rep, act; } t[] = {
        {"sleepers", s.sleepers, n[K_SLEEP]}, {"evwaiters", s.evwaiters, n[K_EV]}, {"sigwaiters", s.sigwaiters, n[K_SIG]},
        {"senders", s.senders, n[K_SEND]}, {"receivers", s.receivers, n[K_RECV]+n[K_SEL]}, {"suspended", s.suspended, n[K_SUSP]},
        {"waitgroupers", s.waitgroupers, n[K_WG]}, {"locked+condwaiters", s.locked+s.condwaiters, n[K_LOCK]+n[K_COND]},
    };
    for (size_t i = 0; i < sizeof t/sizeof *t; i++) if (t[i].rep > t[i].act || (exact && t[i].rep != t[i].act))
        mc_fail("C24", "statistics report %zu %s but %zu coroutines are in such a call", t[i].rep, t[i].name, t[i].act);
    if (s.sleepers < stats_sure(K_SLEEP)) mc_fail("C24", "statistics report %zu sleepers but %zu coroutines sleep", s.sleepers, stats_sure(K_SLEEP));
    if (s.suspended < stats_sure(K_SUSP)) mc_fail("C24", "statistics report %zu suspended but %zu coroutines are suspended", s.suspended, stats_sure(K_SUSP));
    if (s.condwaiters > n[K_COND]) mc_fail("C24", "statistics report %zu condwaiters but %zu coroutines are in such a call", s.condwaiters, n[K_COND]);
    if (exact && s.locked < n[K_LOCK]) mc_fail("C24", "statistics report %zu locked but %zu coroutines wait for a lock", s.locked, n[K_LOCK]);
    if (s.coroutines != al) mc_fail("C24", "statistics report %zu coroutines but %zu are alive", s.coroutines, al);
}
void mc_stats_upper(void) { stats_cmp(false, 0); }
void mc_stats_exact(int extra) { stats_cmp(true, (size_t)extra); }

// ----------------------------------------------------------------- one execution
static void reset_all(void) {
    arena_reset(); maps_reset();
    memset(cot, 0, sizeof(struct cot)*(size_t)(ncot < MAXCO ? ncot : MAXCO)); ncot = 0;
    if (mc_nfd) for (int i = 0; i < 1024; i++) if (fdlive[i]) {
        if (!mc_hooks.close) __real_close(i); else mc_hooks.close(i);
        fdlive[i] = 0;
    }
    mc_curth = 0; mc_prog = 0;
    mc_nfd = 0; mc_seq = 0; mc_faults = 0; vt_now = VT0; spin = 0; turns = 0; nlate = 0; late_at = 0;
    memset(sigtab, 0, sizeof sigtab); sigset_by_lib = 0; memset(&sigstk, 0, sizeof sigstk); sigstk.ss_flags = SS_DISABLE;
    mc_inmain = false;
}
static void run_one(void) {
    pos = 0; devs = 0; outh = 0x1234; outnt = false; abandoned_flag = false;
    reset_all(); lib_restore();
    if (mc_hooks.reset) mc_hooks.reset();
    sig_snapshot();
    me->inexec = 1;
    in_exec = true;
    if (sigsetjmp(jb, 0) == 0) {
        mc_hooks.run();
        mc_inmain = true;
        mc_log("-- runtime ended");
        if (mc_hooks.end) mc_hooks.end();
        sig_restored();
        arena_verify(true);
        if (mc_nmap) mc_fail("C29,C22,C23", "%zu stack mappings left at the end of the runtime", mc_nmap);
        if (mc_nfd) mc_fail("C29,C16,C23,C27,C28", "%zu descriptors left open at the end of the runtime", mc_nfd);
    } else {
        if (!me->failed && sigsetjmp(jb,0) == 0) arena_verify(false);
        if (tls_base) memcpy(tls_base, tls_copy, tls_size);
    }
    in_exec = false;
    me->inexec = 0;
    me->execs++;
    if ((unsigned long long)pos > me->maxlen) me->maxlen = (unsigned long long)pos;
    me->nodes += (unsigned long long)(pos-replaylen+1 > 0 ? pos-replaylen+1 : 1);
    if (outnt) {
        me->nontrivial++;
        if ((me->nontrivial & (me->nontrivial-1)) == 0 && pos < 400) {
            me->slen = pos; memcpy(me->sch, me->ch, sizeof(uint16_t)*(size_t)pos);
        }
        uint32_t b = (uint32_t)(outh ^ (outh>>31)) & (OUTBITS-1);
        sh->out[b>>3] |= (unsigned char)(1u<<(b&7));
    }
    if (pos < replaylen && !me->failed) engine_error("execution ended before its prefix was consumed");
}

// run fn as an execution without choices, before the search
void mc_calibrate(void (*fn)(void)) {
    reset_all(); lib_restore();
    if (mc_hooks.reset) mc_hooks.reset();
    in_exec = true; fn(); in_exec = false;
}
// depth-first search below the current prefix me->ch[0..fixed)
static void dfs(void) {
    replaylen = me->fixed;
    while (1) {
        if (sh->stop) return;
        run_one();
        if (me->failed) { sh->stop = 1; return; }
        int k = pos-1;
        while (k >= me->fixed && me->ch[k]+1 >= me->n[k]) k--;
        if (k < me->fixed) return;
        me->ch[k]++;
        replaylen = k+1;
        me->len = k+1;
    }
}

struct task { int len; uint16_t ch[200], n[200]; };
static struct task *tasks; static int ntask;
#define MAXTASK 60000

static void child_init(int w) {
    me = &sh->s[w];
    struct rlimit rl = {0,0}; setrlimit(RLIMIT_CORE, &rl);
    if (mc_cfg("fd0", 0)) __real_close(0); // standard input closed: the library gets descriptor zero
    if (mc_hooks.init) mc_hooks.init();
    // neco writes its crash messages to stderr
}

static void split(int target) {
    // breadth-first expansion of prefixes
    int lo = 0; ntask = 1; tasks[0].len = 0;
    while (ntask - lo < target && ntask < MAXTASK-400 && lo < ntask) {
        struct task *t = &tasks[lo];
        if (t->len >= 190) break;
        memcpy(me->ch, t->ch, sizeof(uint16_t)*(size_t)t->len);
        memcpy(me->n, t->n, sizeof(uint16_t)*(size_t)t->len);
        me->len = t->len; me->fixed = t->len; replaylen = t->len;
        unsigned long long e0 = me->execs, s0 = me->steps, q0 = me->quiesced, n0 = me->nontrivial;
        run_one();
        if (me->failed) return;
        int plen = t->len;
        if (pos == plen) { lo++; continue; } // leaf: fully explored by this run
        me->execs = e0; me->steps = s0; me->quiesced = q0; me->nontrivial = n0;
        int n = me->n[plen];
        for (int c = 0; c < n; c++) {
            struct task *u = &tasks[ntask++];
            memcpy(u->ch, t->ch, sizeof(uint16_t)*(size_t)plen);
            memcpy(u->n, t->n, sizeof(uint16_t)*(size_t)plen);
            u->ch[plen] = (uint16_t)c; u->n[plen] = (uint16_t)n; u->len = plen+1;
        }
        lo++;
    }
    sh->nexttask = lo; sh->ntasks = ntask;
}

static void worker(int w) {
    child_init(w);
    while (!sh->stop) {
        int t = atomic_fetch_add(&sh->nexttask, 1);
        if (t >= sh->ntasks) break;
        struct task *k = &tasks[t];
        memcpy(me->ch, k->ch, sizeof(uint16_t)*(size_t)k->len);
        memcpy(me->n, k->n, sizeof(uint16_t)*(size_t)k->len);
        me->len = k->len; me->fixed = k->len;
        dfs();
    }
    _exit(0);
}

static double now_s(void) { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec/1e9; }

// run a child function; returns wait status, -1 on hang
static int run_child(void (*fn)(int), int w, double limit) {
    pid_t pid = fork();
    if (pid == 0) { fn(w); _exit(0); }
    double t0 = now_s(); unsigned long long last = sh->s[w].execs;
    while (1) {
        int st; pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) return st;
        if (sh->s[w].execs != last) { last = sh->s[w].execs; t0 = now_s(); }
        if (now_s()-t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return -1; }
        struct timespec ts = {0, 2000000}; syscall(35, &ts, NULL); // real nanosleep
    }
}
static int jobs = 8;
static void split_child(int w) { child_init(w); split(jobs*40); }
static int replay_n;
static void replay_child(int w) {
    child_init(w);
    me->fixed = replay_n; replaylen = replay_n; me->len = replay_n;
    if (mc_verbose) printf("replaying %d choices, configuration %s\n", replay_n, cfgstr);
    run_one();
    if (mc_verbose) printf("%s\n", me->failed ? me->msg : "no violation");
    fflush(stdout);
}

static void json_str(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static const char *outpath;
static void finish(const char *result, int w, double t0) {
    unsigned long long ex=0, st=0, q=0, nt=0, ml=0, nd=0; int sw = -1;
    for (int i = 0; i < MAXW; i++) {
        ex += sh->s[i].execs; st += sh->s[i].steps; q += sh->s[i].quiesced; nt += sh->s[i].nontrivial;
        if (sh->s[i].maxlen > ml) ml = sh->s[i].maxlen;
        nd += sh->s[i].nodes; if (sh->s[i].slen && (sw < 0 || sh->s[i].slen > sh->s[sw].slen)) sw = i;
    }
    unsigned long long out = 0;
    for (size_t i = 0; i < OUTBITS/8; i++) out += (unsigned)__builtin_popcount(sh->out[i]);
    FILE *f = outpath ? fopen(outpath, "w") : stdout;
    fprintf(f, "{\"result\":\"%s\",\"cfg\":", result); json_str(f, cfgstr);
    fprintf(f, ",\"execs\":%llu,\"steps\":%llu,\"quiescent\":%llu,\"nontrivial\":%llu,\"outcomes\":%llu,\"maxchoices\":%llu,\"nodes\":%llu,\"wall\":%.3f",
        ex, st, q, nt, out, ml, nd, now_s()-t0);
    if (sw >= 0) {
        fprintf(f, ",\"sample\":[");
        for (int i = 0; i < sh->s[sw].slen; i++) fprintf(f, "%s%d", i?",":"", sh->s[sw].sch[i]);
        fprintf(f, "]");
    }
    if (w >= 0) {
        fprintf(f, ",\"msg\":"); json_str(f, sh->s[w].msg);
        fprintf(f, ",\"choices\":[");
        for (int i = 0; i < sh->s[w].len; i++) fprintf(f, "%s%d", i?",":"", sh->s[w].ch[i]);
        fprintf(f, "]");
    }
    fprintf(f, "}\n");
    if (outpath) fclose(f);
    fflush(stdout);
}

static const char *describe(int st, char *buf, size_t n) {
    if (st == -1) snprintf(buf, n, "[*] the execution hangs (no progress)");
    else if (WIFSIGNALED(st)) snprintf(buf, n, "[*] the execution crashes with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    else snprintf(buf, n, "[*] the process ends unexpectedly with status %d", WEXITSTATUS(st));
    return buf;
}

static int confirm(int w, double limit) { // replay twice in fresh processes
    static uint16_t ch[MAXCH]; int len = sh->s[w].len;
    memcpy(ch, sh->s[w].ch, sizeof ch);
    int ok = 0;
    for (int r = 0; r < 2; r++) {
        struct slot *s = &sh->s[MAXW-1];
        memset(s, 0, sizeof *s);
        memcpy(s->ch, ch, sizeof(uint16_t)*(size_t)len);
        replay_n = len;
        sh->stop = 0;
        int st = run_child(replay_child, MAXW-1, limit);
        bool crashed = st == -1 || WIFSIGNALED(st) || (WEXITSTATUS(st) != 0 && s->failed != 2);
        if (s->failed == 1 || crashed) ok++;
        memset(s, 0, sizeof *s);
    }
    return ok == 2;
}

int main(int argc, char **argv) {
    const char *replay = NULL; double hang = 40;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i],"--cfg")) snprintf(cfgstr, sizeof cfgstr, "%s", argv[++i]);
        else if (!strcmp(argv[i],"--props")) snprintf(propsel, sizeof propsel, "%s", argv[++i]);
        else if (!strcmp(argv[i],"--jobs")) jobs = atoi(argv[++i]);
        else if (!strcmp(argv[i],"--out")) outpath = argv[++i];
        else if (!strcmp(argv[i],"--replay")) replay = argv[++i];
        else if (!strcmp(argv[i],"-v")) mc_verbose = 1;
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; }
    }
    if (jobs < 1) jobs = 1;
    if (jobs > MAXW-2) jobs = MAXW-2;
    sh = __real_mmap(NULL, sizeof *sh, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    tasks = __real_mmap(NULL, sizeof(struct task)*MAXTASK, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    arena = __real_mmap(NULL, arena_sz, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    me = &sh->s[0];
    tls_snapshot();
    maxdevs = mc_cfg("dev", 1000000);
    mc_setup();
    neco_env_setallocator(a_malloc, a_realloc, a_free);
    lib_snapshot();
    double t0 = now_s();
    char buf[300];
    if (replay) {
        struct slot *s = &sh->s[0]; int n = 0;
        for (const char *p = replay; *p; ) {
            char *e; long v = strtol(p, &e, 10); if (e == p) break;
            s->ch[n++] = (uint16_t)v; p = *e == ',' ? e+1 : e;
        }
        replay_n = n;
        int st = run_child(replay_child, 0, hang*2);
        if (s->failed == 2) { printf("ENGINE %s\n", s->msg); return 3; }
        if (s->failed) { printf("VIOLATED %s\n", s->msg); return 1; }
        if (st) { printf("VIOLATED %s\n", describe(st, buf, sizeof buf)); return 1; }
        printf("HELD\n");
        return 0;
    }
    int bad = -1, st = run_child(split_child, 0, hang);
    if (sh->s[0].failed == 2) { finish("engine", 0, t0); return 3; }
    if (sh->s[0].failed || st) {
        bad = 0;
        if (!sh->s[0].failed) describe(st, sh->s[0].msg, MSGSZ);
    }
    if (bad < 0) {
        pid_t pids[MAXW]; int alive = 0; unsigned long long last[MAXW]; double tl[MAXW];
        for (int w = 1; w <= jobs; w++) {
            pid_t p = fork();
            if (p == 0) worker(w);
            pids[w] = p; alive++; last[w] = 0; tl[w] = now_s();
        }
        while (alive > 0) {
            struct timespec ts = {0, 3000000}; syscall(35, &ts, NULL);
            for (int w = 1; w <= jobs; w++) if (pids[w]) {
                int s; pid_t r = waitpid(pids[w], &s, WNOHANG);
                bool hung = false;
                if (r == 0) {
                    if (sh->s[w].execs != last[w]) { last[w] = sh->s[w].execs; tl[w] = now_s(); continue; }
                    if (sh->s[w].inexec && now_s()-tl[w] > hang) { kill(pids[w], SIGKILL); waitpid(pids[w], &s, 0); hung = true; }
                    else continue;
                }
                pids[w] = 0; alive--;
                if (sh->s[w].failed || hung || s) {
                    sh->stop = 1;
                    if (bad < 0 || (sh->s[bad].failed == 2 && sh->s[w].failed != 2)) {
                        bad = w;
                        if (!sh->s[w].failed) { describe(hung ? -1 : s, sh->s[w].msg, MSGSZ); }
                    }
                }
            }
        }
    }
    if (bad >= 0) {
        if (sh->s[bad].failed == 2) { finish("engine", bad, t0); return 3; }
        char keep[MSGSZ]; memcpy(keep, sh->s[bad].msg, MSGSZ);
        if (!confirm(bad, hang)) {
            snprintf(sh->s[bad].msg, MSGSZ, "not reproducible: %.3000s", keep);
            finish("engine", bad, t0); return 3;
        }
        finish("violated", bad, t0);
        return 1;
    }
    finish("held", -1, t0);
    return 0;
}

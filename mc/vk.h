#pragma once
// Virtual kernel: stream descriptors and an epoll instance whose every answer
// is under the explorer's control. Virtual descriptors start at VKBASE.
#include <fcntl.h>
#include <sys/epoll.h>
#define VKBASE 500
#define NVK 24
#define VKEP 900
struct vfd {
    bool open;
    int fl;                    // file status flags
    // incoming direction: bytes in..arr are waiting, eof after arr
    int got, arr; bool eof; int rerr;
    // outgoing direction
    int space; bool broken; int nlog;
    // history of answers for the oracle
    int neof, nerr, lasterr; int nonblock_changes;
    // what the descriptor is registered for in the epoll instance
    unsigned armed; bool reg; int epdata; unsigned rdy; // rdy: further condition bits (harness)
    int state; int a, b;       // sockets (harness)
    int type;
    unsigned char log[32768];
};
static struct vfd vk[NVK];
static bool vk_ep; static int vk_epgen;
static int vk_dev;             // which deviations are enabled: 1 short 2 EINTR 4 EAGAIN 8 error 16 zero writes
static int vk_eploop;
static struct vfd *vkf(int fd) { return fd >= VKBASE && fd < VKBASE+NVK ? &vk[fd-VKBASE] : NULL; }
static unsigned char (*vk_in)(int f, int k);  // byte k arriving at descriptor index f
static void (*vk_changed)(void);
static unsigned vk_ready(struct vfd *v) {
    unsigned e = v->rdy;
    if (v->arr > v->got || v->eof || v->rerr) e |= EPOLLIN;
    if (v->space > 0 || v->broken) e |= EPOLLOUT;
    if (v->rerr) e |= EPOLLERR;
    return e;
}
static ssize_t vk_err(struct vfd *v, int e) { if (e != EINTR && e != EAGAIN) { v->nerr++; v->lasterr = e; } errno = e; return -1; }
static ssize_t vk_read(int fd, void *b, size_t n) {
    struct vfd *v = vkf(fd);
    if (!v) return __real_read(fd, b, n);
    if (!v->open) { errno = EBADF; return -1; }
    int alt[5], na = 0; alt[na++] = 0;
    if (vk_dev & 1 && n > 1 && v->arr - v->got > 1) alt[na++] = 1;
    if (vk_dev & 2) alt[na++] = 2;
    if (vk_dev & 4 && (v->arr > v->got || v->eof)) alt[na++] = 4;
    if (vk_dev & 8) alt[na++] = 8;
    int k = alt[mc_dev(na)];
    if (mc_verbose && k) mc_log("    (kernel deviates: %s)", k == 1 ? "short" : k == 2 ? "EINTR" : k == 4 ? "EAGAIN" : "EIO");
    if (k == 2) return vk_err(v, EINTR);
    if (k == 4) return vk_err(v, EAGAIN);
    if (k == 8) return vk_err(v, EIO);
    if (v->arr == v->got) {
        if (v->rerr) { int e = v->rerr; v->rerr = 0; v->eof = true; return vk_err(v, e); }
        if (v->eof || n == 0) { if (n) v->neof++; return 0; }
        return vk_err(v, EAGAIN);
    }
    size_t m = (size_t)(v->arr - v->got); if (m > n) m = n;
    if (k == 1) m = 1;
    for (size_t i = 0; i < m; i++) ((unsigned char*)b)[i] = vk_in((int)(v-vk), v->got++);
    return (ssize_t)m;
}
static ssize_t vk_write(int fd, const void *b, size_t n) {
    struct vfd *v = vkf(fd);
    if (!v) return __real_write(fd, b, n);
    if (!v->open) { errno = EBADF; return -1; }
    if (n == 0) { if (v->broken) return vk_err(v, EPIPE); return 0; }
    int alt[6], na = 0; alt[na++] = 0;
    if (vk_dev & 1 && n > 1 && v->space > 1) alt[na++] = 1;
    if (vk_dev & 2) alt[na++] = 2;
    if (vk_dev & 4 && v->space > 0) alt[na++] = 4;
    if (vk_dev & 8) alt[na++] = 8;
    if (vk_dev & 16) alt[na++] = 16;
    int k = alt[mc_dev(na)];
    if (mc_verbose && k) mc_log("    (kernel deviates: %s)", k == 1 ? "short" : k == 2 ? "EINTR" : k == 4 ? "EAGAIN" : k == 8 ? "EIO" : "zero");
    if (k == 2) return vk_err(v, EINTR);
    if (k == 4) return vk_err(v, EAGAIN);
    if (k == 8) return vk_err(v, EIO);
    if (k == 16) return 0;
    if (v->broken) return vk_err(v, EPIPE);
    if (v->space == 0) return vk_err(v, EAGAIN);
    size_t m = (size_t)v->space < n ? (size_t)v->space : n;
    if (k == 1) m = 1;
    for (size_t i = 0; i < m; i++) { if (v->nlog >= (int)sizeof v->log) mc_fail("*", "runaway writing"); v->log[v->nlog++] = ((const unsigned char*)b)[i]; }
    v->space -= (int)m;
    return (ssize_t)m;
}
static ssize_t vk_recv(int fd, void *b, size_t n, int fl) { return vkf(fd) ? vk_read(fd, b, n) : __real_recv(fd, b, n, fl); }
static ssize_t vk_send(int fd, const void *b, size_t n, int fl) { return vkf(fd) ? vk_write(fd, b, n) : __real_send(fd, b, n, fl); }
static int vk_epoll_create1(int f) { (void)f; if (vk_ep) mc_fail("C16,C29", "a second event queue is created"); vk_ep = true; for (int i = 0; i < NVK; i++) vk[i].reg = false; return VKEP; }
static int vk_epoll_ctl(int q, int op, int fd, struct epoll_event *ev) {
    struct vfd *v = vkf(fd);
    if (q != VKEP || !vk_ep) { errno = EBADF; return -1; }
    if (!v || !v->open) { errno = EBADF; return -1; }
    if (op == EPOLL_CTL_ADD) { if (v->reg) { errno = EEXIST; return -1; } v->reg = true; }
    else if (!v->reg) { errno = ENOENT; return -1; }
    if (op == EPOLL_CTL_DEL) { v->reg = false; return 0; }
    v->armed = ev->events; v->epdata = ev->data.fd;
    return 0;
}
static int vk_epoll_wait(int q, struct epoll_event *ev, int n) {
    if (q != VKEP || !vk_ep) { errno = EBADF; return -1; }
    int k = 0;
    for (int i = 0; i < NVK && k < n; i++) {
        struct vfd *v = &vk[i];
        if (!v->open || !v->reg || !(v->armed & ~EPOLLONESHOT)) continue;
        unsigned e = vk_ready(v) & (v->armed | EPOLLERR | EPOLLHUP);
        if (!e) continue;
        ev[k].events = e; ev[k].data.u64 = 0; ev[k].data.fd = v->epdata; k++;
        if (v->armed & EPOLLONESHOT) v->armed = EPOLLONESHOT;
    }
    return k;
}
static int vk_close(int fd) {
    if (fd == VKEP) { if (!vk_ep) mc_fail("*", "the event queue is closed twice"); vk_ep = false; return 0; }
    struct vfd *v = vkf(fd);
    if (!v) return __real_close(fd);
    if (!v->open) { errno = EBADF; return -1; }
    v->open = v->reg = false; return 0;
}
static int vk_fcntl(int fd, int cmd, long a) {
    struct vfd *v = vkf(fd);
    if (!v) return __real_fcntl(fd, cmd, a);
    if (!v->open) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) return v->fl;
    if (cmd == F_SETFL) { v->fl = (int)a; v->nonblock_changes++; return 0; }
    if (cmd == F_GETFD || cmd == F_SETFD) return 0;
    errno = EINVAL; return -1;
}
static void vk_reset(void) { for (int i = 0; i < NVK; i++) memset(&vk[i], 0, offsetof(struct vfd, log)); vk_ep = false; }
static void vk_setup(void) {
    mc_hooks.read = vk_read; mc_hooks.write = vk_write; mc_hooks.recv = vk_recv; mc_hooks.send = vk_send;
    mc_hooks.epoll_create1 = vk_epoll_create1; mc_hooks.epoll_ctl = vk_epoll_ctl; mc_hooks.epoll_wait = vk_epoll_wait;
    mc_hooks.close = vk_close; mc_hooks.fcntl = vk_fcntl;
    vk_dev = mc_cfg("kd", 31);
}

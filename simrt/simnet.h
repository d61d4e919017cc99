// Sockets, readiness, generic descriptor calls.
static u32 fd_events(Desc *d) {
    switch (d->kind) {
    case D_UDP: return (d->q ? POLLIN | (d->q->err ? POLLERR : 0) : 0) | POLLOUT;
    case D_TCPL: case D_UNIXL: return d->bq ? POLLIN : 0;
    case D_CONN: {
        Conn *c = d->conn;
        u32 e = POLLOUT;
        if (c->openat > G.now) return 0;
        if (c->inpos < c->inlen || c->eof) e |= POLLIN;
        if (c->rst) e |= POLLIN | POLLERR | POLLHUP;
        return e;
    }
    case D_EVENTFD: return (d->counter ? POLLIN : 0) | POLLOUT;
    case D_FILE: return POLLIN | POLLOUT;
    case D_SOCK: return POLLOUT | POLLHUP;
    default: return 0;
    }
}
static int poll_scan(struct pollfd *p, int n, int set) {
    int c = 0;
    for (int i = 0; i < n; i++) {
        u32 e = 0;
        if (p[i].fd >= 0) {
            Desc *d = fd_get(p[i].fd);
            e = d ? fd_events(d) & (p[i].events | POLLERR | POLLHUP) : POLLNVAL;
        }
        if (set) p[i].revents = (short)e;
        if (e) c++;
    }
    return c;
}
int poll(struct pollfd *p, nfds_t n, int timeout) {
    if (!ON) return (int)rret(RS(SYS_poll, p, n, timeout));
    pt();
    if (n > FD_LIMIT) {
        T("POLLBAD|%lu", (unsigned long)n);
        FAIL(EINVAL);
    }
    int sim = 0; // the runtime's own look at descriptors 0-2 is not the program's
    for (nfds_t i = 0; i < n; i++) sim |= ISSIM(p[i].fd);
    Flt *f = sim ? fault(CL_POLL) : 0;
    if (f) {
        if (f->err > 0) FAIL(f->err);
        if (f->err == -1 && n) { // spurious readiness
            for (nfds_t i = 0; i < n; i++) p[i].revents = 0;
            p[f->arg % n].revents = POLLIN;
            return 1;
        }
    }
    u64 dl = timeout < 0 ? INF : G.now + (u64)timeout * 1000000ull;
    for (;;) {
        int r = poll_scan(p, (int)n, 1);
        if (r > 0 || timeout == 0) return r;
        me->w.p = p;
        me->w.n = (int)n;
        int w = block(W_POLL, dl);
        r = poll_scan(p, (int)n, 1);
        if (r > 0) return r;
        if (w == R_SIGNAL) FAIL(EINTR);
        if (w == R_TIMEOUT || G.now >= dl) return 0;
    }
}
int __poll_chk(struct pollfd *p, nfds_t n, int t, size_t x) { (void)x; return poll(p, n, t); }

// -- epoll
int epoll_create1(int fl) {
    if (!ON) return (int)rret(RS(SYS_epoll_create1, fl));
    pt();
    FAULT_ERR(CL_EPCREATE);
    return fd_alloc(desc_new(D_EPOLL));
}
int epoll_create(int n) { (void)n; return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    if (!ISSIM(ep)) return (int)rret(RS(SYS_epoll_ctl, ep, op, fd, ev));
    Desc *e = fd_get(ep), *d = fd_get(fd);
    if (!e || !d) FAIL(EBADF);
    pt();
    FAULT_ERR(CL_EPCTL);
    EpItem **p = &e->items;
    while (*p && (*p)->fd != fd) p = &(*p)->next;
    if (op == EPOLL_CTL_ADD) {
        if (*p) FAIL(EEXIST);
        EpItem *i = calloc(1, sizeof *i);
        i->fd = fd;
        i->d = d;
        i->events = ev->events;
        i->data = ev->data.u64;
        i->lastseq = ~0ull;
        *p = i;
    } else if (!*p)
        FAIL(ENOENT);
    else if (op == EPOLL_CTL_MOD) {
        (*p)->events = ev->events;
        (*p)->data = ev->data.u64;
        (*p)->lastseq = ~0ull;
    } else {
        EpItem *i = *p;
        *p = i->next;
        free(i);
    }
    hint();
    return 0;
}
static int ep_scan(Desc *ep, struct epoll_event *out, int max) {
    int n = 0;
    u64 after = 0;
    int first = 1;
    // in order of the last arrival on each descriptor
    while (n < max) {
        EpItem *b = 0;
        for (EpItem *i = ep->items; i; i = i->next) {
            u32 r = fd_events(i->d) & (i->events | EPOLLERR | EPOLLHUP);
            if (!r) continue;
            if ((i->events & EPOLLET) && i->lastseq == i->d->seq) continue;
            u64 k = i->d->seq * 64 + (u64)(i->fd & 63);
            if (!first && k <= after) continue;
            if (!b || k < b->d->seq * 64 + (u64)(b->fd & 63)) b = i;
        }
        if (!b) break;
        first = 0;
        after = b->d->seq * 64 + (u64)(b->fd & 63);
        if (out) {
            out[n].events = fd_events(b->d) & (b->events | EPOLLERR | EPOLLHUP);
            out[n].data.u64 = b->data;
            b->lastseq = b->d->seq;
        }
        n++;
    }
    return n;
}
int epoll_wait(int ep, struct epoll_event *ev, int max, int timeout) {
    if (!ISSIM(ep)) return (int)rret(RS(SYS_epoll_wait, ep, ev, max, timeout));
    Desc *e = fd_get(ep);
    if (!e || e->kind != D_EPOLL) FAIL(EBADF);
    pt();
    Flt *f = fault(CL_EPOLL);
    if (f) {
        if (f->err > 0) FAIL(f->err);
        if (f->err == -1)
            for (EpItem *i = e->items; i; i = i->next)
                if (i->d->kind == D_TCPL || i->d->kind == D_UNIXL) {
                    ev[0].events = EPOLLIN;
                    ev[0].data.u64 = i->data;
                    return 1;
                }
    }
    u64 dl = timeout < 0 ? INF : G.now + (u64)timeout * 1000000ull;
    for (;;) {
        int r = ep_scan(e, ev, max);
        if (r > 0 || timeout == 0) return r;
        me->w.p = e;
        int w = block(W_EPOLL, dl);
        r = ep_scan(e, ev, max);
        if (r > 0) return r;
        if (w == R_SIGNAL) FAIL(EINTR);
        if (w == R_TIMEOUT || G.now >= dl) return 0;
    }
}
int epoll_pwait(int ep, struct epoll_event *ev, int max, int timeout, const sigset_t *s) { (void)s; return epoll_wait(ep, ev, max, timeout); }
int eventfd(unsigned v, int fl) {
    if (!ON) return (int)rret(RS(SYS_eventfd2, v, fl));
    pt();
    FAULT_ERR(CL_EVENTFD);
    Desc *d = desc_new(D_EVENTFD);
    d->counter = v;
    d->nonblock = !!(fl & EFD_NONBLOCK);
    return fd_alloc(d);
}

// -- sockets
static int restartable(void) {
    return (G.sig[SIGINT].flags & SA_RESTART) != 0;
}
// waits until `mask` is ready; 0 ready, else an errno
static int wait_fd(Desc *d, int mask, u64 timeo) {
    u64 dl = timeo ? G.now + timeo : INF;
    while (!(fd_events(d) & mask)) {
        if (d->nonblock) return EAGAIN;
        me->w.p = d;
        me->w.mask = mask;
        int w = block(W_FD, dl);
        if (fd_events(d) & mask) return 0;
        if (w == R_SIGNAL && !(restartable() && !timeo)) return EINTR;
        if (w == R_TIMEOUT || G.now >= dl) return EAGAIN;
    }
    return 0;
}
int socket(int dom, int typ, int proto) {
    if (!ON) return (int)rret(RS(SYS_socket, dom, typ, proto));
    pt();
    FAULT_ERR(CL_SOCKET);
    if (dom != AF_INET && dom != AF_INET6 && dom != AF_UNIX) FAIL(EAFNOSUPPORT);
    Desc *d = desc_new(D_SOCK);
    d->dom = dom;
    d->typ = typ & 15;
    d->nonblock = !!(typ & SOCK_NONBLOCK);
    return fd_alloc(d);
}
static void addr_str(const struct sockaddr *sa, char *o) {
    if (sa->sa_family == AF_INET) {
        const struct sockaddr_in *i = (const void *)sa;
        sprintf(o, "4|%08x|%d", ntohl(i->sin_addr.s_addr), ntohs(i->sin_port));
    } else if (sa->sa_family == AF_INET6) {
        const struct sockaddr_in6 *i = (const void *)sa;
        char h[40];
        hexs(h, i->sin6_addr.s6_addr, 16);
        sprintf(o, "6|%s|%d", h, ntohs(i->sin6_port));
    } else {
        const struct sockaddr_un *u = (const void *)sa;
        sprintf(o, "u|%.100s|0", u->sun_path);
    }
}
int bind(int fd, const struct sockaddr *sa, socklen_t l) {
    if (!ISSIM(fd)) return (int)rret(RS(SYS_bind, fd, sa, l));
    Desc *d = fd_get(fd);
    if (!d || d->kind != D_SOCK) FAIL(EINVAL);
    pt();
    FAULT_ERR(CL_BIND);
    char a[200];
    addr_str(sa, a);
    if (sa->sa_family == AF_UNIX) {
        char nb[PATH_MAX];
        const char *p = norm(((const struct sockaddr_un *)sa)->sun_path, nb);
        if (name_get(&G.live, p)) FAIL(EADDRINUSE);
        int e = parent_ok(p);
        if (e) FAIL(e);
        fsop("bind", p, 0, 0);
        d->sock_ino = G.next_ino;
        do_op(O_CREATE, 3, G.next_ino++, 0, 0, p, 0, 0);
        d->path = strdup(p);
    } else if (d->typ == SOCK_DGRAM) {
        d->kind = D_UDP;
        d->port = ntohs(((const struct sockaddr_in *)sa)->sin_port);
    } else
        d->port = ntohs(((const struct sockaddr_in *)sa)->sin_port);
    T("BIND|%s", a);
    if (d->kind == D_UDP) mark(M_UDPBIND);
    return 0;
}
// clients reach a listener through its name in the file system
static int reachable_sock(Desc *d) {
    if (!d->path || strcmp(d->path, "/vsim/data/ctrl.sock")) return 0;
    Name *n = name_get(&G.live, d->path);
    return n && n->ino == d->sock_ino;
}
int listen(int fd, int n) {
    if (!ISSIM(fd)) return (int)rret(RS(SYS_listen, fd, n));
    Desc *d = fd_get(fd);
    if (!d || d->kind != D_SOCK) FAIL(EINVAL);
    pt();
    FAULT_ERR(CL_LISTEN);
    d->kind = d->dom == AF_UNIX ? D_UNIXL : D_TCPL;
    T("LISTEN|%s|%d", d->dom == AF_UNIX ? d->path : "tcp", d->port);
    mark(d->dom == AF_UNIX ? M_UNIXLISTEN : M_TCPLISTEN);
    return 0;
}
static void fill_addr(Conn *c, u32 ip, int port, struct sockaddr *sa, socklen_t *l) {
    if (!sa || !l) return;
    if (c && c->kind == 2) {
        struct sockaddr_un u;
        memset(&u, 0, sizeof u);
        u.sun_family = AF_UNIX;
        socklen_t n = *l < 2 ? *l : 2;
        memcpy(sa, &u, n);
        *l = 2;
        return;
    }
    struct sockaddr_in i;
    memset(&i, 0, sizeof i);
    i.sin_family = AF_INET;
    i.sin_port = htons((uint16_t)port);
    i.sin_addr.s_addr = htonl(ip);
    memcpy(sa, &i, *l < sizeof i ? *l : sizeof i);
    *l = sizeof i;
}
int accept4(int fd, struct sockaddr *sa, socklen_t *l, int fl) {
    if (!ISSIM(fd)) return (int)rret(RS(SYS_accept4, fd, sa, l, fl));
    Desc *d = fd_get(fd);
    if (!d || (d->kind != D_TCPL && d->kind != D_UNIXL)) FAIL(EINVAL);
    pt();
    Flt *f = fault(CL_ACCEPT);
    if (f && f->err > 0) {
        if (f->err == ECONNABORTED || f->err == EPROTO) {
            if (d->bq) { // that connection is gone
                Conn *c = d->bq;
                T("ABORTED|%d", c->id);
                d->bq = c->next;
                if (!d->bq) d->bqt = &d->bq;
                c->closed = 1;
            } else
                FAIL(EAGAIN);
        }
        T("ACCEPTERR|%s|%d", d->kind == D_UNIXL ? "u" : "t", f->err);
        FAIL(f->err);
    }
    int e = wait_fd(d, POLLIN, d->rcvtimeo);
    if (e) FAIL(e);
    Desc *n = desc_new(D_CONN);
    Conn *c = d->bq;
    n->conn = c;
    n->dom = d->dom;
    n->nonblock = !!(fl & SOCK_NONBLOCK);
    int r = fd_alloc(n);
    if (r < 0) {
        T("ACCEPTERR|%s|%d", d->kind == D_UNIXL ? "u" : "t", EMFILE);
        FAIL(EMFILE);
    }
    d->bq = c->next;
    if (!d->bq) d->bqt = &d->bq;
    c->accepted = 1;
    c->desc = n;
    n->seq = ++G.serial;
    fill_addr(c, c->ip, c->port, sa, l);
    T("ACCEPT|%s|%d|%08x|%d", c->kind == 2 ? "u" : "t", c->id, c->ip, c->port);
    return r;
}
int accept(int fd, struct sockaddr *sa, socklen_t *l) { return accept4(fd, sa, l, 0); }
int connect(int fd, const struct sockaddr *sa, socklen_t l) {
    if (!ISSIM(fd)) return (int)rret(RS(SYS_connect, fd, sa, l));
    Desc *d = fd_get(fd);
    if (!d) FAIL(EBADF);
    pt();
    char a[200];
    addr_str(sa, a);
    Flt *f = fault(CL_CONNECT);
    int err = f && f->err > 0 ? f->err : 0;
    if (sa->sa_family == AF_UNIX) {
        char nb[PATH_MAX];
        const char *p = norm(((const struct sockaddr_un *)sa)->sun_path, nb);
        if (!err && G.peer_mode == 0) err = ENOENT;
        if (!err && G.peer_mode == 1) err = ECONNREFUSED;
        (void)p;
    }
    T("CONNECT|%s|%d|%d", a, err, d->nonblock);
    if (err) FAIL(err);
    if (!d->nonblock && sa->sa_family != AF_UNIX) {
        // the peer answers after a while; one whose port is 9 never does
        int dead = ntohs(((const struct sockaddr_in *)sa)->sin_port) == 9;
        u64 dl = G.now + (dead ? 127000000000ull : 3000000ull);
        while (G.now < dl) block(W_SLEEP, dl);
        if (dead) FAIL(ETIMEDOUT);
    }
    Conn *c = conn_new(sa->sa_family == AF_UNIX ? 4 : 3, ++G.next_cid, 0, 0);
    d->kind = D_CONN;
    d->conn = c;
    c->desc = d;
    if (d->nonblock && c->kind == 3) {
        c->openat = ntohs(((const struct sockaddr_in *)sa)->sin_port) == 9 ? INF : G.now + 3000000ull;
        FAIL(EINPROGRESS);
    }
    return 0;
}
int getsockname(int fd, struct sockaddr *sa, socklen_t *l) {
    if (!ISSIM(fd)) return (int)rret(RS(SYS_getsockname, fd, sa, l));
    Desc *d = fd_get(fd);
    if (!d) FAIL(EBADF);
    fill_addr(0, 0, d->port, sa, l);
    return 0;
}
int getpeername(int fd, struct sockaddr *sa, socklen_t *l) {
    if (!ISSIM(fd)) return (int)rret(RS(SYS_getpeername, fd, sa, l));
    Desc *d = fd_get(fd);
    if (!d || d->kind != D_CONN) FAIL(ENOTCONN);
    fill_addr(d->conn, d->conn->ip, d->conn->port, sa, l);
    return 0;
}
int setsockopt(int fd, int lv, int o, const void *v, socklen_t n) {
    if (!ISSIM(fd)) return (int)rret(RS(SYS_setsockopt, fd, lv, o, v, n));
    Desc *d = fd_get(fd);
    if (!d) FAIL(EBADF);
    pt();
    if (lv == SOL_SOCKET && o == SO_RCVTIMEO && n >= sizeof(struct timeval)) {
        const struct timeval *t = v;
        d->rcvtimeo = (u64)t->tv_sec * 1000000000ull + (u64)t->tv_usec * 1000ull;
    }
    return 0;
}
int getsockopt(int fd, int lv, int o, void *v, socklen_t *n) {
    if (!ISSIM(fd)) return (int)rret(RS(SYS_getsockopt, fd, lv, o, v, n));
    Desc *d = fd_get(fd);
    if (!d) FAIL(EBADF);
    if (lv == SOL_SOCKET && o == SO_RCVTIMEO) {
        struct timeval t = {(time_t)(d->rcvtimeo / 1000000000ull), (suseconds_t)(d->rcvtimeo % 1000000000ull / 1000)};
        memcpy(v, &t, *n < sizeof t ? *n : sizeof t);
        return 0;
    }
    memset(v, 0, *n);
    return 0;
}
int shutdown(int fd, int how) {
    if (!ISSIM(fd)) return (int)rret(RS(SYS_shutdown, fd, how));
    T("SHUTDOWN|%d", how);
    return 0;
}

// -- data
static ssize_t udp_recv(Desc *d, u8 *b, size_t n, int flags, struct sockaddr *sa, socklen_t *l) {
    Flt *f = fault(CL_RECV);
    if (f && f->err > 0) {
        T("RECVERR|%d", f->err);
        FAIL(f->err);
    }
    int nb = d->nonblock;
    if (flags & MSG_DONTWAIT) d->nonblock = 1;
    int e = wait_fd(d, POLLIN, d->rcvtimeo);
    d->nonblock = nb;
    if (e) FAIL(e);
    Dgram *g = d->q;
    if (!(flags & MSG_PEEK)) {
        d->q = g->next;
        if (!d->q) d->qt = &d->q;
    }
    if (g->err) {
        T("RECVERR|%d", g->err);
        FAIL(g->err);
    }
    size_t k = g->len < n ? g->len : n;
    memcpy(b, g->data, k);
    fill_addr(0, g->ip, g->port, sa, l);
    T("%s|%08x|%d|%u|%zu", (flags & MSG_PEEK) ? "PEEK" : "RECV", g->ip, g->port, g->len, k);
    return (flags & MSG_TRUNC) ? (ssize_t)g->len : (ssize_t)k;
}
static ssize_t conn_recv(Desc *d, u8 *b, size_t n, int flags) {
    Conn *c = d->conn;
    Flt *f = fault(CL_READ);
    if (f && f->err > 0) {
        T("READERR|%d|%d", c->id, f->err);
        FAIL(f->err);
    }
    int nb = d->nonblock;
    if (flags & MSG_DONTWAIT) d->nonblock = 1;
    int e = wait_fd(d, POLLIN, d->rcvtimeo);
    d->nonblock = nb;
    if (e) {
        T("READERR|%d|%d", c->id, e);
        FAIL(e);
    }
    u32 av = c->inlen - c->inpos;
    if (!av) {
        if (c->rst) {
            T("READERR|%d|%d", c->id, ECONNRESET);
            FAIL(ECONNRESET);
        }
        T("READ|%d|0|", c->id);
        return 0;
    }
    size_t k = n < av ? n : av;
    if (f && f->err == 0 && f->arg > 0 && (size_t)f->arg < k) k = f->arg;
    memcpy(b, c->in + c->inpos, k);
    if (!(flags & MSG_PEEK)) c->inpos += (u32)k;
    if (k > 64) T("READ|%d|%zu|", c->id, k);
    return (ssize_t)k;
}
static ssize_t conn_send(Desc *d, const u8 *b, size_t n) {
    Conn *c = d->conn;
    Flt *f = fault(CL_WRITE);
    if (f && f->err > 0) {
        T("WERR|%d|%d", c->id, f->err);
        FAIL(f->err);
    }
    if (c->rst) FAIL(EPIPE);
    size_t k = n;
    if (f && f->err == 0 && f->arg > 0 && (size_t)f->arg < k) k = f->arg;
    if (c->kind == 4 && G.peer_cap >= 0 && !(G.peer_mode == 3 && c->id > 1)) {
        if (c->outbytes >= (u64)G.peer_cap) {
            T("WERR|%d|%d", c->id, EPIPE);
            FAIL(EPIPE);
        }
        if (c->outbytes + k > (u64)G.peer_cap) k = (size_t)((u64)G.peer_cap - c->outbytes);
    }
    c->outbytes += k;
    for (size_t o = 0; o < k; o += 512) {
        char h[1100];
        hexs(h, b + o, (u32)(k - o < 512 ? k - o : 512));
        T("W|%d|%s", c->id, h);
    }
    return (ssize_t)k;
}
static ssize_t udp_send(const u8 *b, size_t n, const struct sockaddr *sa) {
    char a[200] = "none||0", h[100];
    if (sa) addr_str(sa, a);
    Flt *f = fault(CL_SEND);
    int e = f && f->err > 0 ? f->err : 0;
    hexs(h, b, n < 40 ? (u32)n : 40);
    T("SEND|%s|%zu|%d|%016llx|%016llx|%s", a, n, e, (unsigned long long)hash64(b, n < 1120 ? n : 1120), (unsigned long long)hash64(b, n), h);
    if (e) FAIL(e);
    return (ssize_t)n;
}
ssize_t recvfrom(int fd, void *restrict b, size_t n, int fl, struct sockaddr *restrict sa, socklen_t *restrict l) {
    if (!ISSIM(fd)) return rret(RS(SYS_recvfrom, fd, b, n, fl, sa, l));
    Desc *d = fd_get(fd);
    if (!d) FAIL(EBADF);
    pt();
    if (d->kind == D_UDP) return udp_recv(d, b, n, fl, sa, l);
    if (d->kind == D_CONN) return conn_recv(d, b, n, fl);
    FAIL(ENOTCONN);
}
ssize_t recv(int fd, void *b, size_t n, int fl) { return recvfrom(fd, b, n, fl, 0, 0); }
ssize_t recvmsg(int fd, struct msghdr *m, int fl) {
    if (!ISSIM(fd)) return rret(RS(SYS_recvmsg, fd, m, fl));
    Desc *d = fd_get(fd);
    if (!d) FAIL(EBADF);
    pt();
    if (m->msg_iovlen < 1) FAIL(EINVAL);
    if (d->kind == D_UDP) {
        size_t full = 0;
        if (d->q) full = d->q->len;
        ssize_t r = udp_recv(d, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl, m->msg_name, m->msg_name ? &m->msg_namelen : 0);
        m->msg_flags = r >= 0 && full > m->msg_iov[0].iov_len ? MSG_TRUNC : 0;
        m->msg_controllen = 0;
        return r;
    }
    if (d->kind == D_CONN) return conn_recv(d, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl);
    FAIL(ENOTCONN);
}
ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *sa, socklen_t l) {
    if (!ISSIM(fd)) return rret(RS(SYS_sendto, fd, b, n, fl, sa, l));
    Desc *d = fd_get(fd);
    if (!d) FAIL(EBADF);
    pt();
    if (d->kind == D_CONN) return conn_send(d, b, n);
    if (d->typ == SOCK_DGRAM) return udp_send(b, n, sa);
    FAIL(ENOTCONN);
}
ssize_t send(int fd, const void *b, size_t n, int fl) { return sendto(fd, b, n, fl, 0, 0); }
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
    if (!ISSIM(fd)) return rret(RS(SYS_sendmsg, fd, m, fl));
    u8 *b = 0;
    size_t n = 0;
    for (size_t i = 0; i < m->msg_iovlen; i++) {
        b = realloc(b, n + m->msg_iov[i].iov_len + 1);
        memcpy(b + n, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
        n += m->msg_iov[i].iov_len;
    }
    ssize_t r = sendto(fd, b, n, fl, m->msg_name, m->msg_namelen);
    free(b);
    return r;
}
static void flush_line(int k) {
    if (!G.olen[k]) return;
    G.obuf[k][G.olen[k]] = 0;
    for (u32 i = 0; i < G.olen[k]; i++)
        if (!G.obuf[k][i]) G.obuf[k][i] = '?';
    T("%s|%.1800s", k ? "ERR" : "OUT", G.obuf[k]);
    G.olen[k] = 0;
}
static void flush_out(int k) { flush_line(k); }
static ssize_t out(int k, const u8 *b, size_t n) {
    Flt *f = fault(CL_STDOUT);
    if (f && f->err > 0) FAIL(f->err);
    if (f && f->err == 0 && f->arg > 0 && (size_t)f->arg < n) n = (size_t)f->arg;
    int lines = 0;
    for (size_t i = 0; i < n; i++) {
        if (b[i] == '\n' || G.olen[k] >= sizeof G.obuf[k] - 2) {
            flush_line(k);
            lines++;
            if (b[i] == '\n') continue;
        }
        G.obuf[k][G.olen[k]++] = (char)b[i];
    }
    while (lines--) mark(M_LINE);
    return (ssize_t)n;
}
ssize_t read(int fd, void *b, size_t n) {
    if (!ISSIM(fd)) return rret(RS(SYS_read, fd, b, n));
    Desc *d = fd_get(fd);
    if (!d) FAIL(EBADF);
    pt();
    if (d->kind == D_CONN) return conn_recv(d, b, n, 0);
    if (d->kind == D_UDP) return udp_recv(d, b, n, 0, 0, 0);
    if (d->kind == D_EVENTFD) {
        if (n < 8) FAIL(EINVAL);
        int e = wait_fd(d, POLLIN, 0);
        if (e) FAIL(e);
        memcpy(b, &d->counter, 8);
        d->counter = 0;
        return 8;
    }
    if (d->kind == D_FILE) {
        ssize_t r = file_pread(d, b, n, d->pos);
        if (r > 0) d->pos += (u64)r;
        return r;
    }
    FAIL(EINVAL);
}
ssize_t write(int fd, const void *b, size_t n) {
    if (ON && (fd == 1 || fd == 2)) {
        pt();
        return out(fd - 1, b, n);
    }
    if (!ISSIM(fd)) return rret(RS(SYS_write, fd, b, n));
    Desc *d = fd_get(fd);
    if (!d) FAIL(EBADF);
    pt();
    if (d->kind == D_CONN) return conn_send(d, b, n);
    if (d->kind == D_EVENTFD) {
        u64 v;
        memcpy(&v, b, 8);
        d->counter += v;
        d->seq = ++G.serial;
        T("WAKE");
        hint();
        return 8;
    }
    if (d->kind == D_FILE) {
        if (d->flags & O_APPEND) d->pos = d->ino->size;
        ssize_t r = file_pwrite(d, b, n, d->pos);
        if (r > 0) d->pos += (u64)r;
        return r;
    }
    FAIL(EINVAL);
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    if (!ISSIM(fd)) return rret(RS(SYS_readv, fd, v, n));
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!(ON && (fd == 1 || fd == 2)) && !ISSIM(fd)) return rret(RS(SYS_writev, fd, v, n));
    u8 *b = 0;
    size_t k = 0;
    for (int i = 0; i < n; i++) {
        b = realloc(b, k + v[i].iov_len + 1);
        memcpy(b + k, v[i].iov_base, v[i].iov_len);
        k += v[i].iov_len;
    }
    ssize_t r = k ? write(fd, b, k) : 0;
    free(b);
    return r;
}
int close(int fd) {
    if (!ISSIM(fd)) return (int)rret(RS(SYS_close, fd));
    Desc *d = fd_get(fd);
    if (!d) FAIL(EBADF);
    pt();
    G.fd[fd - FDB] = 0;
    for (int i = 0; i < G.nfd; i++)
        if (G.fd[i] && G.fd[i]->kind == D_EPOLL) {
            EpItem **p = &G.fd[i]->items;
            while (*p) {
                if ((*p)->fd == fd && d->ref == 1) {
                    EpItem *x = *p;
                    *p = x->next;
                    free(x);
                } else
                    p = &(*p)->next;
            }
        }
    if (--d->ref > 0) return 0;
    switch (d->kind) {
    case D_CONN:
        T("CLOSE|%s|%d|%llu", d->conn->kind == 2 ? "u" : d->conn->kind == 1 ? "t" : d->conn->kind == 3 ? "o" : "c", d->conn->id, (unsigned long long)d->conn->outbytes);
        d->conn->closed = 1;
        d->conn->desc = 0;
        break;
    case D_TCPL: case D_UNIXL: T("CLOSEL|%s", d->kind == D_UNIXL ? "u" : "t"); break;
    case D_UDP: T("CLOSEL|udp"); break;
    case D_FILE:
        d->ino->open--;
        if (d->locked) d->locked = 0, lock_wake();
        break;
    default: break;
    }
    // blocked threads may hold a pointer to it: leave the memory alone
    return 0;
}
int dup(int fd) {
    if (!ISSIM(fd)) return (int)rret(RS(SYS_dup, fd));
    Desc *d = fd_get(fd);
    if (!d) FAIL(EBADF);
    return fd_alloc(d);
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    if (!ISSIM(fd)) return (int)rret(RS(SYS_fcntl, fd, cmd, a));
    Desc *d = fd_get(fd);
    if (!d) FAIL(EBADF);
    switch (cmd) {
    case F_GETFL: return (d->nonblock ? O_NONBLOCK : 0) | O_RDWR;
    case F_SETFL: d->nonblock = !!(a & O_NONBLOCK); return 0;
    case F_GETFD: return FD_CLOEXEC;
    case F_SETFD: return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: return fd_alloc(d);
    default: FAIL(EINVAL);
    }
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return fcntl(fd, cmd, a);
}
int ioctl(int fd, unsigned long rq, ...) {
    va_list ap;
    va_start(ap, rq);
    long a = va_arg(ap, long);
    va_end(ap);
    if (!ISSIM(fd)) return (int)rret(RS(SYS_ioctl, fd, rq, a));
    Desc *d = fd_get(fd);
    if (!d) FAIL(EBADF);
    if (rq == FIONBIO) {
        d->nonblock = *(int *)a != 0;
        return 0;
    }
    FAIL(ENOTTY);
}
int isatty(int fd) {
    if (ON) {
        errno = ENOTTY;
        return 0;
    }
    struct { char x[64]; } t;
    return RS(SYS_ioctl, fd, 0x5401, &t) == 0;
}

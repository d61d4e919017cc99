// The simulated file system: everything under /vsim. A live image and a durable
// image; every mutation is a pending operation until made durable.
static Inode *ino_get(Fs *f, u32 id) {
    for (Inode *i = f->inodes; i; i = i->next)
        if (i->id == id) return i;
    return 0;
}
static Inode *ino_new(Fs *f, u32 id, u8 type) {
    Inode *i = calloc(1, sizeof *i);
    i->id = id;
    i->type = type;
    i->next = f->inodes;
    f->inodes = i;
    return i;
}
static Name *name_get(Fs *f, const char *p) {
    for (Name *n = f->names; n; n = n->next)
        if (!strcmp(n->path, p)) return n;
    return 0;
}
static void name_set(Fs *f, const char *p, u32 ino) {
    Name *n = name_get(f, p);
    if (n) {
        n->ino = ino;
        return;
    }
    n = calloc(1, sizeof *n);
    n->path = strdup(p);
    n->ino = ino;
    Name **t = &f->names;
    while (*t) t = &(*t)->next;
    *t = n;
}
static void name_del(Fs *f, const char *p) {
    for (Name **t = &f->names; *t; t = &(*t)->next)
        if (!strcmp((*t)->path, p)) {
            Name *n = *t;
            *t = n->next;
            free(n->path);
            free(n);
            return;
        }
}
static void ino_resize(Inode *i, u64 n) {
    if (n > i->cap) {
        u64 c = i->cap ? i->cap : 4096;
        while (c < n) c *= 2;
        i->data = realloc(i->data, c);
        memset(i->data + i->cap, 0, c - i->cap);
        i->cap = c;
    }
    if (n < i->size) memset(i->data + n, 0, i->size - n);
    i->size = n;
}
static void fs_apply(Fs *f, const Op *o) {
    switch (o->kind) {
    case O_CREATE:
        if (!ino_get(f, o->ino)) ino_new(f, o->ino, o->type);
        name_set(f, o->p1, o->ino);
        break;
    case O_UNLINK: name_del(f, o->p1); break;
    case O_RENAME: {
        Name *n = name_get(f, o->p1);
        if (n) {
            u32 i = n->ino;
            name_del(f, o->p1);
            name_set(f, o->p2, i);
            // a directory takes everything under it along
            size_t l = strlen(o->p1);
            for (Name *k = f->names; k; k = k->next)
                if (!strncmp(k->path, o->p1, l) && k->path[l] == '/') {
                    char *s = malloc(strlen(o->p2) + strlen(k->path + l) + 1);
                    strcpy(s, o->p2);
                    strcat(s, k->path + l);
                    free(k->path);
                    k->path = s;
                }
        }
        break;
    }
    case O_WRITE: {
        Inode *i = ino_get(f, o->ino);
        if (!i) break;
        if (o->off + o->len > i->size) ino_resize(i, o->off + o->len);
        memcpy(i->data + o->off, o->data, o->len);
        break;
    }
    case O_TRUNCATE: {
        Inode *i = ino_get(f, o->ino);
        if (i) ino_resize(i, o->len);
        break;
    }
    }
}
static Op *op_add(u8 kind) {
    if (G.nop == G.opcap) {
        G.opcap = G.opcap * 2 + 64;
        G.op = realloc(G.op, G.opcap * sizeof *G.op);
    }
    Op *o = &G.op[G.nop++];
    memset(o, 0, sizeof *o);
    o->kind = kind;
    return o;
}
static void do_op(u8 kind, u8 type, u32 ino, u64 off, u64 len, const char *p1, const char *p2, const void *data) {
    Op *o = op_add(kind);
    o->type = type;
    o->ino = ino;
    o->off = off;
    o->len = len;
    o->p1 = p1 ? strdup(p1) : 0;
    o->p2 = p2 ? strdup(p2) : 0;
    if (data) {
        o->data = malloc(len + 1);
        memcpy(o->data, data, len);
    }
    fs_apply(&G.live, o);
}
// everything so far is on the disk (ordered mode), or this file's data and all
// names (per-file mode)
static void fs_durable(u32 ino, int names) {
    for (u32 i = G.op0; i < G.nop; i++) {
        Op *o = &G.op[i];
        if (o->state) continue;
        int isname = o->kind <= O_RENAME;
        if (G.fsmode == 0 ? names || o->ino == ino || isname : (isname ? 1 : o->ino == ino)) {
            fs_apply(&G.dur, o);
            o->state = 1;
            free(o->data);
            o->data = 0;
        }
    }
    while (G.op0 < G.nop && G.op[G.op0].state) G.op0++;
}
static void fs_lose(u32 ino) {
    for (u32 i = G.op0; i < G.nop; i++)
        if (!G.op[i].state && G.op[i].ino == ino && G.op[i].kind == O_WRITE) G.op[i].state = 2;
}

// -- image serialisation
typedef struct { u8 *b; u64 n, cap; } Buf;
static void wr(Buf *b, const void *p, u64 n) {
    if (b->n + n <= b->cap) memcpy(b->b + b->n, p, n);
    b->n += n;
}
static void w32(Buf *b, u32 v) { wr(b, &v, 4); }
static void w64(Buf *b, u64 v) { wr(b, &v, 8); }
static void wstr(Buf *b, const char *s) {
    u32 n = s ? (u32)strlen(s) : 0;
    w32(b, n);
    wr(b, s, n);
}
static int allzero(const u8 *p, u64 n) {
    for (u64 i = 0; i < n; i++)
        if (p[i]) return 0;
    return 1;
}
static void fs_write_image(Buf *b, Fs *f, int pending) {
    w32(b, 0x53464d31);
    w32(b, G.next_ino);
    u32 ni = 0, nn = 0;
    // only inodes that have a name, or that a pending op refers to
    for (Inode *i = f->inodes; i; i = i->next) ni++;
    for (Name *n = f->names; n; n = n->next) nn++;
    w32(b, ni);
    for (Inode *i = f->inodes; i; i = i->next) {
        int named = pending;
        for (Name *n = f->names; n; n = n->next)
            if (n->ino == i->id) named = 1;
        w32(b, i->id);
        w32(b, i->type);
        w64(b, named ? i->size : 0);
        u32 np = 0;
        u64 at = b->n;
        w32(b, 0);
        if (named)
            for (u64 o = 0; o < i->size; o += 4096) {
                u64 l = i->size - o < 4096 ? i->size - o : 4096;
                if (allzero(i->data + o, l)) continue;
                u8 page[4096] = {0};
                memcpy(page, i->data + o, l);
                w32(b, (u32)(o / 4096));
                wr(b, page, 4096);
                np++;
            }
        if (at + 4 <= b->cap) memcpy(b->b + at, &np, 4);
    }
    w32(b, nn);
    for (Name *n = f->names; n; n = n->next) {
        wstr(b, n->path);
        w32(b, n->ino);
    }
    u32 np = 0;
    u64 at = b->n;
    w32(b, 0);
    if (pending)
        for (u32 i = G.op0; i < G.nop; i++) {
            Op *o = &G.op[i];
            if (o->state == 1) continue;
            w32(b, o->kind | (u32)o->type << 8 | (u32)o->state << 16);
            w32(b, o->ino);
            w64(b, o->off);
            w64(b, o->len);
            wstr(b, o->p1);
            wstr(b, o->p2);
            if (o->kind == O_WRITE) wr(b, o->data, o->len);
            np++;
        }
    if (at + 4 <= b->cap) memcpy(b->b + at, &np, 4);
}
static int image_written;
static void fs_image_out(void) {
    if (image_written) return;
    image_written = 1;
    Buf b = {shm + IMGO_OFF, 0, IMG_CAP};
    fs_write_image(&b, &G.dur, 1);
    if (b.n > b.cap) {
        T("HARNESS|image too large");
        b.n = 0;
    }
    H->img_out_len = (u32)b.n;
}
static void crash(int mode, u64 cut, u64 torn, u64 seed) {
    if (mode) {
        // power loss: some pending operations had reached the disk
        u32 n = 0;
        for (u32 i = G.op0; i < G.nop; i++)
            if (G.op[i].state != 1) n++;
        if (mode == 1) {
            u64 keep = n * (cut % 1001) / 1000, k = 0;
            for (u32 i = G.op0; i < G.nop; i++) {
                Op *o = &G.op[i];
                if (o->state == 1) continue;
                if (k < keep && o->state == 0) fs_apply(&G.dur, o);
                if (k == keep && o->state == 0 && o->kind == O_WRITE && torn % 1001) {
                    Op p = *o;
                    p.len = o->len * (torn % 1001) / 1000 / 512 * 512;
                    if (p.len) fs_apply(&G.dur, &p);
                }
                k++;
            }
            T("POWER|%u|%u", n, (u32)keep);
        } else {
            // names in order up to a point; each file's data up to a point of its own
            u64 names = sm(&seed) % (n + 1), k = 0;
            for (u32 i = G.op0; i < G.nop; i++) {
                Op *o = &G.op[i];
                k++;
                if (o->state == 1 || o->state == 2) continue;
                u64 s = seed ^ (o->ino * 0x9e37ull);
                u64 lim = o->kind <= O_RENAME ? names : sm(&s) % (n + 1);
                if (k <= lim) fs_apply(&G.dur, o);
            }
            T("POWER|%u|perfile", n);
        }
        G.op0 = G.nop;
    }
    finish(mode ? "power" : "kill");
}
static u8 *rp;
static u32 r32(void) {
    u32 v;
    memcpy(&v, rp, 4);
    rp += 4;
    return v;
}
static u64 r64(void) {
    u64 v;
    memcpy(&v, rp, 8);
    rp += 8;
    return v;
}
static char *rstr(void) {
    u32 n = r32();
    char *s = malloc(n + 1);
    memcpy(s, rp, n);
    s[n] = 0;
    rp += n;
    return s;
}
static void fs_load(Fs *f) {
    r32();
    G.next_ino = r32();
    u32 ni = r32();
    for (u32 k = 0; k < ni; k++) {
        u32 id = r32(), type = r32();
        Inode *i = ino_new(f, id, (u8)type);
        u64 size = r64();
        u32 np = r32();
        if (size) ino_resize(i, size);
        for (u32 q = 0; q < np; q++) {
            u64 o = (u64)r32() * 4096;
            memcpy(i->data + o, rp, size - o < 4096 ? size - o : 4096);
            rp += 4096;
        }
    }
    u32 nn = r32();
    for (u32 k = 0; k < nn; k++) {
        char *s = rstr();
        name_set(f, s, r32());
        free(s);
    }
}
static void fs_image_in(void) {
    image_written = 0;
    if (H->img_in_len) {
        rp = shm + IMGI_OFF;
        fs_load(&G.dur);
        rp = shm + IMGI_OFF;
        fs_load(&G.live);
        u32 np = r32();
        for (u32 k = 0; k < np; k++) {
            Op *o = op_add(0);
            u32 v = r32();
            o->kind = (u8)v;
            o->type = (u8)(v >> 8);
            o->state = (u8)(v >> 16);
            o->ino = r32();
            o->off = r64();
            o->len = r64();
            o->p1 = rstr();
            o->p2 = rstr();
            if (o->kind == O_WRITE) {
                o->data = malloc(o->len + 1);
                memcpy(o->data, rp, o->len);
                rp += o->len;
            }
            fs_apply(&G.live, o);
        }
    } else {
        Fs *fs[2] = {&G.live, &G.dur};
        for (int i = 0; i < 2; i++) {
            ino_new(fs[i], 1, 2);
            name_set(fs[i], "/vsim", 1);
            ino_new(fs[i], 2, 2);
            name_set(fs[i], "/vsim/data", 2);
        }
        G.next_ino = 3;
    }
}

// -- descriptors
static int fd_alloc(Desc *d) {
    int n = 0;
    for (int i = 0; i < G.nfd; i++)
        if (G.fd[i]) n++;
    if (n >= FD_LIMIT - 3) FAIL(EMFILE);
    for (int i = 0; i < MAXFD; i++)
        if (!G.fd[i]) {
            G.fd[i] = d;
            d->ref++;
            if (i >= G.nfd) G.nfd = i + 1;
            return FDB + i;
        }
    FAIL(EMFILE);
}
static inline Desc *fd_get(int fd) {
    if (fd < FDB || fd >= FDB + MAXFD) return 0;
    return G.fd[fd - FDB];
}
#define ISSIM(fd) (ON && (fd) >= FDB)
static Desc *desc_new(int kind) {
    Desc *d = calloc(1, sizeof *d);
    d->kind = kind;
    d->qt = &d->q;
    d->bqt = &d->bq;
    d->itail = &d->items;
    d->seq = 0;
    return d;
}
static int in_sim(const char *p) {
    return ON && p && !strncmp(p, "/vsim", 5) && (p[5] == 0 || p[5] == '/');
}
static const char *norm(const char *p, char *b) {
    // collapse // and trailing /
    int n = 0;
    for (; *p && n < PATH_MAX - 1; p++) {
        if (*p == '/' && n && b[n - 1] == '/') continue;
        if (*p == '/' && p[1] == '.' && (p[2] == '/' || !p[2])) {
            p++;
            continue;
        }
        b[n++] = *p;
    }
    while (n > 1 && b[n - 1] == '/') n--;
    b[n] = 0;
    return b;
}
static int parent_ok(const char *p) {
    char b[PATH_MAX];
    strcpy(b, p);
    char *s = strrchr(b, '/');
    if (!s || s == b) return 1;
    *s = 0;
    Name *n = name_get(&G.live, b);
    if (!n) return ENOENT;
    Inode *i = ino_get(&G.live, n->ino);
    return i && i->type == 2 ? 0 : ENOTDIR;
}
// a path relative to a directory descriptor
static const char *at(int d, const char *p, char *b) {
    if (!ISSIM(d) || p[0] == '/') return p;
    Desc *x = fd_get(d);
    if (!x || x->kind != D_FILE || x->ino->type != 2) return p;
    snprintf(b, PATH_MAX, "%s/%s", x->path, p);
    return b;
}
static int dir_empty(const char *p) {
    size_t l = strlen(p);
    for (Name *k = G.live.names; k; k = k->next)
        if (!strncmp(k->path, p, l) && k->path[l] == '/') return 0;
    return 1;
}
static void fsop(const char *what, const char *p, u64 a, u64 b) {
    mark(M_FSOP);
    T("FS|%s|%s|%llu|%llu", what, p, (unsigned long long)a, (unsigned long long)b);
}
static int sim_open(const char *path, int flags) {
    char nb[PATH_MAX];
    const char *p = norm(path, nb);
    pt();
    FAULT_ERR(CL_OPEN);
    Name *n = name_get(&G.live, p);
    if (!n) {
        if (!(flags & O_CREAT)) FAIL(ENOENT);
        int e = parent_ok(p);
        if (e) FAIL(e);
        if (G.diskfull) FAIL(ENOSPC);
        fsop("create", p, 0, 0);
        do_op(O_CREATE, 1, G.next_ino++, 0, 0, p, 0, 0);
        n = name_get(&G.live, p);
    } else if ((flags & (O_CREAT | O_EXCL)) == (O_CREAT | O_EXCL))
        FAIL(EEXIST);
    Inode *i = ino_get(&G.live, n->ino);
    if (i->type == 2 && (flags & O_ACCMODE) != O_RDONLY) FAIL(EISDIR);
    if (i->type != 2 && (flags & O_DIRECTORY)) FAIL(ENOTDIR);
    if (i->type == 3) FAIL(ENXIO);
    if ((flags & O_TRUNC) && i->size) {
        fsop("trunc", p, 0, 0);
        do_op(O_TRUNCATE, 0, i->id, 0, 0, 0, 0, 0);
    }
    Desc *d = desc_new(D_FILE);
    d->ino = i;
    d->flags = flags;
    d->path = strdup(p);
    int fd = fd_alloc(d);
    if (fd >= 0) i->open++;
    return fd;
}
static int hide(const char *p) {
    // host files that would make runs differ between machines
    return ON && p && (!strncmp(p, "/sys/fs/cgroup", 14) || !strncmp(p, "/proc/meminfo", 13));
}
int open64(const char *p, int f, ...) {
    va_list ap;
    va_start(ap, f);
    int m = va_arg(ap, int);
    va_end(ap);
    if (in_sim(p)) return sim_open(p, f);
    if (hide(p)) FAIL(ENOENT);
    return (int)rret(RS(SYS_openat, AT_FDCWD, p, f, m));
}
int open(const char *p, int f, ...) {
    va_list ap;
    va_start(ap, f);
    int m = va_arg(ap, int);
    va_end(ap);
    if (in_sim(p)) return sim_open(p, f);
    if (hide(p)) FAIL(ENOENT);
    return (int)rret(RS(SYS_openat, AT_FDCWD, p, f, m));
}
int openat64(int d, const char *p, int f, ...) {
    va_list ap;
    va_start(ap, f);
    int m = va_arg(ap, int);
    va_end(ap);
    char b[PATH_MAX];
    const char *q = at(d, p, b);
    if (in_sim(q)) return sim_open(q, f);
    return (int)rret(RS(SYS_openat, d, p, f, m));
}
int openat(int d, const char *p, int f, ...) {
    va_list ap;
    va_start(ap, f);
    int m = va_arg(ap, int);
    va_end(ap);
    return openat64(d, p, f, m);
}
static ssize_t file_pread(Desc *d, void *b, size_t n, u64 off) {
    if (d->ino->type == 2) FAIL(EISDIR);
    Flt *f = fault(CL_PREAD);
    if (f && f->err > 0) FAIL(f->err);
    if (off >= d->ino->size) return 0;
    if (n > d->ino->size - off) n = d->ino->size - off;
    if (f && f->err == 0 && n > 1 && f->arg > 0 && (size_t)f->arg < n) n = f->arg;
    memcpy(b, d->ino->data + off, n);
    return (ssize_t)n;
}
static ssize_t file_pwrite(Desc *d, const void *b, size_t n, u64 off) {
    if ((d->flags & O_ACCMODE) == O_RDONLY) FAIL(EBADF);
    Flt *f = fault(CL_PWRITE);
    if (f && f->err > 0) FAIL(f->err);
    if (G.diskfull) {
        if (off + n > d->ino->size || d->ino->size == 0) FAIL(ENOSPC);
    }
    if (f && f->err == 0 && n > 1 && f->arg > 0 && (size_t)f->arg < n) n = f->arg;
    fsop("write", d->path, off, n);
    do_op(O_WRITE, 0, d->ino->id, off, n, 0, 0, b);
    return (ssize_t)n;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (!ISSIM(fd)) return rret(RS(SYS_pread64, fd, b, n, o));
    Desc *d = fd_get(fd);
    if (!d || d->kind != D_FILE) FAIL(EBADF);
    pt();
    return file_pread(d, b, n, (u64)o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (!ISSIM(fd)) return rret(RS(SYS_pwrite64, fd, b, n, o));
    Desc *d = fd_get(fd);
    if (!d || d->kind != D_FILE) FAIL(EBADF);
    pt();
    return file_pwrite(d, b, n, (u64)o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
static int sync_fd(int fd, int cls, const char *what) {
    Desc *d = fd_get(fd);
    if (!d || d->kind != D_FILE) FAIL(EBADF);
    pt();
    Flt *f = fault(cls);
    if (f && f->err > 0) {
        if (f->err == EIO && d->ino->type == 1) fs_lose(d->ino->id);
        FAIL(f->err);
    }
    fsop(what, d->path, 0, 0);
    fs_durable(d->ino->id, cls == CL_FSYNC);
    return 0;
}
int fsync(int fd) { return ISSIM(fd) ? sync_fd(fd, CL_FSYNC, "fsync") : (int)rret(RS(SYS_fsync, fd)); }
int fdatasync(int fd) { return ISSIM(fd) ? sync_fd(fd, CL_FSYNC, "fsync") : (int)rret(RS(SYS_fdatasync, fd)); }
int sync_file_range(int fd, off64_t o, off64_t n, unsigned f) {
    return ISSIM(fd) ? sync_fd(fd, CL_SFR, "sfr") : (int)rret(RS(SYS_sync_file_range, fd, o, n, f));
}
int ftruncate64(int fd, off64_t n) {
    if (!ISSIM(fd)) return (int)rret(RS(SYS_ftruncate, fd, n));
    Desc *d = fd_get(fd);
    if (!d || d->kind != D_FILE) FAIL(EBADF);
    pt();
    FAULT_ERR(CL_TRUNC);
    if (G.diskfull && (u64)n > d->ino->size) FAIL(ENOSPC);
    fsop("trunc", d->path, (u64)n, 0);
    do_op(O_TRUNCATE, 0, d->ino->id, 0, (u64)n, 0, 0, 0);
    return 0;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
off64_t lseek64(int fd, off64_t o, int w) {
    if (!ISSIM(fd)) return rret(RS(SYS_lseek, fd, o, w));
    Desc *d = fd_get(fd);
    if (!d || d->kind != D_FILE) FAIL(ESPIPE);
    pt();
    i64 b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (i64)d->pos : (i64)d->ino->size;
    if (b + o < 0) FAIL(EINVAL);
    d->pos = (u64)(b + o);
    return (off64_t)d->pos;
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
int flock(int fd, int op) {
    if (!ISSIM(fd)) return (int)rret(RS(SYS_flock, fd, op));
    Desc *d = fd_get(fd);
    if (!d || d->kind != D_FILE) FAIL(EBADF);
    pt();
    FAULT_ERR(CL_FLOCK);
    if (op & LOCK_UN) {
        d->locked = 0;
        lock_wake();
        return 0;
    }
    for (;;) {
        int held = G.extlock && !strcmp(G.extlock, d->path);
        for (int i = 0; i < G.nfd; i++)
            if (G.fd[i] && G.fd[i] != d && G.fd[i]->kind == D_FILE && G.fd[i]->locked && G.fd[i]->ino == d->ino) held = 1;
        if (!held) break;
        if (op & LOCK_NB) {
            T("FLOCK|busy|%s", d->path);
            FAIL(EWOULDBLOCK);
        }
        me->w.flag = 0;
        if (block(W_LOCK, INF) == R_SIGNAL) FAIL(EINTR);
    }
    d->locked = 1;
    T("FLOCK|held|%s", d->path);
    return 0;
}
static void fill_stat(struct stat *s, Inode *i) {
    memset(s, 0, sizeof *s);
    s->st_ino = i->id;
    s->st_dev = 77;
    s->st_nlink = 1;
    s->st_mode = i->type == 2 ? S_IFDIR | 0755 : i->type == 3 ? S_IFSOCK | 0755 : S_IFREG | 0644;
    s->st_size = (off_t)i->size;
    s->st_blksize = 4096;
    s->st_blocks = (blkcnt_t)((i->size + 511) / 512);
}
static Inode *stat_path(const char *path) {
    char nb[PATH_MAX];
    Name *n = name_get(&G.live, norm(path, nb));
    return n ? ino_get(&G.live, n->ino) : 0;
}
int stat64(const char *p, struct stat64 *s) {
    if (!in_sim(p)) return (int)rret(RS(SYS_newfstatat, AT_FDCWD, p, s, 0));
    pt();
    FAULT_ERR(CL_STAT);
    Inode *i = stat_path(p);
    if (!i) FAIL(ENOENT);
    fill_stat((struct stat *)s, i);
    return 0;
}
int lstat64(const char *p, struct stat64 *s) {
    if (!in_sim(p)) return (int)rret(RS(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW));
    return stat64(p, s);
}
int fstat64(int fd, struct stat64 *s) {
    if (!ISSIM(fd)) return (int)rret(RS(SYS_fstat, fd, s));
    Desc *d = fd_get(fd);
    if (!d) FAIL(EBADF);
    pt();
    if (d->kind != D_FILE) {
        memset(s, 0, sizeof *s);
        s->st_mode = S_IFSOCK | 0755;
        return 0;
    }
    FAULT_ERR(CL_STAT);
    fill_stat((struct stat *)s, d->ino);
    return 0;
}
int stat(const char *p, struct stat *s) { return stat64(p, (struct stat64 *)s); }
int lstat(const char *p, struct stat *s) { return lstat64(p, (struct stat64 *)s); }
int fstat(int fd, struct stat *s) { return fstat64(fd, (struct stat64 *)s); }
static int sim_statx(int dfd, const char *path, int flags, unsigned mask, struct statx *x) {
    struct stat s;
    if (in_sim(path)) {
        if (stat64(path, (struct stat64 *)&s)) return -1;
    } else if (path && !path[0] && (flags & AT_EMPTY_PATH) && ISSIM(dfd)) {
        if (fstat64(dfd, (struct stat64 *)&s)) return -1;
    } else
        return (int)rret(RS(SYS_statx, dfd, path, flags, mask, x));
    memset(x, 0, sizeof *x);
    x->stx_mask = STATX_BASIC_STATS;
    x->stx_mode = (uint16_t)s.st_mode;
    x->stx_size = (u64)s.st_size;
    x->stx_ino = s.st_ino;
    x->stx_nlink = 1;
    x->stx_blksize = 4096;
    x->stx_blocks = (u64)s.st_blocks;
    x->stx_dev_major = 7;
    return 0;
}
int statx(int dfd, const char *restrict path, int flags, unsigned mask, struct statx *restrict x) {
    if (ON) return sim_statx(dfd, path, flags, mask, x);
    return (int)rret(RS(SYS_statx, dfd, path, flags, mask, x));
}
int access(const char *p, int m) {
    if (!in_sim(p)) return (int)rret(RS(SYS_faccessat, AT_FDCWD, p, m));
    if (!stat_path(p)) FAIL(ENOENT);
    return 0;
}
int mkdir(const char *path, mode_t m) {
    if (!in_sim(path)) return (int)rret(RS(SYS_mkdirat, AT_FDCWD, path, m));
    char nb[PATH_MAX];
    const char *p = norm(path, nb);
    pt();
    FAULT_ERR(CL_MKDIR);
    if (name_get(&G.live, p)) FAIL(EEXIST);
    int e = parent_ok(p);
    if (e) FAIL(e);
    if (G.diskfull) FAIL(ENOSPC);
    fsop("mkdir", p, 0, 0);
    do_op(O_CREATE, 2, G.next_ino++, 0, 0, p, 0, 0);
    return 0;
}
static int sim_rmdir(const char *path) {
    char nb[PATH_MAX];
    const char *p = norm(path, nb);
    pt();
    FAULT_ERR(CL_UNLINK);
    Name *n = name_get(&G.live, p);
    if (!n) FAIL(ENOENT);
    Inode *i = ino_get(&G.live, n->ino);
    if (!i || i->type != 2) FAIL(ENOTDIR);
    if (!dir_empty(p)) FAIL(ENOTEMPTY);
    fsop("rmdir", p, 0, 0);
    do_op(O_UNLINK, 0, n->ino, 0, 0, p, 0, 0);
    return 0;
}
static int sim_unlink(const char *path) {
    char nb[PATH_MAX];
    const char *p = norm(path, nb);
    pt();
    FAULT_ERR(CL_UNLINK);
    Name *n = name_get(&G.live, p);
    if (!n) FAIL(ENOENT);
    Inode *i = ino_get(&G.live, n->ino);
    if (i && i->type == 2) FAIL(EISDIR);
    fsop("unlink", p, 0, 0);
    do_op(O_UNLINK, 0, n->ino, 0, 0, p, 0, 0);
    return 0;
}
int unlink(const char *p) {
    if (!in_sim(p)) return (int)rret(RS(SYS_unlinkat, AT_FDCWD, p, 0));
    return sim_unlink(p);
}
int unlinkat(int d, const char *p, int f) {
    char b[PATH_MAX];
    const char *q = at(d, p, b);
    if (!in_sim(q)) return (int)rret(RS(SYS_unlinkat, d, p, f));
    return f & AT_REMOVEDIR ? sim_rmdir(q) : sim_unlink(q);
}
int rmdir(const char *p) {
    if (!in_sim(p)) return (int)rret(RS(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR));
    return sim_rmdir(p);
}
int rename(const char *a, const char *b) {
    if (!in_sim(a)) return (int)rret(RS(SYS_rename, a, b));
    char na[PATH_MAX], nb[PATH_MAX];
    a = norm(a, na);
    b = norm(b, nb);
    pt();
    FAULT_ERR(CL_RENAME);
    Name *n = name_get(&G.live, a);
    if (!n) FAIL(ENOENT);
    int e = parent_ok(b);
    if (e) FAIL(e);
    Name *m = name_get(&G.live, b);
    if (m) {
        Inode *x = ino_get(&G.live, n->ino), *y = ino_get(&G.live, m->ino);
        if (x == y) return 0;
        if (x->type == 2 && y->type != 2) FAIL(ENOTDIR);
        if (x->type != 2 && y->type == 2) FAIL(EISDIR);
        if (y->type == 2 && !dir_empty(b)) FAIL(ENOTEMPTY);
    }
    fsop("rename", b, 0, 0);
    do_op(O_RENAME, 0, n->ino, 0, 0, a, b, 0);
    return 0;
}
char *realpath(const char *restrict p, char *restrict o) {
    if (!in_sim(p)) return r_realpath(p, o);
    char nb[PATH_MAX];
    const char *n = norm(p, nb);
    if (!name_get(&G.live, n)) {
        errno = ENOENT;
        return 0;
    }
    if (!o) return strdup(n);
    return strcpy(o, n);
}
typedef struct SDir {
    u32 magic;
    int n, i, fd;
    struct dirent64 *e;
} SDir;
static SDir *sdirs[64];
static SDir *sdir(DIR *d) {
    for (int i = 0; i < 64; i++)
        if (sdirs[i] == (SDir *)d && d) return sdirs[i];
    return 0;
}
static DIR *sdir_new(const char *p, int fd);
DIR *fdopendir(int fd) {
    if (!ISSIM(fd)) return r_fdopendir(fd);
    Desc *d = fd_get(fd);
    if (!d || d->kind != D_FILE || d->ino->type != 2) {
        errno = d ? ENOTDIR : EBADF;
        return 0;
    }
    return sdir_new(d->path, fd);
}
DIR *opendir(const char *path) {
    if (!in_sim(path)) return r_opendir(path);
    char nb[PATH_MAX];
    const char *p = norm(path, nb);
    pt();
    Flt *f = fault(CL_READDIR);
    if (f && f->err > 0) {
        errno = f->err;
        return 0;
    }
    Name *n = name_get(&G.live, p);
    Inode *ino = n ? ino_get(&G.live, n->ino) : 0;
    if (!ino || ino->type != 2) {
        errno = n ? ENOTDIR : ENOENT;
        return 0;
    }
    int fd = sim_open(path, O_RDONLY | O_DIRECTORY);
    if (fd < 0) return 0;
    return sdir_new(p, fd);
}
static DIR *sdir_new(const char *p, int fd) {
    SDir *d = calloc(1, sizeof *d);
    d->fd = fd;
    size_t l = strlen(p);
    for (Name *k = G.live.names; k; k = k->next)
        if (!strncmp(k->path, p, l) && k->path[l] == '/' && !strchr(k->path + l + 1, '/')) {
            d->e = realloc(d->e, (d->n + 1) * sizeof *d->e);
            struct dirent64 *e = &d->e[d->n++];
            memset(e, 0, sizeof *e);
            e->d_ino = k->ino;
            Inode *i = ino_get(&G.live, k->ino);
            e->d_type = i->type == 2 ? DT_DIR : i->type == 3 ? DT_SOCK : DT_REG;
            e->d_reclen = sizeof *e;
            snprintf(e->d_name, sizeof e->d_name, "%s", k->path + l + 1);
        }
    for (int i = 0; i < 64; i++)
        if (!sdirs[i]) {
            sdirs[i] = d;
            break;
        }
    return (DIR *)d;
}
struct dirent64 *readdir64(DIR *dd) {
    SDir *d = ON ? sdir(dd) : 0;
    if (!d) return r_readdir64(dd);
    if (d->i >= d->n) return 0;
    return &d->e[d->i++];
}
int dirfd(DIR *dd) {
    SDir *d = ON ? sdir(dd) : 0;
    return d ? d->fd : r_dirfd(dd);
}
int closedir(DIR *dd) {
    SDir *d = ON ? sdir(dd) : 0;
    if (!d) return r_closedir(dd);
    for (int i = 0; i < 64; i++)
        if (sdirs[i] == d) sdirs[i] = 0;
    close(d->fd);
    free(d->e);
    free(d);
    return 0;
}

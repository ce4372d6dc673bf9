// The simulated disk and the system-call layer under glibc's stdio.
#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>

const char* sys_names[SYS_NTYPES] = {"open", "tmpfile", "read", "write", "seek", "close", "meta"};
Disk disk;
thread_local Ctx* ctx = nullptr;

uint64_t mix64(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull)); r.next(); return r.next(); }
uint64_t hash_bytes(const char* p, size_t n, uint64_t h) {
    // 8 bytes at a time FNV-like; only used for equality
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t w; memcpy(&w, p + i, 8); h = (h ^ w) * 1099511628211ull; h ^= h >> 29; }
    for (; i < n; i++) h = (h ^ (unsigned char) p[i]) * 1099511628211ull;
    return h ^ (h >> 31);
}

Names deep_copy(const Names& n) {
    Names r;
    for (auto& kv : n) r[kv.first] = std::make_shared<Inode>(*kv.second);
    return r;
}
long Disk::used() const {
    long u = 0;
    std::vector<Inode*> seen;
    auto add = [&](Inode* i) { if (std::find(seen.begin(), seen.end(), i) == seen.end()) { seen.push_back(i); u += (long) i->data.size(); } };
    for (auto& kv : names) add(kv.second.get());
    for (auto& h : handles) if (h->open && h->ino) add(h->ino.get());
    return u;
}
int Disk::open_handles() const { int n = 0; for (auto& h : handles) if (h->open) n++; return n; }
void Disk::gc() {
    std::vector<std::unique_ptr<Handle>> keep;
    for (auto& h : handles) { if (h->open) keep.push_back(std::move(h)); else free(h->vbuf); }
    handles.swap(keep);
}
void Disk::kill_handles() {
    for (auto& h : handles) if (h->open) { h->dead = true; if (h->fp) fclose(h->fp); h->open = false; }
    gc();
}

// ---------------------------------------------------------------- operation bookkeeping
static void record_state(Ctx* c, bool force = false) {
    if (c->watch.empty()) return;
    auto it = disk.names.find(c->watch);
    Inode* ino = it == disk.names.end() ? nullptr : it->second.get();
    uint64_t v = ino ? ino->version : ~1ull;
    if (!force && ino == c->watch_ino && v == c->watch_version) return;
    c->watch_ino = ino; c->watch_version = v;
    if (!c->record_trace) return;
    FileState st;
    st.absent = !ino; st.len = ino ? (long) ino->data.size() : 0; st.hash = ino ? hash_bytes(ino->data) : 0;
    st.in_window = c->watch_trunc && !c->watch_closed; st.is_old = false;
    c->trace.push_back(st);
}

static uint64_t io_seed = 1;
void set_io_seed(uint64_t s) { io_seed = s; }

void begin_op(Ctx* c, int op, const std::vector<Fault*>& faults, const std::string& watch, bool trace) {
    c->op = op; c->sysn = 0; c->allocn = 0; c->steps = 0; c->faults = faults; c->events.clear(); c->created.clear();
    c->any_fault = c->oom_fired = c->enospc = c->crashed = false; c->first_fault_event = -1;
    c->watch = watch; c->watch_trunc = c->watch_closed = false; c->watch_handle = nullptr;
    c->trace.clear(); c->temps_at_trunc.clear(); c->record_trace = trace; c->sys_types.clear();
    c->io_rng = Rng(mix64(io_seed, (uint64_t) c->id * 1000003 + op));
    record_state(c, true);
    scribble_stack();
    c->inlib = true;
}
void end_op(Ctx* c) { c->inlib = false; record_state(c); }

// Central gate of every simulated system call. Returns the errno to fail with, or 0. *frac is the per mille of a write
// that still takes effect when failing.
static int sys_enter(SysType t, Handle* h, const std::string& path, bool wr, int* frac, Fault** crash = nullptr) {
    if (frac) *frac = 0;
    if (!ctx || !ctx->inlib) return 0;
    Ctx* c = ctx;
    yield_point();
    int idx = c->sysn++;
    c->sys_types.push_back(t);
    disk.sys_count[t]++;
    c->steps += 50;
    if (c->steps > step_budget) die("steps", "operation exceeded the step budget (system calls)");
    int err = 0;
    bool hit = false;
    for (Fault* f : c->faults) {
        if (f->kind == FK_EXT && f->at == idx && !f->fired) {
            f->fired = true; disk.ext_changes++; c->any_fault = true;
            auto it = disk.names.find(c->watch);
            if (it != disk.names.end()) {
                if (f->act == 0) disk.names.erase(it);
                else if (f->act == 1) { it->second->data.resize(std::min<size_t>(it->second->data.size(), f->len)); it->second->version++; }
                else { auto n = std::make_shared<Inode>(); n->data = f->data; it->second = n; }
            }
            logev("ext act=%d", f->act);
        }
        if (f->kind == FK_CRASH && f->at == idx && !f->fired) {
            f->fired = true; disk.crashes++;
            if (crash && f->frac > 0) *crash = f;
            else { c->crashed = true; c->snapshot = deep_copy(disk.names); logev("crash before %s", sys_names[t]); }
        }
        if (f->kind == FK_FAIL) {
            bool match = f->at == idx;
            if (f->fired && f->persist == 1 && idx > f->at && f->ptype == (int) t) match = true;
            if (f->fired && f->persist == 2 && idx > f->at) match = true;
            if (match) {
                if (!f->fired) { f->fired = true; f->ptype = (int) t; }
                hit = true;
                if (frac) *frac = f->frac;
                err = f->err;
            }
        }
    }
    if (hit) {
        if (!err)
            switch (t) {
                case SYS_OPEN: { static const int e[] = {EACCES, EMFILE, ENOENT, EIO, ENOMEM}; err = e[idx % 5]; break; }
                case SYS_TMP: { static const int e[] = {EMFILE, ENOSPC, EACCES}; err = e[idx % 3]; break; }
                case SYS_WRITE: err = idx % 2 ? ENOSPC : EIO; break;
                default: err = EIO;
            }
        disk.fail_count[t]++;
    }
    SysEv ev{t, path, hit, c->watch_trunc, h ? h->path == c->watch && !c->watch.empty() : path == c->watch, wr};
    c->events.push_back(ev);
    if (hit) { c->any_fault = true; if (c->first_fault_event < 0) c->first_fault_event = (int) c->events.size() - 1; }
    return err;
}
static void note_fault(Ctx* c) {   // natural failures (disk full) count as faults of the operation
    if (!c || !c->inlib) return;
    c->any_fault = true; c->enospc = true;
    if (!c->events.empty()) { c->events.back().faulted = true; if (c->first_fault_event < 0) c->first_fault_event = (int) c->events.size() - 1; }
}
static void touched(Inode* i) { i->version++; if (ctx && ctx->inlib) record_state(ctx); }

// ---------------------------------------------------------------- handle level system calls
static long h_read(Handle* h, char* buf, size_t n) {
    if (h->dead || !h->open) { errno = EBADF; return -1; }
    if (!h->rd) { errno = EBADF; return -1; }
    int err = sys_enter(SYS_READ, h, h->path, false, nullptr);
    if (err) { logev("read h -> errno %d", err); errno = err; return -1; }
    long avail = (long) h->ino->data.size() - h->pos;
    if (avail < 0) avail = 0;
    long want = std::min<long>(avail, (long) n);
    if (disk.short_max > 0 && ctx && ctx->inlib && want > 1) {
        long lim = ctx->io_rng.range(1, disk.short_max);
        if (lim < want) { want = lim; disk.short_reads++; }
    }
    memcpy(buf, h->ino->data.data() + h->pos, want);
    h->pos += want;
    logev("read %s n=%zu -> %ld", h->path.c_str(), n, want);
    return want;
}
static void apply_write(Handle* h, const char* buf, long n) {
    Bytes& d = h->ino->data;
    if (h->app) h->pos = (long) d.size();
    if ((long) d.size() < h->pos + n) d.resize(h->pos + n, '\0');
    memcpy(&d[h->pos], buf, n);
    h->pos += n;
}
// one write system call; may be short
static long h_write1(Handle* h, const char* buf, long n) {
    if (h->dead) return n;
    if (!h->open || !h->wr) { errno = EBADF; return -1; }
    int frac = 0; Fault* crash = nullptr;
    int err = sys_enter(SYS_WRITE, h, h->path, true, &frac, &crash);
    if (!err && disk.wshort_max > 0 && ctx && ctx->inlib && n > 1) {
        long lim = ctx->io_rng.range(1, disk.wshort_max);
        if (lim < n) { n = lim; disk.short_writes++; }
    }
    if (!err && disk.capacity >= 0) {
        long grow = std::max<long>(0, (h->app ? (long) h->ino->data.size() : h->pos) + n - (long) h->ino->data.size());
        long room = disk.capacity - disk.used();
        if (grow > room) {
            long part = n - (grow - std::max<long>(0, room));
            if (part <= 0) { disk.enospc++; disk.fail_count[SYS_WRITE]++; note_fault(ctx); logev("write %s -> ENOSPC", h->path.c_str()); errno = ENOSPC; return -1; }
            n = part;
        }
    }
    if (err) {
        long part = n * frac / 1000;
        if (part > 0) { apply_write(h, buf, part); touched(h->ino.get()); }
        logev("write %s n=%ld -> errno %d after %ld", h->path.c_str(), n, err, part);
        errno = err;
        return -1;
    }
    long half = 0;
    if (crash) {
        half = n * crash->frac / 1000;
        if (half > 0) { apply_write(h, buf, half); touched(h->ino.get()); }
        ctx->crashed = true; ctx->snapshot = deep_copy(disk.names);
        logev("crash inside write after %ld of %ld", half, n);
    } else if (ctx && ctx->inlib && ctx->record_trace && h->path == ctx->watch && !h->path.empty() && n > 1) {
        half = n / 2;
        apply_write(h, buf, half); touched(h->ino.get());
    }
    apply_write(h, buf + half, n - half);
    touched(h->ino.get());
    logev("write %s n=%ld", h->path.c_str(), n);
    return n;
}
// what stdio does for a regular file: repeat short writes until done or failed
static long h_write(Handle* h, const char* buf, size_t n) {
    size_t done = 0;
    while (done < n) {
        long r = h_write1(h, buf + done, (long) (n - done));
        if (r < 0) break;
        done += r;
    }
    return (long) done;
}
static long h_seek(Handle* h, long off, int whence) {
    if (h->dead) return 0;
    int err = sys_enter(SYS_SEEK, h, h->path, false, nullptr);
    if (err) { logev("seek %s -> errno %d", h->path.c_str(), err); errno = err; return -1; }
    long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? h->pos : (long) h->ino->data.size();
    if (base + off < 0) { errno = EINVAL; return -1; }
    h->pos = base + off;
    logev("seek %s -> %ld", h->path.c_str(), h->pos);
    return h->pos;
}
static int h_close(Handle* h) {
    if (h->dead) { h->open = false; return 0; }
    int err = sys_enter(SYS_CLOSE, h, h->path, false, nullptr);
    h->open = false;
    if (ctx && ctx->inlib && h == ctx->watch_handle) { ctx->watch_closed = true; record_state(ctx); }
    logev("close %s%s", h->path.c_str(), err ? " (error)" : "");
    if (err) { errno = err; return -1; }
    return 0;
}

// ---------------------------------------------------------------- opening
static Handle* new_handle(InodeP ino, const std::string& path, bool rd, bool wr, bool app) {
    auto h = std::make_unique<Handle>();
    static int ids = 0;
    h->id = ++ids; h->ino = ino; h->path = path; h->rd = rd; h->wr = wr; h->app = app; h->thr = ctx ? ctx->id : -1;
    Handle* p = h.get();
    disk.handles.push_back(std::move(h));
    return p;
}
// the watched file is about to lose its content
static void note_trunc() {
    ctx->watch_trunc = true;
    ctx->temps_at_trunc.clear();
    for (auto& h : disk.handles)
        if (h->open && h->thr == ctx->id && h->path != ctx->watch) ctx->temps_at_trunc.push_back(h->ino->data);
}
static Handle* do_open(const char* path, bool rd, bool wr, bool creat, bool trunc, bool excl, bool app) {
    int err = sys_enter(SYS_OPEN, nullptr, path, wr, nullptr);
    if (err) { logev("open %s -> errno %d", path, err); errno = err; return nullptr; }
    auto it = disk.names.find(path);
    if (it == disk.names.end()) {
        if (!creat) { logev("open %s -> ENOENT", path); errno = ENOENT; return nullptr; }
        auto ino = std::make_shared<Inode>();
        it = disk.names.emplace(path, ino).first;
        if (ctx && ctx->inlib) { record_state(ctx); ctx->created.push_back(path); }
    } else {
        if (excl) { errno = EEXIST; return nullptr; }
        if (wr && it->second->ro) { logev("open %s -> EACCES (read-only)", path); errno = EACCES; return nullptr; }
        if (trunc && wr) {
            if (ctx && ctx->inlib && ctx->watch == path) note_trunc();
            it->second->data.clear();
            touched(it->second.get());
        }
    }
    Handle* h = new_handle(it->second, path, rd, wr, app);
    if (trunc && ctx && ctx->inlib && ctx->watch == path) { ctx->watch_trunc = true; ctx->watch_handle = h; ctx->watch_closed = false; }
    logev("open %s rd=%d wr=%d trunc=%d", path, rd, wr, trunc);
    return h;
}

static ssize_t ck_read(void* c, char* b, size_t n) { return h_read((Handle*) c, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) { return h_write((Handle*) c, b, n); }
static int ck_seek(void* c, off64_t* o, int w) { long r = h_seek((Handle*) c, (long) *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { return h_close((Handle*) c); }

static FILE* make_stream(Handle* h, const char* mode) {
    cookie_io_functions_t f = {ck_read, ck_write, ck_seek, ck_close};
    std::string m;
    for (const char* p = mode; *p; p++) if (strchr("rwa+", *p)) m += *p;
    h->fp = fopencookie(h, m.c_str(), f);
    if (disk.bufsize > 0) {
        h->vbuf = (char*) malloc(disk.bufsize);
        setvbuf(h->fp, h->vbuf, _IOFBF, disk.bufsize);
    }
    return h->fp;
}
static bool parse_mode(const char* mode, bool& rd, bool& wr, bool& creat, bool& trunc, bool& excl, bool& app) {
    bool plus = strchr(mode, '+') != nullptr;
    excl = strchr(mode, 'x') != nullptr;
    rd = wr = creat = trunc = app = false;
    switch (mode[0]) {
        case 'r': rd = true; wr = plus; break;
        case 'w': wr = true; rd = plus; creat = trunc = true; break;
        case 'a': wr = true; rd = plus; creat = app = true; break;
        default: errno = EINVAL; return false;
    }
    return true;
}

static Handle* by_fd(int fd) {
    for (auto& h : disk.handles) if (h->open && 1000 + h->id == fd) return h.get();
    errno = EBADF;
    return nullptr;
}

extern "C" {
FILE* sim_fopen(const char* path, const char* mode) {
    bool rd, wr, creat, trunc, excl, app;
    if (!parse_mode(mode, rd, wr, creat, trunc, excl, app)) return nullptr;
    Handle* h = do_open(path, rd, wr, creat, trunc, excl, app);
    return h ? make_stream(h, mode) : nullptr;
}
FILE* sim_freopen(const char* path, const char* mode, FILE* old) { if (old) fclose(old); return path ? sim_fopen(path, mode) : nullptr; }
FILE* sim_fdopen(int fd, const char* mode) { Handle* h = by_fd(fd); return h ? make_stream(h, mode) : nullptr; }
FILE* sim_tmpfile(void) {
    int err = sys_enter(SYS_TMP, nullptr, "", true, nullptr);
    if (err) { logev("tmpfile -> errno %d", err); errno = err; return nullptr; }
    auto ino = std::make_shared<Inode>();
    ino->temp = true;
    Handle* h = new_handle(ino, "", true, true, false);
    logev("tmpfile");
    return make_stream(h, "w+");
}
static int tmp_counter = 0;
char* sim_tmpnam(char* s) { static char b[64]; char* d = s ? s : b; snprintf(d, 20, "tmp/t%06d", ++tmp_counter); return d; }
char* sim_tempnam(const char*, const char*) { char* d = (char*) sim_malloc(32); if (d) snprintf(d, 32, "tmp/t%06d", ++tmp_counter); return d; }
int sim_mkstemp(char* t) {
    size_t n = strlen(t);
    if (n < 6) { errno = EINVAL; return -1; }
    char b[16]; snprintf(b, sizeof b, "%06d", ++tmp_counter % 1000000);
    memcpy(t + n - 6, b, 6);
    Handle* h = do_open(t, true, true, true, false, true, false);
    return h ? 1000 + h->id : -1;
}
int sim_fileno(FILE* fp) {
    for (auto& h : disk.handles) if (h->open && h->fp == fp) return 1000 + h->id;
    errno = EBADF;
    return -1;
}
int sim_open(const char* path, int flags, ...) {
    int acc = flags & O_ACCMODE;
    Handle* h = do_open(path, acc != O_WRONLY, acc != O_RDONLY, flags & O_CREAT, flags & O_TRUNC, (flags & O_CREAT) && (flags & O_EXCL), flags & O_APPEND);
    return h ? 1000 + h->id : -1;
}
int sim_creat(const char* path, mode_t) { return sim_open(path, O_WRONLY | O_CREAT | O_TRUNC); }
int sim_close(int fd) { Handle* h = by_fd(fd); return h ? h_close(h) : -1; }
ssize_t sim_read(int fd, void* b, size_t n) { Handle* h = by_fd(fd); return h ? h_read(h, (char*) b, n) : -1; }
ssize_t sim_write(int fd, const void* b, size_t n) { Handle* h = by_fd(fd); return h ? h_write1(h, (const char*) b, n) : -1; }
ssize_t sim_pread(int fd, void* b, size_t n, off_t o) { Handle* h = by_fd(fd); if (!h) return -1; long s = h->pos; h->pos = o; ssize_t r = h_read(h, (char*) b, n); h->pos = s; return r; }
ssize_t sim_pwrite(int fd, const void* b, size_t n, off_t o) { Handle* h = by_fd(fd); if (!h) return -1; long s = h->pos; h->pos = o; ssize_t r = h_write1(h, (const char*) b, n); h->pos = s; return r; }
off_t sim_lseek(int fd, off_t o, int w) { Handle* h = by_fd(fd); return h ? h_seek(h, o, w) : -1; }
static int meta(const char* path) { int err = sys_enter(SYS_META, nullptr, path, false, nullptr); if (err) { errno = err; return -1; } return 0; }
int sim_unlink(const char* path) {
    if (meta(path)) return -1;
    logev("unlink %s", path);
    if (!disk.names.erase(path)) { errno = ENOENT; return -1; }
    if (ctx && ctx->inlib) record_state(ctx);
    return 0;
}
int sim_remove(const char* path) { return sim_unlink(path); }
int sim_rename(const char* a, const char* b) {
    if (meta(b)) return -1;
    auto it = disk.names.find(a);
    if (it == disk.names.end()) { errno = ENOENT; return -1; }
    InodeP i = it->second;
    disk.names.erase(it);
    disk.names[b] = i;
    logev("rename %s %s", a, b);
    if (ctx && ctx->inlib) record_state(ctx);
    return 0;
}
int sim_link(const char*, const char*) { errno = EPERM; return -1; }
static int trunc_ino(InodeP i, off_t n, const std::string& path) {
    if (i->ro) { errno = EACCES; return -1; }
    i->data.resize(n, '\0');
    (void) path;
    touched(i.get());
    return 0;
}
int sim_truncate(const char* path, off_t n) { if (meta(path)) return -1; auto it = disk.names.find(path); if (it == disk.names.end()) { errno = ENOENT; return -1; } return trunc_ino(it->second, n, path); }
int sim_ftruncate(int fd, off_t n) { Handle* h = by_fd(fd); if (!h) return -1; if (meta(h->path.c_str())) return -1; return trunc_ino(h->ino, n, h->path); }
int sim_fsync(int fd) { Handle* h = by_fd(fd); if (!h) return -1; return meta(h->path.c_str()); }
void sim_sync(void) {}
static int fill_stat(InodeP i, struct stat* st) { memset(st, 0, sizeof *st); st->st_size = (off_t) i->data.size(); st->st_mode = S_IFREG | (i->ro ? 0444 : 0644); st->st_blksize = 4096; return 0; }
int sim_stat(const char* path, struct stat* st) { if (meta(path)) return -1; auto it = disk.names.find(path); if (it == disk.names.end()) { errno = ENOENT; return -1; } return fill_stat(it->second, st); }
int sim_fstat(int fd, struct stat* st) { Handle* h = by_fd(fd); if (!h) return -1; if (meta(h->path.c_str())) return -1; return fill_stat(h->ino, st); }
int sim_access(const char* path, int m) { if (meta(path)) return -1; auto it = disk.names.find(path); if (it == disk.names.end()) { errno = ENOENT; return -1; } if ((m & W_OK) && it->second->ro) { errno = EACCES; return -1; } return 0; }
int sim_chmod(const char* path, mode_t) { return meta(path); }
int sim_fchmod(int fd, mode_t) { Handle* h = by_fd(fd); return h ? 0 : -1; }
// the rest of the environment
void sim_perror(const char*) {}
long sim_time(long* t) { if (t) *t = 1000000000; return 1000000000; }
long sim_clock(void) { return 0; }
int sim_rand(void) { return ctx ? (int) (ctx->io_rng.next() & 0x7fffffff) : 4; }
void sim_srand(unsigned) {}
int sim_getpid(void) { return 4242; }
unsigned sim_sleep(unsigned) { return 0; }
char* sim_getenv(const char*) { return nullptr; }
void* sim_signal(int, void*) { return nullptr; }
}

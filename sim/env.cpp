// Allocator, scheduler, coverage callbacks, log, abnormal termination.
#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <sys/mman.h>
#include <unordered_map>
#include <sanitizer/asan_interface.h>

// ---------------------------------------------------------------- log
uint64_t log_hash = 0;
FILE* log_file = nullptr;
void logev(const char* fmt, ...) {
    char buf[4600];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n > (int) sizeof buf - 1) n = sizeof buf - 1;
    log_hash = hash_bytes(buf, n, log_hash ^ 0x51ed27);
    if (log_file) { if (ctx) fprintf(log_file, "t%d op%d ", ctx->id, ctx->op); fwrite(buf, 1, n, log_file); fputc('\n', log_file); fflush(log_file); }
}
void (*die_hook)() = nullptr;
static int status_fd = 1;
void set_status_fd(int fd) { status_fd = fd; }
void die(const std::string& cls, const std::string& msg) {
    if (die_hook) die_hook();
    std::string s = "DIED " + cls + " " + msg + " (thread " + std::to_string(ctx ? ctx->id : -1) + " op " + std::to_string(ctx ? ctx->op : -1) + ")\n";
    if (log_file) { fputs(s.c_str(), log_file); fflush(log_file); }
    (void) !write(status_fd, s.data(), s.size());
    _exit(70);
}

// ---------------------------------------------------------------- allocator
AllocStats alloc_stats;
unsigned char alloc_fill = 0xA5;
static std::unordered_map<void*, size_t>& live() { static std::unordered_map<void*, size_t>* m = new std::unordered_map<void*, size_t>; return *m; }
size_t alloc_outstanding() { return live().size(); }
std::vector<size_t> alloc_sizes() { std::vector<size_t> v; for (auto& kv : live()) v.push_back(kv.second); return v; }
void alloc_release_all() { for (auto& kv : live()) free(kv.first); live().clear(); }

// Reuse: like the C library's allocator (and unlike AddressSanitizer's) hand the block freed last out again, with what was in it
int alloc_reuse = 0;
static std::unordered_map<size_t, std::vector<void*>>& idle() { static auto* m = new std::unordered_map<size_t, std::vector<void*>>; return *m; }
static std::unordered_map<void*, size_t>& idle_blocks() { static auto* m = new std::unordered_map<void*, size_t>; return *m; }
static void* again(size_t n) {
    if (!alloc_reuse) return nullptr;
    auto i = idle().find(n);
    if (i == idle().end() || i->second.empty()) return nullptr;
    // 1: the last one freed, 2: the first one, 3: any of them
    static uint64_t any = 0;
    auto& v = i->second;
    size_t at = alloc_reuse == 1 ? v.size() - 1 : alloc_reuse == 2 ? 0 : mix64(v.size(), ++any) % v.size();
    void* p = v[at];
    v.erase(v.begin() + at);
    idle_blocks().erase(p);
    ASAN_UNPOISON_MEMORY_REGION(p, n);
    live()[p] = n; alloc_stats.total++;
    return p;
}
static bool keep(void* p) {
    if (!alloc_reuse) return false;
    if (idle_blocks().count(p)) die("memory-error", "memory was freed twice");
    auto i = live().find(p);
    if (i == live().end() || !i->second || i->second > 1 << 20) return false;
    idle()[i->second].push_back(p);
    idle_blocks()[p] = i->second;
    ASAN_POISON_MEMORY_REGION(p, i->second);
    live().erase(i);
    return true;
}
static bool alloc_fails() {
    if (!ctx || !ctx->inlib) return false;
    int idx = ctx->allocn++;
    bool fail = false;
    for (Fault* f : ctx->faults)
        if (f->kind == FK_OOM && (f->at == idx || (f->fired && f->persist && idx > f->at))) { f->fired = true; fail = true; }
    if (fail) { ctx->any_fault = true; ctx->oom_fired = true; alloc_stats.failed++; errno = ENOMEM; logev("alloc %d fails", idx); }
    return fail;
}
extern "C" {
void* sim_malloc(size_t n) {
    if (alloc_fails()) return nullptr;
    if (void* p = again(n)) return p;
    void* p = malloc(n);
    if (!p) return nullptr;
    memset(p, alloc_fill, n);
    live()[p] = n; alloc_stats.total++;
    return p;
}
void* sim_calloc(size_t a, size_t b) {
    if (alloc_fails()) return nullptr;
    if (!b || a <= SIZE_MAX / b) if (void* p = again(a * b)) { memset(p, 0, a * b); return p; }
    void* p = calloc(a, b);
    if (!p) return nullptr;
    live()[p] = a * b; alloc_stats.total++;
    return p;
}
void sim_free(void* p) { if (p && keep(p)) return; if (p) live().erase(p); free(p); }
void* sim_realloc(void* p, size_t n) {
    if (!p) return sim_malloc(n);
    if (n == 0) { sim_free(p); return nullptr; }
    if (idle_blocks().count(p)) die("memory-error", "freed memory was reallocated");
    if (alloc_fails()) return nullptr;
    size_t old = live().count(p) ? live()[p] : 0;
    void* q = realloc(p, n);
    if (!q) return nullptr;
    live().erase(p); live()[q] = n; alloc_stats.total++;
    if (n > old) memset((char*) q + old, alloc_fill, n - old);
    return q;
}
void* sim_reallocarray(void* p, size_t a, size_t b) { return sim_realloc(p, a * b); }
char* sim_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*) sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char* sim_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = (char*) sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void* sim_aligned_alloc(size_t al, size_t n) { if (alloc_fails()) return nullptr; void* p = aligned_alloc(al, n); if (p) { memset(p, alloc_fill, n); live()[p] = n; alloc_stats.total++; } return p; }
int sim_posix_memalign(void** out, size_t al, size_t n) { if (alloc_fails()) return ENOMEM; int r = posix_memalign(out, al, n); if (!r) { memset(*out, alloc_fill, n); live()[*out] = n; alloc_stats.total++; } return r; }
void sim_exit(int rc) { die("exit", "the library ended the process with status " + std::to_string(rc)); }
void sim_abort(void) { die("abort", "the library aborted the process"); }
void sim_assert_fail(const char* e, const char* f, unsigned l, const char*) { die("abort", std::string("assertion failed: ") + e + " " + f + ":" + std::to_string(l)); }
}

// ---------------------------------------------------------------- stale stack contents
__attribute__((noinline, no_sanitize("address"))) void scribble_stack() {
    volatile char buf[24 * 1024];
    for (size_t i = 0; i < sizeof buf; i += 1) buf[i] = (char) (alloc_fill + 0x11);
    asm volatile("" ::"r"(buf) : "memory");
}

// ---------------------------------------------------------------- coverage and preemption
uint64_t step_budget = 60000000;
uint64_t total_steps = 0;
unsigned char* edge_hit = nullptr;
size_t edge_total = 0;
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
    static uint32_t n = 0;
    if (start == stop || *start) return;
    for (uint32_t* x = start; x < stop; x++) *x = ++n;
    static const size_t cap = 1 << 20;
    if (!edge_hit) edge_hit = (unsigned char*) mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (n + 1 > cap) abort();
    edge_total = n + 1;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    edge_hit[*g] = 1;
    total_steps++;
    Ctx* c = ctx;
    if (!c || !c->inlib) return;
    if (++c->steps > step_budget) die("steps", "operation exceeded the step budget");
    if (sched.on) yield_point();
}

// Every load and store of the library is a place where the scheduler may switch, except those to the caller's own stack.
// Memory outside heap and stack (globals, statics) is where threads meet: switch there more often.
static thread_local char *stack_lo = nullptr, *stack_hi = nullptr;
extern "C" char __data_start, _end;
static inline void mem_access(void* a) {
    if (!sched.on) return;
    char* p = (char*) a;
    if (p >= stack_lo && p < stack_hi) return;
    if (p >= &__data_start && p < &_end) hot_point();
    yield_point();
}
extern "C" {
void __sanitizer_cov_load1(void* a) { mem_access(a); }
void __sanitizer_cov_load2(void* a) { mem_access(a); }
void __sanitizer_cov_load4(void* a) { mem_access(a); }
void __sanitizer_cov_load8(void* a) { mem_access(a); }
void __sanitizer_cov_load16(void* a) { mem_access(a); }
void __sanitizer_cov_store1(void* a) { mem_access(a); }
void __sanitizer_cov_store2(void* a) { mem_access(a); }
void __sanitizer_cov_store4(void* a) { mem_access(a); }
void __sanitizer_cov_store8(void* a) { mem_access(a); }
void __sanitizer_cov_store16(void* a) { mem_access(a); }
}

// ---------------------------------------------------------------- scheduler: real threads, one runs at a time
Sched sched;
static sem_t sems[8], main_sem;
static bool done_[8];
static void draw_countdown() { sched.countdown = 1 + sched.rng.below((uint64_t) sched.mean * 2); }
static void switch_to(int t) {
    int me = sched.cur;
    sched.cur = t;
    sched.switches++;
    sched.sig = mix64(sched.sig, sched.steps * 8 + t);
    sem_post(&sems[t]);
    while (sem_wait(&sems[me]) != 0) {}
}
void yield_point() {
    if (!sched.on || !ctx || !ctx->inlib) return;
    sched.steps++;
    int target = -1;
    if (sched.explicit_mode) {
        if (sched.next < sched.plan.size() && sched.steps >= sched.plan[sched.next].first) {
            target = sched.plan[sched.next].second;
            sched.next++;
        }
    } else if (--sched.countdown == 0) {
        draw_countdown();
        std::vector<int> cand;
        for (int i = 0; i < sched.n; i++) if (!done_[i] && i != sched.cur) cand.push_back(i);
        if (!cand.empty()) target = cand[sched.rng.below(cand.size())];
        if (target >= 0 && sched.recorded.size() < 200000) sched.recorded.push_back({sched.steps, target});
    }
    if (target < 0 || target >= sched.n || target == sched.cur || done_[target]) return;
    switch_to(target);
}
void hot_point() {
    if (!sched.on || !ctx || !ctx->inlib || sched.explicit_mode) return;
    sched.hot++;
    if (sched.rng.chance(1, 3)) sched.countdown = 1;
}
// a thread that cannot go on until another one has
static void wait_for_others(const char* what) {
    if (!sched.on || !ctx) die("deadlock", std::string(what) + " would wait for ever");
    if (++ctx->steps > step_budget) die("steps", std::string(what) + ": the threads wait for each other");
    sched.steps++;
    for (int i = 1; i < sched.n; i++) { int t = (sched.cur + i) % sched.n; if (!done_[t]) { switch_to(t); return; } }
    die("deadlock", std::string(what) + " would wait for ever");
}
extern "C" {
int sim_mutex_lock(pthread_mutex_t* m) { yield_point(); while (pthread_mutex_trylock(m) != 0) wait_for_others("mutex"); return 0; }
int sim_mutex_trylock(pthread_mutex_t* m) { yield_point(); return pthread_mutex_trylock(m); }
int sim_mutex_unlock(pthread_mutex_t* m) { int r = pthread_mutex_unlock(m); yield_point(); return r; }
int sim_rwlock_rdlock(pthread_rwlock_t* m) { yield_point(); while (pthread_rwlock_tryrdlock(m) != 0) wait_for_others("lock"); return 0; }
int sim_rwlock_wrlock(pthread_rwlock_t* m) { yield_point(); while (pthread_rwlock_trywrlock(m) != 0) wait_for_others("lock"); return 0; }
int sim_rwlock_unlock(pthread_rwlock_t* m) { int r = pthread_rwlock_unlock(m); yield_point(); return r; }
// 0: not started, 1: running, 2: done (PTHREAD_ONCE_INIT is 0)
int sim_once(pthread_once_t* o, void (*f)()) {
    yield_point();
    volatile int* state = (volatile int*) o;
    while (*state == 1) wait_for_others("once");
    if (*state == 0) { *state = 1; f(); *state = 2; }
    return 0;
}
}
struct ThrArg { int id; void (*body)(int, void*); void* arg; };
static void* thr_main(void* a) {
    ThrArg* t = (ThrArg*) a;
    while (sem_wait(&sems[t->id]) != 0) {}
    pthread_attr_t at;
    void* lo;
    size_t sz;
    if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &lo, &sz); stack_lo = (char*) lo; stack_hi = stack_lo + sz; pthread_attr_destroy(&at); }
    t->body(t->id, t->arg);
    done_[t->id] = true;
    for (int i = 0; i < sched.n; i++)
        if (!done_[i]) { sched.cur = i; sem_post(&sems[i]); return nullptr; }
    sem_post(&main_sem);
    return nullptr;
}
void sched_run(int n, void (*body)(int, void*), void* arg) {
    sched.n = n; sched.cur = 0; sched.steps = sched.switches = 0; sched.next = 0; sched.recorded.clear(); sched.sig = 0;
    draw_countdown();
    pthread_t th[8];
    ThrArg ta[8];
    sem_init(&main_sem, 0, 0);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 8 << 20);
    for (int i = 0; i < n; i++) { sem_init(&sems[i], 0, 0); done_[i] = false; ta[i] = {i, body, arg}; pthread_create(&th[i], &at, thr_main, &ta[i]); }
    sched.on = true;
    sem_post(&sems[0]);
    while (sem_wait(&main_sem) != 0) {}
    sched.on = false;
    for (int i = 0; i < n; i++) pthread_join(th[i], nullptr);
    pthread_attr_destroy(&at);
}

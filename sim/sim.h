// The simulator: disk, allocator, scheduler. Everything the library does to the outside world ends here.
#pragma once
#include <cstdint>
#include <cstdio>
#include <map>
#include <memory>
#include <string>
#include <vector>

typedef std::string Bytes;

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long) below((uint64_t) (b - a + 1)); }
    bool chance(int num, int den) { return (int) below(den) < num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
uint64_t mix64(uint64_t a, uint64_t b);
uint64_t hash_bytes(const char* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash_bytes(const Bytes& b, uint64_t h = 1469598103934665603ull) { return hash_bytes(b.data(), b.size(), h); }

// ---------------------------------------------------------------- faults
enum FaultKind { FK_FAIL, FK_CRASH, FK_EXT, FK_OOM };
struct Fault {
    int thr = 0, op = 0;
    FaultKind kind = FK_FAIL;
    int at = 0;          // index of the system call (or allocation) within the operation
    int err = 0;         // errno; 0: whatever suits the call
    int frac = 0;        // per mille of a write that still happens
    int persist = 0;     // all later calls of the same type in this operation fail as well; 2: all later calls
    int act = 0;         // FK_EXT: 0 unlink, 1 truncate, 2 replace
    int file = 0;        // FK_EXT: which file
    long len = 0;        // FK_EXT truncate: new length
    Bytes data;          // FK_EXT replace: new content
    bool fired = false;
    int ptype = -1;
};

enum SysType { SYS_OPEN, SYS_TMP, SYS_READ, SYS_WRITE, SYS_SEEK, SYS_CLOSE, SYS_META, SYS_NTYPES };
extern const char* sys_names[SYS_NTYPES];

struct SysEv {
    SysType type;
    std::string path;   // "" for a temporary file
    bool faulted;
    bool after_trunc;   // the watched file had already been opened for replacement
    bool on_watched;
    bool opened_wr;
};

// ---------------------------------------------------------------- disk
struct Inode {
    Bytes data;
    bool ro = false, temp = false;
    uint64_t version = 0;
};
typedef std::shared_ptr<Inode> InodeP;

struct Handle {
    int id = 0, thr = 0;
    InodeP ino;
    std::string path;
    long pos = 0;
    bool rd = false, wr = false, app = false, open = true, dead = false;
    FILE* fp = nullptr;
    char* vbuf = nullptr;
};

typedef std::map<std::string, InodeP> Names;

struct FileState { long len; uint64_t hash; bool absent; bool in_window; bool is_old; };

struct Disk {
    Names names;
    std::vector<std::unique_ptr<Handle>> handles;
    long capacity = -1;        // bytes over all files and temporary files; -1 unlimited
    // knobs
    int bufsize = 0;           // stdio buffer of every stream; 0 default
    int short_max = 0;         // reads return at most a random 1..short_max bytes (0: no limit)
    int wshort_max = 0;        // same for writes
    Rng io_rng{1};
    // statistics of this run
    uint64_t sys_count[SYS_NTYPES] = {0};
    uint64_t fail_count[SYS_NTYPES] = {0};
    uint64_t short_reads = 0, short_writes = 0, enospc = 0, crashes = 0, ext_changes = 0;

    long used() const;
    int open_handles() const;
    void kill_handles();       // process death: streams vanish without flushing
    void gc();
};
extern Disk disk;
Names deep_copy(const Names& n);

// ---------------------------------------------------------------- execution context of one caller thread
struct Ctx {
    int id = 0;
    int op = 0;
    bool inlib = false;
    int sysn = 0, allocn = 0;
    uint64_t steps = 0;
    std::vector<Fault*> faults;        // those of the current operation
    std::vector<SysEv> events;
    std::vector<std::string> created;  // files this operation created
    bool any_fault = false;            // some fault fired in this operation
    bool oom_fired = false;
    int first_fault_event = -1;
    bool enospc = false;
    // watched file (the one the operation names)
    std::string watch;
    bool watch_trunc = false, watch_closed = false;
    Handle* watch_handle = nullptr;
    std::vector<FileState> trace;
    uint64_t watch_version = ~0ull;
    Inode* watch_ino = nullptr;
    std::vector<Bytes> temps_at_trunc; // what other open files held when the watched file was opened for replacement
    bool crashed = false;
    Names snapshot;
    bool record_trace = false;
    std::vector<int> sys_types;        // types in order, learnt in phase 1
    uint64_t io_seq = 0;
    Rng io_rng{1};
};
extern thread_local Ctx* ctx;

void set_io_seed(uint64_t s);
void begin_op(Ctx* c, int op, const std::vector<Fault*>& faults, const std::string& watch, bool trace);
void end_op(Ctx* c);

// ---------------------------------------------------------------- allocator
struct AllocStats { uint64_t total = 0, failed = 0; };
extern AllocStats alloc_stats;
extern unsigned char alloc_fill;
extern int alloc_reuse;
size_t alloc_outstanding();
std::vector<size_t> alloc_sizes();
void alloc_release_all();
extern "C" void* sim_malloc(size_t n);
extern "C" void sim_free(void* p);

// ---------------------------------------------------------------- scheduler
struct Sched {
    bool on = false;
    int n = 0, cur = 0;
    uint64_t steps = 0, switches = 0, hot = 0;
    Rng rng{1};
    int mean = 20;
    uint64_t countdown = 0;
    bool explicit_mode = false;
    std::vector<std::pair<uint64_t, int>> plan;   // explicit: (global step, target)
    size_t next = 0;
    std::vector<std::pair<uint64_t, int>> recorded;
    uint64_t sig = 0;
};
extern Sched sched;
void sched_run(int n, void (*body)(int, void*), void* arg);
void yield_point();
void hot_point();

// ---------------------------------------------------------------- log, coverage, limits
void logev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern uint64_t log_hash;
extern FILE* log_file;
extern uint64_t step_budget;
extern unsigned char* edge_hit;       // shared by all forked executions
extern size_t edge_total;
extern void (*die_hook)();             // called first; may not return
void set_status_fd(int fd);
[[noreturn]] void die(const std::string& cls, const std::string& msg);
extern uint64_t total_steps;
void scribble_stack();

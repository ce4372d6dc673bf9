// sim search|one|run: see usage. Every execution of a plan happens in a fresh forked process.
#include "gen.h"
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:quarantine_size_mb=8:exitcode=71:max_malloc_fill_size=0:use_sigaltstack=0:malloc_context_size=12";
}

struct Outcome {
    RunResult r;
    bool died = false;
    std::string death;      // class and message
};
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '\n' || c == '\t') c = ' '; r += c; } return r; }
static void send_result(int fd, const RunResult& r) {
    std::string o;
    char b[512];
    for (auto& v : r.viol) o += "V\t" + v.prop + "\t" + v.cls + "\t" + esc(v.msg) + "\n";
    for (auto& k : r.known) o += "K\t" + k + "\n";
    for (auto& i : r.ops) {
        snprintf(b, sizeof b, "O\t%d\t%d\t%s\t%d\t%d\t%d\t%llu\t", i.id, i.thr, i.name.c_str(), i.writer, i.sysn, i.allocn, (unsigned long long) i.steps);
        o += b;
        for (int t : i.sys_types) o += (char) ('0' + t);
        o += "\n";
    }
    o += "S";
    const uint64_t* w = (const uint64_t*) &r.st;
    for (size_t i = 0; i < sizeof r.st / 8; i++) { snprintf(b, sizeof b, "\t%llu", (unsigned long long) w[i]); o += b; }
    o += "\n";
    snprintf(b, sizeof b, "H\t%llx\t%llx\t%llx\n", (unsigned long long) r.log_hash, (unsigned long long) r.digest, (unsigned long long) r.sched_sig);
    o += b;
    o += "W";
    for (auto& s : r.switches) { if (o.size() > 4000000) break; snprintf(b, sizeof b, "\t%llu:%d", (unsigned long long) s.first, s.second); o += b; }
    o += "\nEND\n";
    size_t n = 0;
    while (n < o.size()) { ssize_t k = write(fd, o.data() + n, o.size() - n); if (k <= 0) break; n += k; }
}
static std::vector<std::string> split(const std::string& s, char c) {
    std::vector<std::string> v;
    size_t i = 0;
    for (;;) { size_t e = s.find(c, i); if (e == std::string::npos) { v.push_back(s.substr(i)); return v; } v.push_back(s.substr(i, e - i)); i = e + 1; }
}
static Outcome parse_result(const std::string& text, int status, bool timed_out) {
    Outcome o;
    bool end = false;
    for (auto& line : split(text, '\n')) {
        if (line.compare(0, 5, "DIED ") == 0) { o.died = true; o.death = line.substr(5); continue; }
        if (line == "END") { end = true; continue; }
        auto f = split(line, '\t');
        if (f[0] == "V" && f.size() >= 4) o.r.viol.push_back({f[1], f[2], f[3]});
        else if (f[0] == "K") o.r.known.insert(f[1]);
        else if (f[0] == "O" && f.size() >= 9) {
            OpInfo i;
            i.id = atoi(f[1].c_str()); i.thr = atoi(f[2].c_str()); i.name = f[3]; i.writer = f[4] == "1"; i.sysn = atoi(f[5].c_str()); i.allocn = atoi(f[6].c_str()); i.steps = strtoull(f[7].c_str(), nullptr, 10);
            for (char c : f[8]) i.sys_types.push_back(c - '0');
            o.r.ops.push_back(i);
        } else if (f[0] == "S") { uint64_t* w = (uint64_t*) &o.r.st; for (size_t i = 0; i < sizeof o.r.st / 8 && i + 1 < f.size(); i++) w[i] = strtoull(f[i + 1].c_str(), nullptr, 10); }
        else if (f[0] == "H" && f.size() >= 4) { o.r.log_hash = strtoull(f[1].c_str(), nullptr, 16); o.r.digest = strtoull(f[2].c_str(), nullptr, 16); o.r.sched_sig = strtoull(f[3].c_str(), nullptr, 16); }
        else if (f[0] == "W") { for (size_t i = 1; i < f.size(); i++) { unsigned long long st; int t; if (sscanf(f[i].c_str(), "%llu:%d", &st, &t) == 2) o.r.switches.push_back({st, t}); } }
    }
    if (!end && !o.died) {
        o.died = true;
        if (timed_out) o.death = "timeout execution did not end";
        else if (WIFSIGNALED(status)) o.death = "signal the process was killed by signal " + std::to_string(WTERMSIG(status));
        else if (WIFEXITED(status) && WEXITSTATUS(status) == 71) o.death = "memory-error AddressSanitizer reported an invalid memory access";
        else o.death = "exit the process ended with status " + std::to_string(WIFEXITED(status) ? WEXITSTATUS(status) : -1);
    }
    return o;
}
static int result_fd = -1;
static Outcome execute(const Plan& p, bool quiet, FILE* log) {
    int fd[2];
    if (pipe(fd) != 0) { perror("pipe"); exit(2); }
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        close(fd[0]);
        if (quiet) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
        alarm(120);                     // real time; only a last resort, the step budget ends runaway operations
        rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        set_status_fd(fd[1]);
        log_file = log;
        result_fd = fd[1];
        finish_hook = [](const RunResult& r) { send_result(result_fd, r); };
        RunResult r = run_plan(p);
        send_result(fd[1], r);
        _exit(0);
    }
    close(fd[1]);
    std::string text;
    char buf[65536];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) text.append(buf, n);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    return parse_result(text, st, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM);
}
static bool bad(const Outcome& o) { return o.died || !o.r.viol.empty(); }
static void describe(const Outcome& o, const std::string& prop) {
    if (o.died) printf("DIED %s\n", o.death.c_str());
    for (auto& v : o.r.viol) printf("VIOL %s %s %s\n", v.prop.c_str(), v.cls.c_str(), v.msg.c_str());
    for (auto& k : o.r.known) printf("KNOWN %s\n", k.c_str());
    printf("HASH %016llx %016llx\n", (unsigned long long) o.r.log_hash, (unsigned long long) o.r.digest);
    (void) prop;
}
static std::string slurp(const char* f) {
    FILE* fp = fopen(f, "rb");
    if (!fp) { perror(f); exit(2); }
    std::string s;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, fp)) > 0) s.append(b, n);
    fclose(fp);
    return s;
}
static void spit(const std::string& f, const std::string& s) { FILE* fp = fopen(f.c_str(), "wb"); if (!fp) { perror(f.c_str()); exit(2); } fwrite(s.data(), 1, s.size(), fp); fclose(fp); }

int main(int argc, char** argv) {
    std::string mode = argc > 1 ? argv[1] : "";
    std::string prop = "C01", out = "", planfile, logname;
    uint64_t seed = 1, start = 0, count = 100, stride = 1;
    double limit = 1e9;
    int depth = 0;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") prop = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--start") start = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--count") count = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--stride") stride = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--time") limit = atof(val().c_str());
        else if (a == "--depth") depth = atoi(val().c_str());
        else if (a == "--out") out = val();
        else if (a == "--log") logname = val();
        else if (a == "--findings") { for (auto& f : split(val(), ',')) if (!f.empty()) listed_findings.insert(f); }
        else planfile = a;
    }
    signal(SIGPIPE, SIG_IGN);
    // a fixed memory layout, so that even code that reads uninitialised memory behaves the same in every execution
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_LAYOUT") && personality(pers | ADDR_NO_RANDOMIZE) >= 0) {
        setenv("SIM_LAYOUT", "1", 1);
        execv("/proc/self/exe", argv);
    }
    if (mode == "run") {
        FILE* log = logname.empty() ? nullptr : logname == "-" ? stdout : fopen(logname.c_str(), "w");
        Plan p = Plan::parse(slurp(planfile.c_str()));
        Outcome o = execute(p, false, log);
        describe(o, "");
        if (!o.r.switches.empty()) { printf("SWITCHES"); for (auto& s : o.r.switches) printf(" %llu:%d", (unsigned long long) s.first, s.second); printf("\n"); }
        return bad(o) ? 1 : 0;
    }
    if (mode == "gen") {          // print the plans of one run index
        uint64_t s = mix64(seed, start);
        Plan p = gen_plan(prop, s, depth);
        fputs(p.text().c_str(), stdout);
        return 0;
    }
    if (mode != "search") { fprintf(stderr, "usage: sim search|run|gen ...\n"); return 2; }

    // run indices start, start+stride, ... below count; the seed of index i is mix(seed, i)
    double t0 = now();
    RunStats total;
    uint64_t runs = 0, seeds = 0, interesting = 0;
    std::unordered_set<uint64_t> logs, digests, scheds, nontriv;
    std::set<std::string> known;
    std::string samples;
    int nsamples = 0;
    bool found = false;
    uint64_t detHash = 0;
    for (uint64_t i = start; i < count && !found; i += stride) {
        if (now() - t0 > limit) break;
        uint64_t s = mix64(seed, i);
        Plan base = gen_plan(prop, s, depth);
        seeds++;
        std::vector<OpInfo> ops;
        int variants = gen_variants(prop, s) * (depth ? 2 : 1);
        for (int v = 0; v <= variants; v++) {
            Plan p = v == 0 ? base : gen_faults(prop, base, ops, s, v);
            Outcome o = execute(p, true, nullptr);
            runs++;
            const uint64_t* w = (const uint64_t*) &o.r.st;
            uint64_t* tw = (uint64_t*) &total;
            for (size_t k = 0; k < sizeof total / 8; k++) tw[k] += w[k];
            logs.insert(o.r.log_hash); digests.insert(o.r.digest);
            if (o.r.sched_sig) scheds.insert(o.r.sched_sig);
            detHash += mix64(mix64(i, v), mix64(mix64(o.r.log_hash, o.r.digest), o.r.sched_sig));    // independent of the order and of the number of workers
            for (auto& k : o.r.known) known.insert(k);
            if (nontrivial(prop, o.r.st)) { interesting++; nontriv.insert(o.r.log_hash); }
            if (v == 0) ops = o.r.ops;
            if (nsamples < 2 && v == variants && p.text().size() < 1500 && nontrivial(prop, o.r.st)) { samples += "SAMPLE " + std::to_string(i) + " " + std::to_string(v) + "\n" + p.text() + "ENDSAMPLE\n"; nsamples++; }
            if (bad(o)) {
                found = true;
                spit(out + ".plan", p.text());
                std::string why = o.died ? "DIED " + o.death : "VIOL " + o.r.viol[0].prop + " " + o.r.viol[0].cls + " " + o.r.viol[0].msg;
                spit(out + ".viol", "index " + std::to_string(i) + " variant " + std::to_string(v) + "\n" + why + "\n");
                break;
            }
        }
    }
    std::string o;
    char b[256];
    auto put = [&](const char* k, uint64_t v) { snprintf(b, sizeof b, "%s %llu\n", k, (unsigned long long) v); o += b; };
    put("runs", runs); put("seeds", seeds); put("nontrivial", interesting);
    put("ops", total.ops); put("writes", total.writes); put("deletes", total.deletes); put("reads", total.reads); put("edits", total.edits);
    put("checks", total.checks); put("states", total.states); put("sessions", total.sessions); put("deaths", total.deaths);
    for (int i = 0; i < SYS_NTYPES; i++) { snprintf(b, sizeof b, "fail_%s", sys_names[i]); std::string k = b; put(k.c_str(), total.fault_sys[i]); }
    put("oom", total.oom); put("crash", total.crash); put("ext", total.ext); put("enospc", total.enospc); put("damage", total.damage);
    put("short_reads", total.short_reads); put("short_writes", total.short_writes); put("switches", total.switches);
    put("steps", total.steps); put("syscalls", total.syscalls); put("known", total.known); put("dethash", detHash);
    uint64_t e = 0;
    for (size_t i = 1; i < edge_total; i++) e += edge_hit[i] != 0;
    put("edges_total", edge_total ? edge_total - 1 : 0); put("edges_hit", e);
    put("found", found);
    for (auto& k : known) o += "finding " + k + "\n";
    o += samples;
    o += "EDGES ";
    for (size_t i = 1; i < edge_total; i++) o += edge_hit[i] ? '1' : '0';
    o += "\nLOGS";
    for (auto h : logs) { snprintf(b, sizeof b, " %llx", (unsigned long long) h); o += b; }
    o += "\nNONTRIV";
    for (auto h : nontriv) { snprintf(b, sizeof b, " %llx", (unsigned long long) h); o += b; }
    o += "\nDIGESTS";
    for (auto h : digests) { snprintf(b, sizeof b, " %llx", (unsigned long long) h); o += b; }
    o += "\nSCHEDS";
    for (auto h : scheds) { snprintf(b, sizeof b, " %llx", (unsigned long long) h); o += b; }
    o += "\n";
    spit(out + ".sum", o);
    return found ? 1 : 0;
}

#pragma once
#include "plan.h"
#include "ref.h"
#include <set>

struct Violation { std::string prop, cls, msg; };
struct OpInfo {                 // what one operation did, used to place faults
    int id = 0, thr = 0;
    std::string name;
    bool faultable = false;     // read, write or delete of a file
    bool writer = false, ran = false;
    std::vector<int> sys_types;
    std::vector<char> sys_watched, sys_after;
    int sysn = 0, allocn = 0;
    uint64_t steps = 0;
};
struct RunStats {
    uint64_t ops = 0, writes = 0, deletes = 0, reads = 0, edits = 0, checks = 0, states = 0, sessions = 0, deaths = 0;
    uint64_t fault_sys[SYS_NTYPES] = {0};
    uint64_t oom = 0, crash = 0, ext = 0, enospc = 0, damage = 0, short_reads = 0, short_writes = 0, switches = 0;
    uint64_t steps = 0, syscalls = 0, known = 0, nontrivial = 0;
};
struct RunResult {
    std::vector<Violation> viol;
    std::set<std::string> known;            // known findings met
    std::vector<OpInfo> ops;
    RunStats st;
    uint64_t log_hash = 0, digest = 0, sched_sig = 0;
    std::vector<std::pair<uint64_t, int>> switches;
};
// Executes a plan completely (including the repetitions its knobs ask for).
RunResult run_plan(const Plan& p);
extern std::set<std::string> listed_findings;
extern void (*finish_hook)(const RunResult&);   // ends the process early with this result

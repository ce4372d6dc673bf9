#pragma once
#include "exec.h"
// seed -> plan without faults; a pure function of its arguments
Plan gen_plan(const std::string& prop, uint64_t seed, int depth);
// places faults at system calls / allocations the fault-free execution really made; variant numbers the choice
Plan gen_faults(const std::string& prop, const Plan& base, const std::vector<OpInfo>& ops, uint64_t seed, int variant);
int gen_variants(const std::string& prop, uint64_t seed);
bool nontrivial(const std::string& prop, const RunStats& s);

// A plan is the complete, explicit description of one simulated execution: initial disk, operations of every caller
// thread, faults and their exact positions, knobs of the environment. One plan is one execution.
#pragma once
#include "sim.h"

struct Line {
    std::string kind;
    std::map<std::string, std::string> kv;
    bool has(const char* k) const { return kv.count(k) > 0; }
    std::string str(const char* k, const std::string& d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
    long num(const char* k, long d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : atol(i->second.c_str()); }
    Bytes bytes(const char* k) const;
    Line& set(const char* k, const std::string& v) { kv[k] = v; return *this; }
    Line& set(const char* k, long v) { kv[k] = std::to_string(v); return *this; }
};
struct Plan {
    std::vector<Line> lines;
    Line& add(const std::string& kind) { lines.push_back(Line()); lines.back().kind = kind; return lines.back(); }
    Line* knobs();
    std::string text() const;
    static Plan parse(const std::string& text);
};
// Byte strings in plans: parts joined by '+': h:<hex>  r:<len>:<seed> (pseudo-random)  x:<len>:<hex byte>  t:<plain text>
Bytes expand(const std::string& spec);
std::string hex_spec(const Bytes& b);

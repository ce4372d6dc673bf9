#include "plan.h"
#include <cstdlib>
#include <cstring>

static int hv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 0; }
Bytes expand(const std::string& spec) {
    Bytes r;
    size_t p = 0;
    while (p < spec.size()) {
        size_t e = spec.find('+', p);
        if (e == std::string::npos) e = spec.size();
        std::string s = spec.substr(p, e - p);
        p = e + 1;
        if (s.size() < 2 || s[1] != ':') continue;
        std::string a = s.substr(2);
        if (s[0] == 't') r += a;
        else if (s[0] == 'h') { for (size_t i = 0; i + 1 < a.size(); i += 2) r += (char) (hv(a[i]) * 16 + hv(a[i + 1])); }
        else {
            size_t c = a.find(':');
            size_t n = strtoul(a.c_str(), nullptr, 10);
            if (n > (64u << 20)) n = 64u << 20;
            std::string b = c == std::string::npos ? "" : a.substr(c + 1);
            if (s[0] == 'x') r.append(n, b.size() >= 2 ? (char) (hv(b[0]) * 16 + hv(b[1])) : '\0');
            else if (s[0] == 'r') {
                Rng g(strtoull(b.c_str(), nullptr, 10) * 77 + 5);
                size_t o = r.size();
                r.resize(o + n);
                for (size_t i = 0; i < n;) { uint64_t w = g.next(); for (int k = 0; k < 8 && i < n; k++, i++) r[o + i] = (char) (w >> (8 * k)); }
            }
        }
    }
    return r;
}
std::string hex_spec(const Bytes& b) {
    bool plain = !b.empty();
    for (char c : b) if (!((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '/' || c == '.')) plain = false;
    if (plain) return "t:" + b;
    std::string s = "h:";
    char t[4];
    for (char c : b) { snprintf(t, sizeof t, "%02x", (unsigned char) c); s += t; }
    return s;
}
Bytes Line::bytes(const char* k) const { return expand(str(k)); }
Line* Plan::knobs() {
    for (auto& l : lines) if (l.kind == "knobs") return &l;
    lines.insert(lines.begin(), Line());
    lines[0].kind = "knobs";
    return &lines[0];
}
std::string Plan::text() const {
    std::string s;
    for (auto& l : lines) {
        s += l.kind;
        for (auto& kv : l.kv) s += " " + kv.first + "=" + kv.second;
        s += "\n";
    }
    return s;
}
Plan Plan::parse(const std::string& text) {
    Plan p;
    size_t i = 0;
    while (i < text.size()) {
        size_t e = text.find('\n', i);
        if (e == std::string::npos) e = text.size();
        std::string s = text.substr(i, e - i);
        i = e + 1;
        if (s.empty() || s[0] == '#') continue;
        Line l;
        size_t q = 0;
        bool first = true;
        while (q < s.size()) {
            size_t f = s.find(' ', q);
            if (f == std::string::npos) f = s.size();
            std::string w = s.substr(q, f - q);
            q = f + 1;
            if (w.empty()) continue;
            if (first) { l.kind = w; first = false; continue; }
            size_t c = w.find('=');
            if (c != std::string::npos) l.kv[w.substr(0, c)] = w.substr(c + 1);
        }
        if (!l.kind.empty()) p.lines.push_back(l);
    }
    return p;
}

#include "ref.h"
#include <cstring>

Bytes sync4(uint32_t v) { Bytes r(4, 0); for (int i = 3; i >= 0; i--) { r[i] = (char) (v & 0x7F); v >>= 7; } return r; }
Bytes be4(uint32_t v) { Bytes r(4, 0); for (int i = 3; i >= 0; i--) { r[i] = (char) (v & 0xFF); v >>= 8; } return r; }
static uint32_t rd_be(const Bytes& b, size_t o) { uint32_t v = 0; for (int i = 0; i < 4; i++) v = v << 8 | (unsigned char) b[o + i]; return v; }
static bool rd_sync(const Bytes& b, size_t o, uint32_t& v) {
    bool ok = true; v = 0;
    for (int i = 0; i < 4; i++) { if (b[o + i] & 0x80) ok = false; v = v << 7 | (uint32_t) (b[o + i] & 0x7F); }
    return ok;
}
bool has_bom(const Bytes& s) { return s.size() >= 2 && ((s[0] == '\xFF' && s[1] == '\xFE') || (s[0] == '\xFE' && s[1] == '\xFF')); }
static bool bom_at(const Bytes& s, size_t o) { return o + 2 <= s.size() && ((s[o] == '\xFF' && s[o + 1] == '\xFE') || (s[o] == '\xFE' && s[o + 1] == '\xFF')); }
long str_end(const Bytes& s, size_t from) {
    if (bom_at(s, from)) {
        for (size_t i = from; i + 1 < s.size(); i += 2) if (!s[i] && !s[i + 1]) return (long) i + 2;
        return -1;
    }
    for (size_t i = from; i < s.size(); i++) if (!s[i]) return (long) i + 1;
    return -1;
}
bool has_term(const Bytes& s, size_t from) { return str_end(s, from) >= 0; }

RComm ref_comm(const Bytes& p) {
    RComm r;
    if (p.size() < 5) return r;
    r.enc = (unsigned char) p[0]; r.lang = p.substr(1, 3);
    long e = str_end(p, 4);
    if (e < 0) return r;
    r.desc = p.substr(4, e - 4); r.text = p.substr(e); r.ok = true;
    return r;
}
RApic ref_apic(const Bytes& p) {
    RApic r;
    if (p.size() < 4) return r;
    r.enc = (unsigned char) p[0];
    size_t m = p.find('\0', 1);
    if (m == Bytes::npos || m + 2 > p.size()) return r;
    r.mime = p.substr(1, m); r.type = (unsigned char) p[m + 1];
    long e = str_end(p, m + 2);
    if (e < 0) return r;
    r.desc = p.substr(m + 2, e - (m + 2)); r.data = p.substr(e); r.ok = true;
    return r;
}
bool plain_strings(const RFrame& f) {
    if (f.api) return true;
    if (f.payload.empty()) return false;
    int enc = (unsigned char) f.payload[0];
    if (f.id == "COMM") { RComm c = ref_comm(f.payload); return c.ok && (enc == 0 || enc == 3 ? !has_bom(c.desc) : enc == 1 && has_bom(c.desc)); }
    if (f.id == "APIC") { RApic a = ref_apic(f.payload); return a.ok && (enc == 0 || enc == 3 ? !has_bom(a.desc) : enc == 1 && has_bom(a.desc)); }
    if (f.id[0] == 'T') return enc == 1 || enc == 2 ? has_bom(f.payload.substr(1)) == (enc == 1) : !has_bom(f.payload.substr(1));
    return true;
}

static bool id_ok(const Bytes& id) { for (char c : id) if (!((c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'))) return false; return true; }

// unsynchronisation (ID3v2.3.0 section 5): nothing in the tag looks like the start of audio
Bytes ref_unsync(const Bytes& b) {
    Bytes r;
    for (size_t i = 0; i < b.size(); i++) {
        r += b[i];
        if ((unsigned char) b[i] == 0xFF && (i + 1 == b.size() || !b[i + 1] || (unsigned char) b[i + 1] >= 0xE0)) r += '\0';
    }
    return r;
}
static Bytes ref_resync(const Bytes& b) {
    Bytes r;
    for (size_t i = 0; i < b.size(); i++) { r += b[i]; if ((unsigned char) b[i] == 0xFF && i + 1 < b.size() && !b[i + 1]) i++; }
    return r;
}

RTag ref_parse(const Bytes& whole) {
    RTag t;
    Bytes plain;
    const Bytes* cur = &whole;
#define b (*cur)
    if (b.size() < 10 || b.compare(0, 3, "ID3") != 0) return t;
    t.ver = (unsigned char) b[3]; t.rev = (unsigned char) b[4]; t.flags = (unsigned char) b[5];
    if (t.ver != 3 && t.ver != 4) return t;
    t.present = true; t.strict = true;
    auto bad = [&](const char* w) { if (t.strict) { t.strict = false; t.why = w; } };
    uint32_t sz;
    if (!rd_sync(b, 6, sz)) bad("tag size is not sync-safe");
    t.size = sz; t.end = 10 + (long) sz;
    if (t.end > (long) b.size()) { bad("tag size exceeds the file"); t.end = (long) b.size(); }
    if (t.flags & ~(t.ver == 4 ? 0xF0 : 0xE0)) bad("unexpected header flags");
    size_t pos = 10, end = t.end;
    if (t.ver == 4 && (t.flags & 0x10)) {        // a footer follows: a copy of the header, not part of the size
        t.foot = 10;
        if (t.end + 10 > (long) b.size()) bad("footer is cut");
        else if (b.compare(t.end, 3, "3DI") != 0 || b.compare(t.end + 3, 7, b, 3, 7) != 0) bad("footer differs from the header");
        t.end = std::min<long>((long) b.size(), t.end + 10);
    }
    if (t.ver == 3 && (t.flags & 0x80)) {
        Bytes body = b.substr(10, end - 10);
        plain = b.substr(0, 10) + ref_resync(body);
        for (size_t i = 10; i + 1 < end; i++) if ((unsigned char) b[i] == 0xFF && (unsigned char) b[i + 1] >= 0xE0) bad("tag is not unsynchronised");
        if (end > 10 && (unsigned char) b[end - 1] == 0xFF) bad("tag is not unsynchronised");
        t.synced = (long) (end - plain.size());
        cur = &plain;
        end = plain.size();
    }
    if (t.flags & 0x40) {
        if (end - pos < 6) { bad("no room for the announced extended header"); return t; }
        if (t.ver == 3) t.ext = 4 + (long) rd_be(b, pos);
        else { uint32_t e; if (!rd_sync(b, pos, e)) bad("extended header size"); t.ext = e; }
        if (t.ext < 6 || pos + t.ext > end) { bad("extended header size out of range"); return t; }
        pos += t.ext;
    }
    while (pos + 10 <= end && b[pos] != 0) {
        RFrame f;
        f.id = b.substr(pos, 4); f.flags = b.substr(pos + 8, 2);
        if (!id_ok(f.id)) { bad("frame id is not valid"); break; }
        uint32_t fs;
        if (t.ver == 4) { if (!rd_sync(b, pos + 4, fs)) { bad("frame size is not sync-safe"); break; } }
        else fs = rd_be(b, pos + 4);
        if (fs == 0) { bad("empty frame"); break; }
        if (pos + 10 + (size_t) fs > end || pos + 10 + (size_t) fs < pos) { bad("frame exceeds the tag"); break; }
        f.payload = b.substr(pos + 10, fs);
        f.enc = ((unsigned char) f.flags[1] & (t.ver == 4 ? 0x4F : 0xE0)) != 0;
        if (f.id == "COMM" && f.payload.size() < 5) bad("short COMM");
        if (f.id == "COMM" && !f.enc && !ref_comm(f.payload).ok) bad("COMM without description");
        if (f.id == "APIC" && !f.enc && !ref_apic(f.payload).ok) bad("APIC without description");
        if (t.ver == 4 && (t.flags & 0x80) && !(f.flags[1] & 2)) bad("frame does not announce its unsynchronisation");
        t.frames.push_back(f);
        pos += 10 + fs;
    }
    t.pad = (long) (end - pos);
    for (size_t i = pos; i < end; i++) if (b[i]) { bad("padding is not zero"); break; }
#undef b
    return t;
}
Bytes ref_audio(const Bytes& b) {
    RTag t = ref_parse(b);
    return t.present ? b.substr(t.end) : b;
}
Bytes ref_build(int ver, int flags, int rev, const Bytes& ext, const std::vector<RFrame>& frames, long pad) {
    Bytes body = ext;
    for (auto& f : frames) {
        body += f.id; body += ver == 4 ? sync4((uint32_t) f.payload.size()) : be4((uint32_t) f.payload.size());
        body += f.flags; body += f.payload;
    }
    body.append(pad, '\0');
    if (ver == 3 && (flags & 0x80)) body = ref_unsync(body);
    Bytes h = "ID3"; h += (char) ver; h += (char) rev; h += (char) flags; h += sync4((uint32_t) body.size());
    if (ver == 4 && (flags & 0x10)) return h + body + "3DI" + h.substr(3);
    return h + body;
}

bool same_modulo_term(const Bytes& got, const Bytes& want, size_t from, bool exact) {
    if (got == want) return true;
    if (exact || has_term(want, from)) return false;
    if (got.size() <= want.size() || got.size() > want.size() + 3) return false;
    if (got.compare(0, want.size(), want) != 0) return false;
    // a terminator is as wide as the characters of the announced encoding
    size_t extra = got.size() - want.size();
    bool wide = want[0] == 1 || want[0] == 2, bom = has_bom(want.substr(from));
    if (want[0] == 2 || wide == bom) {
        if (wide && (want.size() - from) % 2 == 0 && extra != 2) return false;
        if (!wide && extra != 1) return false;
    }
    for (size_t i = want.size(); i < got.size(); i++) if (got[i]) return false;
    return true;
}
bool frame_same(const RFrame& got, const RFrame& want) {
    if (got.id != want.id || got.flags != want.flags) return false;
    if (got.mem && !want.api && want.flags[1]) return true;     // the getters owe nothing sensible
    size_t from = Bytes::npos;
    if (want.enc) ;
    else if (want.id[0] == 'T') from = 1;
    else if (want.id == "COMM") { long e = str_end(want.payload, 4); if (e >= 0) from = e; }
    if (from == Bytes::npos || from > want.payload.size()) return got.payload == want.payload;
    return same_modulo_term(got.payload, want.payload, from, want.api);
}

static Bytes zt(const Bytes& s) { return s + (has_bom(s) ? Bytes(2, '\0') : Bytes(1, '\0')); }
Bytes mk_text(const Bytes& t) { return Bytes(1, has_bom(t) ? 1 : 0) + zt(t); }
Bytes mk_comm(const Bytes& lang, const Bytes& desc, const Bytes& text) { return Bytes(1, has_bom(text) ? 1 : 0) + lang + zt(desc) + zt(text); }
Bytes mk_apic(const Bytes& mime, int type, const Bytes& desc, const Bytes& data) { return Bytes(1, has_bom(desc) ? 1 : 0) + zt(mime) + Bytes(1, (char) type) + zt(desc) + data; }

int Model::find(const std::string& id, int nth) const {
    for (size_t i = 0; i < frames.size(); i++) if (frames[i].id == id && nth-- == 0) return (int) i;
    return -1;
}
void Model::set(const RFrame& f) { int i = find(f.id); if (i < 0) frames.push_back(f); else frames[i] = f; }
bool Model::del(const std::string& id, int nth) { if (nth < 0) return false; int i = find(id, nth); if (i < 0) return false; frames.erase(frames.begin() + i); return true; }

bool image_prefix(const Bytes& img, const Model& m, const Bytes& audio, std::string* why) {
    auto no = [&](const char* w) { if (why) *why = w; return false; };
    Bytes h = "ID3"; h += (char) m.ver; h += (char) m.rev;
    size_t n = std::min<size_t>(img.size(), 5);
    if (img.compare(0, n, h, 0, n) != 0) return no("header differs");
    if (img.size() <= 10) { for (size_t i = 6; i < img.size(); i++) if (img[i] & 0x80) return no("size not sync-safe"); return true; }
    uint32_t sz;
    if (!rd_sync(img, 6, sz)) return no("size not sync-safe");
    size_t pos = 10, end = 10 + (size_t) sz;
    for (auto& f : m.frames) {
        if (pos >= img.size()) return true;
        bool ok = false;
        for (int extra = 0; extra <= 3 && !ok; extra++) {
            RFrame v = f; v.payload.append(extra, '\0');
            if (extra && !frame_same(v, f)) continue;
            Bytes enc = v.id + (m.ver == 4 ? sync4((uint32_t) v.payload.size()) : be4((uint32_t) v.payload.size())) + v.flags + v.payload;
            size_t k = std::min(enc.size(), img.size() - pos);
            if (img.compare(pos, k, enc, 0, k) == 0) { pos += enc.size(); ok = true; }
        }
        if (!ok) return no("frame differs");
    }
    if (pos >= img.size()) return true;
    if (pos > end) return no("frames exceed the tag");
    for (; pos < end && pos < img.size(); pos++) if (img[pos]) return no("padding not zero");
    if (pos >= img.size()) return true;
    size_t k = img.size() - pos;
    if (k > audio.size()) return no("longer than the new file");
    if (img.compare(pos, k, audio, 0, k) != 0) return no("audio differs");
    return true;
}

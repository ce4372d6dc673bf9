// The seeded workload and fault generators.
#include "gen.h"
#include <algorithm>
#include <cerrno>
#include <cstring>

static const char* text_ids[] = {"TIT2", "TPE1", "TALB", "TPE2", "TCON", "TRCK", "TYER", "TPOS", "TCOM", "TIT1", "TIT3", "TPE3", "TPE4", "TCOP", "TXXX", "TDRC", "TSSE", "TBPM", "TSRC", "TALX", "TCOS", "TPO1", "T000", "TZZZ"};
static const char* other_ids[] = {"PRIV", "UFID", "USLT", "CHAP", "CTOC", "AENC", "GEOB", "POPM", "WXXX", "WOAR", "PCNT", "COMR", "APIX", "APID", "COM0", "CON0", "MCDI", "SYLT", "RVA2", "ABCD", "Z999", "0ABC", "XTIT", "AAPI", "OMMC"};
#define PICS "cover.png", "cover.jpg", "pic.tar.jpeg", "noext.x", "my.front.png", "v1.png.jpg", "x.pn", "y.pngz", "z.PNG", "dir.png/cover", "plain", "100%s%n.png", "dddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddd/dddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddd/dddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddd/dddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddd/front.cover.jpg"
static const char* named_ids[] = {"title", "artist", "album", "albumartist", "genre", "track", "year", "disc", "composer"};
template <class T, size_t N> static const T& any(Rng& r, const T (&a)[N]) { return a[r.below(N)]; }

struct G {
    Rng r;
    Plan p;
    std::string prop;
    int id = 0, thr = 0;
    bool big = false;         // this run may use very large frames
    bool huge = false;        // there is a frame larger than that already
    int deep = 0;             // thorough tier
    bool small = false;       // keep everything small
    bool malformed = false;   // some frames are not what they should be
    bool crowded = false;     // many frames
    int nfiles = 1;
    explicit G(uint64_t seed) : r(seed) {}

    Line& op(const char* name) { Line& l = p.add("op"); l.set("id", (long) ++id).set("t", (long) thr).set("name", std::string(name)); return l; }
    bool ch(int a, int b) { return r.chance(a, b); }

    long size() {
        if (small) { int k = (int) r.below(10); return k < 6 ? r.range(0, 20) : k < 9 ? r.range(0, 140) : r.range(120, 300); }
        int k = (int) r.below(100);
        if (k < 35) return r.range(0, 30);
        if (k < 45) return 128 + r.range(-8, 8);
        if (k < 57) return 256 + r.range(-8, 8);
        if (k < 62) return 512 + r.range(-8, 8);
        if (k < 64) return 32768 + r.range(-8, 8);
        if (k < 69) return 16384 + r.range(-12, 8);
        if (k < 73) return 65536 + r.range(-12, 8);
        if (k < 76) return 16384 - 2048 - r.range(0, 90);
        if (k < 78) return 65536 - 2048 - r.range(0, 90);
        if (k < 79 && big) return (1 << 21) + r.range(-12, 8);
        if (k < 80 && big) return (1 << 21) - 2048 - r.range(0, 90);
        if (k < 81 && big && ch(1, 2)) return (1 << 24) + r.range(-12, 8);
        if (k < 82 && big && !huge && ch(1, 2)) {        // the last size bits
            static const int bits[] = {25, 25, 26, 27};
            huge = true;
            return (1L << (deep ? any(r, bits) : 25)) + r.range(-12, 4000);
        }
        if (k < 88) { long b = 1L << r.range(4, 16); return b + (long) r.below(b); }      // every order of magnitude
        return r.range(0, 3000);
    }
    std::string filler(long n) {      // n bytes, no zero byte, no mark at the start
        if (n <= 0) return "";
        std::string s;
        if (n <= 40 && ch(3, 4)) {
            Bytes b;
            for (long i = 0; i < n; i++) b += (char) (ch(1, 6) ? r.range(0x80, 0xFE) : r.range(0x20, 0x7e));
            if ((unsigned char) b[0] >= 0xFE) b[0] = 'a';
            return hex_spec(b);
        }
        char t[32];
        snprintf(t, sizeof t, "x:%ld:%02lx", n, (long) r.range(0x21, 0xFD));
        return t;
    }
    static std::string cat(const std::string& a, const std::string& b) { return a.empty() ? b : b.empty() ? a : a + "+" + b; }
    // UTF-16 with mark; chars are never zero, but one of their bytes may be
    std::string wide(long chars, bool allow_be = true) {
        bool be = allow_be && ch(1, 4);
        Bytes b = be ? Bytes("\xFE\xFF", 2) : Bytes("\xFF\xFE", 2);
        long direct = std::min<long>(chars, 24);
        for (long i = 0; i < direct; i++) {
            int lo = (int) r.range(0, 255), hi = ch(1, 2) ? 0 : (int) r.range(0, 255);
            if (!lo && !hi) lo = 'x';
            if (be) { b += (char) hi; b += (char) lo; } else { b += (char) lo; b += (char) hi; }
        }
        std::string s = hex_spec(b);
        if (chars > direct) { char t[40]; snprintf(t, sizeof t, "x:%ld:%02lx", 2 * (chars - direct), (long) r.range(1, 255)); s = cat(s, t); }
        return s;
    }
    std::string text(bool allow_be = true) {
        int k = (int) r.below(12);
        if (k == 0) return "";
        if (k == 1) return "h:fffe";
        if (k == 2 && ch(1, 2)) return hex_spec(Bytes("\xFF", 1) + "abc");
        if (k < 8) return filler(size());
        return wide(size() / 2, allow_be);
    }
    std::string iso() { return ch(1, 6) ? "" : filler(std::min<long>(size(), 4000)); }
    std::string flags_v(int ver) {
        if (ch(3, 4)) return "h:0000";
        if (ch(1, 5)) { char t[16]; snprintf(t, sizeof t, "h:%02x%02x", (int) (ch(1, 2) ? 0 : r.below(256) & 0x8f), ver == 4 ? 0x10 << r.below(2) : 1 << r.below(5)); return t; }       // bits without a meaning yet
        static const int m3[] = {0x80, 0x40, 0x20, 0xE0, 0xA0}, m4[] = {0x40, 0x20, 0x10, 0x70, 0x50};
        char t[16];
        snprintf(t, sizeof t, "h:%02x00", ver == 4 ? any(r, m4) : any(r, m3));
        return t;
    }
    std::string blob(long n) {
        if (n <= 0) return "";
        char t[48];
        if (ch(1, 6)) snprintf(t, sizeof t, "x:%ld:%02lx", n, ch(1, 2) ? 0L : 255L);
        else snprintf(t, sizeof t, "r:%ld:%ld", n, (long) r.below(1000000));
        return t;
    }
    // ---------------------------------------------------------------- files
    long frame_line(int f, int ver) {
        Line& l = p.add("frame");
        l.set("f", (long) f).set("flags", flags_v(ver));
        int k = (int) r.below(20);
        std::string d;
        if (ch(1, 14)) {
            // compressed, encrypted, grouped, unsynchronised or announcing its length: the content can be anything
            static const int m3[] = {0x80, 0x40, 0x20, 0xC0, 0xE0}, m4[] = {0x08, 0x09, 0x04, 0x05, 0x02, 0x03, 0x01, 0x40, 0x4F};
            char t[16];
            snprintf(t, sizeof t, "h:%02x%02x", ch(1, 4) ? 0x40 : 0, ver == 4 ? any(r, m4) : any(r, m3));
            l.set("flags", std::string(t));
            l.set("fid", std::string("t:") + (k < 5 ? "COMM" : k < 10 ? "APIC" : k < 16 ? any(r, text_ids) : any(r, other_ids)));
            if (ch(1, 3)) d = ch(1, 2) ? "h:00000" + std::to_string(r.below(10)) + "13" : "h:01";
            if (ch(1, 4)) d = cat(d, ch(1, 2) ? "h:01" : "h:01656e67");
            if (ch(1, 4)) d = cat(d, "h:fffe");
            d = cat(d, filler(r.range(6, 40)));
            if (ch(1, 4)) d = cat(d, "h:00");
            if (ch(1, 4)) d = cat(d, "h:00fffe");
            if (ch(1, 2)) d = cat(d, blob(r.range(1, 40)));
            if (ch(1, 8)) d = cat(d, "h:0000");
        } else if (malformed && ch(1, 3)) {
            // what other writers get wrong: missing terminators, nothing inside, pieces missing
            static const char* bad_comm[] = {"", "h:00", "h:00656e67", "h:00656e6761", "h:00656e67616263", "h:01656e67fffe", "h:01656e67fffe6100", "h:01656e67fffe610000", "h:01656e67ff", "h:0065", "h:00656e6700", "h:01656e670000", "h:01656e67fffe0000", "h:01656e67feff00610000"};
            static const char* bad_apic[] = {"", "h:00", "h:0000", "h:000000", "h:00000000", "h:00696d616765", "h:00696d61676500", "h:00696d6167650003", "h:00696d61676500036162", "h:01696d6167650003fffe", "h:01696d6167650003fffe6100", "h:01696d6167650003fffe610000", "h:01696d6167650003ff", "h:00696d6167650003616200"};
            static const char* bad_text[] = {"", "", "h:00", "h:01", "h:01fffe", "h:01ff", "h:01fffe61", "h:01fffe610000", "h:03", "h:ff", "h:00ff", "h:00fffe"};
            int w = (int) r.below(3);
            l.set("fid", std::string("t:") + (w == 0 ? "COMM" : w == 1 ? "APIC" : "TIT2"));
            d = w == 0 ? any(r, bad_comm) : w == 1 ? any(r, bad_apic) : any(r, bad_text);
        } else if (k < 9) {
            l.set("fid", std::string("t:") + any(r, text_ids));
            int enc = ch(2, 3) ? (int) r.below(2) : (int) r.below(4);
            char e[8]; snprintf(e, sizeof e, "h:%02x", enc);
            d = e;
            if (enc == 1) {
                d = cat(d, wide(size() / 2));
                if (ch(1, 8)) d = cat(d, "h:0000" + std::string("+") + wide(r.range(0, 10)));
                if (ch(2, 3)) d = cat(d, "h:0000");
            } else if (enc == 2) {
                Bytes b; long n = r.range(0, 12);
                for (long i = 0; i < n; i++) { b += (char) (ch(1, 2) ? 0 : r.range(1, 200)); b += (char) r.range(1, 255); }
                if ((unsigned char) (b.size() ? b[0] : 0) >= 0xFE) b[0] = 0;
                if (b.size()) d = cat(d, hex_spec(b));
                if (ch(2, 3)) d = cat(d, "h:0000");
            } else {
                d = cat(d, filler(size()));
                if (ch(1, 5)) d = cat(cat(d, "h:00"), filler(r.range(0, 12)));
                if (ch(1, 8)) d = cat(cat(d, "h:00"), filler(r.range(1, 12)));
                if (ch(2, 3)) d = cat(d, "h:00");
                else if (ch(1, 6)) d = cat(d, "h:000000");
            }
        } else if (k < 12) {
            l.set("fid", std::string("t:COMM"));
            int enc = ch(5, 6) ? (int) r.below(2) : (int) (2 + r.below(2));
            char e[8]; snprintf(e, sizeof e, "h:%02x", enc);
            d = cat(e, ch(1, 8) ? "h:000000" : ch(1, 2) ? "t:eng" : filler(3));
            if (enc == 1) {
                d = cat(d, ch(1, 2) ? "h:fffe" : wide(r.range(0, 20)));
                d = cat(d, "h:0000");
                d = cat(d, wide(size() / 2));
                if (ch(1, 2)) d = cat(d, "h:0000");
            } else if (enc == 2) {
                d = cat(d, ch(1, 2) ? "h:0000" : "h:006100620000");
                d = cat(d, "h:00630064");
            } else {
                d = cat(d, iso());
                d = cat(d, "h:00");
                d = cat(d, filler(size()));
                if (ch(1, 2)) d = cat(d, "h:00");
                else if (ch(1, 4)) d = cat(cat(d, "h:00"), filler(r.range(1, 9)));
            }
        } else if (k < 15) {
            l.set("fid", std::string("t:APIC"));
            int enc = ch(5, 6) ? (int) r.below(2) : (int) (2 + r.below(2));
            char e[8]; snprintf(e, sizeof e, "h:%02x", enc);
            d = cat(e, ch(1, 6) ? "" : ch(1, 2) ? "t:image/png" : "t:image/jpeg");
            snprintf(e, sizeof e, "h:00%02x", (int) r.below(21));
            d = cat(d, e);
            if (enc == 1) d = cat(cat(d, ch(1, 2) ? "h:fffe" : wide(r.range(0, 20))), "h:0000");
            else if (enc == 2) d = cat(d, ch(1, 2) ? "h:0000" : "h:006100620000");
            else d = cat(cat(d, iso()), "h:00");
            d = cat(d, blob(size()));
        } else {
            l.set("fid", std::string("t:") + any(r, other_ids));
            if (ch(1, 8)) { char t[16]; snprintf(t, sizeof t, "h:%02lx%02lx", ch(1, 2) ? 0L : (long) r.below(256), (long) r.below(256)); l.set("flags", std::string(t)); }
            d = blob(std::max<long>(1, size()));
        }
        l.set("data", d);
        return 10 + (long) expand(d).size();
    }
    std::string audio() {
        int k = (int) r.below(16);
        if (k == 0) return "";
        if (k == 1) return blob(r.range(1, 9));
        if (k == 2) return "x:" + std::to_string(r.range(1, 5000)) + ":ff";
        if (k == 3) return cat("h:4944330300000000000a", blob(r.range(0, 40)));       // something that looks like another tag
        if (k == 4) return cat("h:49443304000000000003", blob(r.range(0, 40)));
        if (k == 5) return cat(blob(r.range(0, 600)), "t:TAG+x:125:20");
        if (k == 6) return "x:" + std::to_string(r.range(1, 5000)) + ":00";
        if (k == 7) return cat("t:ID3", blob(r.range(0, 6)));
        if (k == 8) return cat("h:fffb9064", blob(r.range(0, 3000)));
        if (k == 9) return cat("h:ff", blob(r.range(0, 60)));
        if (k == 10) return cat(blob(r.range(0, 3000)), "h:ff");
        if (small) return blob(r.range(0, 300));
        if (k == 11) return blob(r.range(4000, 70000));
        if (k == 12) return blob(4096 * r.range(1, 4) + r.range(-3, 3));
        if (k == 13 && ch(1, 30)) return blob(ch(1, 2) ? (1 << 20) * r.range(1, 3) + r.range(-2, 2) : r.range(400000, 3000000));
        if (k == 13 && ch(1, 4)) return blob(r.range(70000, 400000));
        return blob(r.range(0, 3000));
    }
    // A last frame that ends in what looks like frames, exactly as long as what undoing the unsynchronisation frees
    void tail_like_frames(int f, Bytes body) {
        for (auto& l : p.lines) if (l.kind == "frame" && l.num("f") == f) { Bytes d = l.bytes("data"); body += l.bytes("fid") + be4((uint32_t) d.size()) + l.bytes("flags") + d; }
        long n = r.range(2, 40), before = (long) (ref_unsync(body + "x").size() - body.size() - 1), one = 12;
        while ((before + n - 1) % one) n++;
        long m = (before + n - 1) / one;
        if (m > 200) return;
        Bytes d(n, (char) 0xFF);
        d += 'x';
        static const char* id[] = {"TIT2", "TALB", "TPE1", "PRIV"};
        Bytes look = Bytes(any(r, id)) + be4(2) + Bytes(2, '\0') + Bytes("\0A", 2);
        for (long i = 0; i < m; i++) d += look;
        p.add("frame").set("f", (long) f).set("fid", std::string("t:") + any(r, other_ids)).set("flags", std::string("h:0000")).set("data", hex_spec(d));
    }
    void file(int f, int maxframes, int tagged_of_10) {
        size_t at = p.lines.size();
        p.add("file");
        long body = 0;
        std::map<std::string, std::string> kv;
        kv["f"] = std::to_string(f);
        kv["audio"] = audio();
        if ((int) r.below(10) < tagged_of_10) {
            int ver = ch(1, 2) ? 3 : 4;
            kv["ver"] = std::to_string(ver);
            if (ch(1, 12)) kv["rev"] = std::to_string(r.range(1, 9));
            int fl = 0;
            if (ch(1, prop == "C08" ? 4 : 14)) fl |= 0x80;
            if (ch(1, 14)) fl |= 0x20;
            if (ch(1, 10)) {
                fl |= 0x40;
                std::string e;
                if (ver == 3) e = ch(1, 2) ? "h:00000006000000000000" : "h:0000000a80000000000012345678";
                else e = ch(1, 2) ? "h:000000060100" : ch(1, 2) ? "h:0000000c01200512345601ff" : "h:0000000701400" "0";
                if (ch(1, 6)) {     // longer than the ones the standards define
                    static const int big[] = {64, 127, 128, 129, 200, 256, 300, 1000, 16384};
                    int n = any(r, big);
                    e = cat(hex_spec(ver == 3 ? be4((uint32_t) n) + Bytes(6, '\0') : sync4((uint32_t) n) + Bytes("\x01\x00", 2)), "r:" + std::to_string(n - 6) + ":" + std::to_string(r.below(100000)));
                }
                kv["ext"] = e;
                body += (long) expand(e).size();
            }
            if (ver == 4 && ch(1, 14)) fl |= 0x10;
            if (fl) kv["flags"] = std::to_string(fl);
            int n = (int) r.below(maxframes + 1);
            bool was = small;
            if (crowded && ch(1, 2)) { n = (int) r.range(20, ch(1, 4) ? 300 : 80); small = true; }
            size_t fr = p.lines.size();
            for (int i = 0; i < n; i++) body += frame_line(f, ver);
            if (ver == 4 && (fl & 0x80)) for (size_t i = fr; i < p.lines.size(); i++) { Bytes b = p.lines[i].bytes("flags"); b.resize(2); b[1] |= 2; p.lines[i].set("flags", hex_spec(b)); }
            small = was;
            long pad;
            int k = (int) r.below(12);
            if (k < 2) pad = 0;
            else if (k < 4) pad = r.range(1, 12);
            else if (k < 6) pad = r.range(2040, 2056);
            else if (k < 7) pad = r.range(2, 60);
            else if (k < 8 && !small) {
                pad = r.range(0, 6000);
                for (long b : {128L, 256L, 16384L, 65536L}) if (b > body && ch(1, 2)) { pad = std::max<long>(0, b - body + r.range(-3, 3)); break; }
            } else if (k < 10) pad = 2048;
            else pad = r.range(0, small ? 300 : 6000);
            if (ver == 3 && (fl & 0x80) && ch(1, 3)) { pad = 0; tail_like_frames(f, kv.count("ext") ? expand(kv["ext"]) : Bytes()); }
            kv["pad"] = std::to_string(pad);
        } else {
            int k = (int) r.below(12);
            if (k == 0) kv["raw"] = cat("h:49443302000000000020", blob(r.range(0, 60)));           // v2.2
            else if (k == 1) kv["raw"] = cat("h:49443305000000000020", blob(r.range(0, 60)));      // v2.5
            else if (k == 2) kv["raw"] = "t:ID3";
            else if (k == 3) kv["raw"] = "t:TAG";
            else if (k == 4) { kv["audio"] = ""; kv["raw"] = blob(r.range(0, 12)); }
            else if (k == 5) { kv["audio"] = ""; kv["raw"] = "h:494433030000000000"; }             // one byte short of a header
            else if (k == 6) kv["raw"] = "t:Id3";
            else if (k == 7) kv["raw"] = "h:49443303000000000000";                                  // an empty tag
            else if (k == 8) kv["raw"] = "h:494403";
        }
        p.lines[at].kv = kv;
    }
    // ---------------------------------------------------------------- operations
    std::string lang() { return ch(1, 2) ? std::string("t:eng") : ch(1, 6) ? std::string("h:000000") : ch(1, 6) ? std::string("h:656e00") : filler(3); }
    std::string any_id() { int k = (int) r.below(10); return std::string("t:") + (k < 5 ? any(r, text_ids) : k < 6 ? "COMM" : k < 7 ? "APIC" : any(r, other_ids)); }
    std::string api_flags() { return ch(2, 3) ? "h:0000" : ch(3, 4) ? flags_v(3) : ch(1, 3) ? std::string("h:0020") : hex_spec(Bytes(1, (char) r.below(256)) + Bytes(1, (char) r.below(256))); }
    // an earlier edit of this tag again, with one thing changed
    std::string tweak(const std::string& spec, bool text) {
        Bytes b = expand(spec);
        if (b.size() > 400) return text ? filler((long) b.size()) : blob((long) b.size());
        size_t lo = text && has_bom(b) ? 2 : 0;
        if (b.size() <= lo) return text ? filler(r.range(1, 5)) : blob(r.range(1, 5));
        int k = (int) r.below(5);
        if (k == 0 && lo == 0) b.resize(b.size() - 1);
        else if (k == 1 && lo == 0) b += (char) r.range('a', 'z');
        else if (k == 2 && lo == 0) b += ' ';
        else { size_t i = ch(1, 3) ? lo : ch(1, 2) ? b.size() - 1 : (size_t) r.range((long) lo, (long) b.size() - 1); char x = (char) (b[i] ^ (ch(1, 2) ? 0x20 : 1 << r.below(7))); if (x && !(i == 0 && (unsigned char) x >= 0xFE)) b[i] = x; }
        return hex_spec(b);
    }
    bool echo(int s, bool compat) {
        static const char* core[] = {"setn", "sett", "setcomm", "setcommf", "addcommf", "setcover", "setapicf", "addapicf"};
        std::vector<size_t> at;
        for (size_t i = 0; i < p.lines.size(); i++) {
            const Line& l = p.lines[i];
            if (l.kind != "op" || l.num("s") != s || l.num("t") != thr) continue;
            std::string n = l.str("name");
            bool fit = false;
            if (compat) fit = n == "csetn" || n == "csetcover"; else for (auto c : core) if (n == c) fit = true;
            if (fit) at.push_back(i);
        }
        if (at.empty()) return false;
        Line old = p.lines[at[r.below(at.size())]];
        std::string n = old.str("name");
        Line& l = op(n.c_str());
        for (auto& kv : old.kv) if (kv.first != "id" && kv.first != "t" && kv.first != "name") l.kv[kv.first] = kv.second;
        std::vector<std::string> keys = {"="};
        for (auto k : {"flags", "lang", "desc", "type", "mime", "text", "data"}) if (l.has(k)) keys.push_back(k);
        std::string k = keys[r.below(keys.size())];
        if (k == "flags") l.set("flags", api_flags());
        else if (k == "lang") l.set("lang", lang());
        else if (k == "type") l.set("type", (long) r.below(21));
        else if (k == "text") { bool w = has_bom(l.bytes("text")); std::string t = tweak(old.str("text"), true); if (w == has_bom(expand(t)) || !l.has("desc")) l.set("text", t); }
        else if (k == "desc") { bool w = has_bom(l.bytes("desc")); std::string t = tweak(old.str("desc"), true); if (w == has_bom(expand(t)) || n == "setapicf" || n == "addapicf") l.set("desc", t); }
        else if (k == "mime") l.set("mime", std::string(old.str("mime") == "t:image/png" ? "t:image/jpeg" : "t:image/png"));
        else if (k == "data") l.set("data", tweak(old.str("data"), false));
        if (ch(1, 6) && (n == "setcommf" || n == "addcommf" || n == "setapicf" || n == "addapicf")) l.set("name", (n[0] == 's' ? "add" : "set") + n.substr(3));
        return true;
    }
    void edit(int s) {
        int k = (int) r.below(26);
        if (ch(1, 9) && echo(s, false)) return;
        if (k < 8 && ch(1, 8)) {
            Line& l = k < 5 ? op("setn").set("who", std::string(any(r, named_ids))) : op("sett").set("fid", std::string("t:") + any(r, text_ids)).set("flags", api_flags());
            l.set("s", (long) s).set("text", ch(1, 6) ? wide(r.range(0, 40)) : ch(1, 8) ? std::string() : filler(std::min<long>(size(), 3000))).set("conv", 1L);
        } else if (k < 5) op("setn").set("s", (long) s).set("who", std::string(any(r, named_ids))).set("text", text());
        else if (k < 8) op("sett").set("s", (long) s).set("fid", std::string("t:") + any(r, text_ids)).set("flags", api_flags()).set("text", text());
        else if (k < 10) op("setcomm").set("s", (long) s).set("lang", lang()).set("text", text());
        else if (k < 13) {
            Line& l = op(k == 10 ? "setcommf" : "addcommf");
            l.set("s", (long) s).set("flags", api_flags()).set("lang", lang());
            std::string t = text();
            bool w = has_bom(expand(t));
            l.set("text", t).set("desc", w ? wide(r.range(0, 12)) : ch(1, 2) ? std::string() : filler(r.range(0, 20)));
        } else if (k < 14) op("setcover").set("s", (long) s).set("mime", std::string(ch(1, 2) ? "t:image/png" : "t:image/jpeg")).set("data", blob(size()));
        else if (k < 17) {
            Line& l = op(k == 14 ? "setapicf" : "addapicf");
            l.set("s", (long) s).set("flags", api_flags()).set("mime", ch(1, 8) ? std::string() : ch(1, 6) ? filler(r.range(1, 60)) : std::string("t:image/png"));
            l.set("desc", ch(1, 3) ? std::string() : ch(1, 2) ? wide(r.range(0, 20)) : filler(r.range(1, 30))).set("type", (long) r.below(21)).set("data", blob(size()));
        } else if (k < 20) op("delid").set("s", (long) s).set("fid", any_id());
        else if (k < 22) op("deln").set("s", (long) s).set("who", std::string(ch(1, 4) ? "comment" : ch(1, 4) ? "cover" : any(r, named_ids)));
        else if (k < 23) op("delcomm").set("s", (long) s).set("idx", r.range(ch(1, 8) ? -2 : 0, ch(1, 8) ? 5 : 2));
        else if (k < 24) op("delapic").set("s", (long) s).set("idx", r.range(ch(1, 8) ? -2 : 0, ch(1, 8) ? 5 : 2));
        else op("get").set("s", (long) s);
    }
    bool have_pics = false;
    void pics() {
        if (have_pics) return;
        have_pics = true;
        static const char* nm[] = {PICS};
        for (auto n : nm) if (ch(3, 4)) p.add("pic").set("pic", std::string(n)).set("data", blob(ch(1, 6) ? 0 : size()));
    }
    void cedit(int s) {
        int k = (int) r.below(12);
        if (ch(1, 9) && echo(s, true)) return;
        if (k < 7 && ch(1, 8)) op("csetn").set("s", (long) s).set("who", std::string(any(r, named_ids))).set("text", ch(1, 8) ? std::string() : filler(std::min<long>(size(), 3000))).set("conv", 1L);
        else if (k < 7) op("csetn").set("s", (long) s).set("who", std::string(any(r, named_ids))).set("text", text()).set("enc", (long) r.below(2));
        else if (k < 8) op("csetn").set("s", (long) s).set("who", std::string("comment")).set("text", text()).set("enc", (long) r.below(2));
        else if (k < 9) op("csetcover").set("s", (long) s).set("mime", std::string("t:image/png")).set("data", blob(size()));
        else if (k < 10) { static const char* nm[] = {PICS, "missing.png"}; op("csetcoverf").set("s", (long) s).set("pic", std::string(any(r, nm))); }
        else op("cget").set("s", (long) s);
    }
    int file_no() { return (int) r.below(nfiles); }
    void load(int s, int f, bool compat, bool bufs) {
        if (compat) op(bufs && ch(1, 5) ? "cloadbuf" : "cload").set("s", (long) s).set("f", (long) f);
        else if (bufs && ch(1, 6)) op("readbuf").set("s", (long) s).set("f", (long) f).set("exact", (long) r.below(2));
        else op("read").set("s", (long) s).set("f", (long) f);
    }
    // one editing session on a file
    void session(int s, int f, int maxedits, bool compat, bool trace) {
        int before = id;
        bool fresh = ch(1, 5);
        if (fresh && !compat && ch(1, 3)) op("newh").set("s", (long) s).set("f", (long) (ch(1, 2) ? f : file_no())).set("pad", (long) r.below(2) * (long) r.range(0, 5000));
        else if (fresh) op(compat ? "cnew" : "new").set("s", (long) s); else load(s, f, compat, true);
        if (!fresh && ch(1, 2)) { op(compat ? "cnew" : "new").set("s", (long) s); p.lines.pop_back(); id--; }
        int n = (int) r.below(maxedits + 1);
        if (crowded && !compat) {
            bool was = small;
            small = true;
            int m = (int) r.range(10, 60);
            for (int i = 0; i < m; i++) {
                int k = (int) r.below(8);
                if (k < 3) op("addcommf").set("s", (long) s).set("flags", api_flags()).set("lang", lang()).set("text", filler(r.range(0, 30))).set("desc", filler(r.range(0, 10)));
                else if (k < 5) op("addapicf").set("s", (long) s).set("flags", api_flags()).set("mime", std::string("t:image/png")).set("desc", filler(r.range(0, 10))).set("type", (long) r.below(21)).set("data", blob(r.range(0, 40)));
                else if (k < 6) op("delcomm").set("s", (long) s).set("idx", r.range(0, 20));
                else if (k < 7) op("delapic").set("s", (long) s).set("idx", r.range(0, 20));
                else edit(s);
            }
            small = was;
        }
        for (int i = 0; i < n; i++) compat ? cedit(s) : edit(s);
        if (ch(1, 2)) op(compat ? "cget" : "get").set("s", (long) s);
        if (ch(7, 8)) {
            int g = ch(5, 6) ? f : file_no();
            Line& w = op(compat ? "cwrite" : "write").set("s", (long) s).set("f", (long) g);
            if (trace) w.set("trace", 1L);
            if (ch(1, 3)) op(compat ? "cget" : "get").set("s", (long) s);
            if (ch(1, 5)) { op(compat ? "cwrite" : "write").set("s", (long) s).set("f", (long) (ch(3, 4) ? g : file_no())); }
        }
        if (ch(1, 3)) op(compat ? "cfree" : "free").set("s", (long) s);
        (void) before;
    }
    void io_knobs() {
        Line* k = p.knobs();
        static const int bs[] = {16, 64, 512, 1024, 4096, 65536};
        if (ch(1, 2)) k->set("bufsize", (long) any(r, bs));
        if (ch(1, 3)) { static const int sh[] = {1, 3, 10, 100, 1000}; k->set("short", (long) any(r, sh)); }
        if (ch(1, 4)) { static const int sh[] = {10, 100, 1000, 5000}; k->set("wshort", (long) any(r, sh)); }
        // tiny transfers only where the files are small: the number of system calls is what costs
        long biggest = 0;
        for (auto& l : p.lines) { long n = (long) (l.bytes("audio").size() + l.bytes("data").size() + l.num("pad") + l.bytes("text").size()); if (n > biggest) biggest = n; }
        for (const char* q : {"short", "wshort"}) if (k->has(q) && k->num(q) < biggest / 1500) k->set(q, biggest / 1500 + 1);
        if (k->has("bufsize") && k->num("bufsize") < biggest / 1500) k->kv.erase("bufsize");
        k->set("io", (long) r.below(1000000));
        k->set("fill", (long) (ch(1, 4) ? 0 : ch(1, 3) ? 255 : r.range(1, 254)));
    }
};

static void damage(G& g, int f, long len) {
    Rng& r = g.r;
    Line& l = g.op("damage");
    l.set("f", (long) f);
    // the first bytes and frame headers matter most
    long at = r.chance(1, 2) ? r.range(0, std::min<long>(len, 60)) : r.chance(1, 2) ? r.range(0, std::min<long>(len, 600)) : r.range(0, std::max<long>(1, len));
    int k = (int) r.below(12);
    if (k < 4) l.set("how", std::string("flip")).set("at", at).set("bit", (long) r.below(8));
    else if (k < 7) l.set("how", std::string("cut")).set("at", at);
    else if (k < 8) l.set("how", std::string("zero")).set("at", at).set("len", r.range(1, 30));
    else if (k < 10) {
        static const char* ov[] = {"h:ffffffff", "h:7fffffff", "h:80000000", "h:7f7f7f7f", "h:00000000", "h:0000", "h:fffe", "h:00000001", "h:49443303000000000000", "h:ffffffffffff", "h:ff", "h:fffefffe", "h:fffffff0", "h:7ffffff6", "h:00000002", "h:0000000a"};
        std::string d = r.chance(3, 5) ? any(r, ov) : "r:" + std::to_string(r.range(1, 40)) + ":" + std::to_string(r.below(100000));
        l.set("how", std::string("over")).set("at", at).set("data", d);
    } else if (k < 11) l.set("how", std::string("dup")).set("at", at).set("len", r.range(1, 40));
    else l.set("how", std::string("drop")).set("at", at).set("len", r.range(1, 40));
}
// offsets of structural fields of a generated file: aim damage at them
static std::vector<long> fields(const Plan& p, int f, long* total) {
    std::vector<RFrame> fr;
    const Line* fl = nullptr;
    for (auto& l : p.lines) {
        if (l.kind == "file" && l.num("f") == f) fl = &l;
        if (l.kind == "frame" && l.num("f") == f) { RFrame x; x.id = "ABCD"; x.flags = Bytes(2, 0); x.payload = l.bytes("data"); fr.push_back(x); }
    }
    std::vector<long> v = {0, 3, 5, 6, 7, 8, 9};
    long pos = 0;
    if (fl) {
        pos = (long) fl->bytes("raw").size();
        if (fl->num("ver")) {
            pos = 10 + (long) fl->bytes("ext").size();
            if (pos > 10) { v.push_back(10); v.push_back(13); }
            for (auto& x : fr) {
                for (long d : {0L, 4L, 5L, 6L, 7L, 8L, 10L, 11L, 14L}) v.push_back(pos + d);
                for (long d = 10; d < 10 + (long) x.payload.size(); d++) if (!x.payload[d - 10] && v.size() < 400) v.push_back(pos + d);
                pos += 10 + (long) x.payload.size();
                v.push_back(pos - 1);
            }
            pos += fl->num("pad");
        }
        pos += (long) fl->bytes("audio").size();
    }
    *total = pos;
    return v;
}

// cut right behind a 0xFF of the tag: half of a byte order mark, or of an unsynchronised pair
static bool aim_cut(G& g, int f, Line& l) {
    const Line* fl = nullptr;
    std::vector<RFrame> fr;
    for (auto& x : g.p.lines) {
        if (x.kind == "file" && x.num("f") == f) fl = &x;
        if (x.kind == "frame" && x.num("f") == f) { RFrame y; y.id = x.bytes("fid"); y.flags = x.bytes("flags"); y.payload = x.bytes("data"); fr.push_back(y); }
    }
    if (!fl || !fl->num("ver")) return false;
    Bytes b = ref_build((int) fl->num("ver"), (int) fl->num("flags"), 0, fl->bytes("ext"), fr, 0);
    std::vector<long> at;
    for (size_t i = 10; i < b.size() && at.size() < 3000; i++) if ((unsigned char) b[i] == 0xFF) at.push_back((long) i);
    if (at.empty()) return false;
    l.kv.erase("bit"); l.kv.erase("len"); l.kv.erase("data");
    l.set("how", std::string("cut")).set("at", (long) fl->bytes("raw").size() + g.r.pick(at) + 1);
    return true;
}
// a frame or the tag that claims a little more or less than it has
static bool aim_size(G& g, int f, Line& l) {
    const Line* fl = nullptr;
    std::vector<long> at, size;
    long pos = 10;
    for (auto& x : g.p.lines) if (x.kind == "file" && x.num("f") == f) fl = &x;
    if (!fl || !fl->num("ver")) return false;
    pos += (long) fl->bytes("ext").size();
    for (auto& x : g.p.lines) if (x.kind == "frame" && x.num("f") == f) { long n = (long) x.bytes("data").size(); at.push_back(pos + 4); size.push_back(n); pos += 10 + n; }
    long body = pos - 10 + fl->num("pad");
    at.push_back(6); size.push_back(body);
    size_t i = g.r.below(at.size());
    long left = i + 1 < at.size() ? body + 10 - (at[i] + 6) : body + (long) fl->bytes("audio").size();    // what there is room for
    static const long d[] = {-1, 1, -2, 2, -3, 3, 10, -10, 11, 20, 100};
    long v = g.ch(1, 2) ? size[i] + any(g.r, d) : g.ch(2, 3) ? left + any(g.r, d) : g.r.range(0, 6);
    if (v < 0) v = 0;
    bool sync = at[i] == 6 || fl->num("ver") == 4;
    Bytes b = sync ? sync4((uint32_t) v) : be4((uint32_t) v);
    l.kv.erase("bit"); l.kv.erase("len");
    l.set("how", std::string("over")).set("at", at[i]).set("data", hex_spec(b));
    return true;
}

Plan gen_plan(const std::string& prop, uint64_t seed, int depth) {
    G g(mix64(seed, hash_bytes(prop)));
    Rng& r = g.r;
    g.prop = prop; g.deep = depth;
    g.p.knobs()->set("prop", prop);
    auto bystanders = [&](int n) { g.nfiles = n; };
    int num = atoi(prop.c_str() + 1);
    auto sessions = [&](int lo, int hi, int maxedits, int compat_of_8, bool trace) {
        int n = (int) r.range(lo, hi);
        for (int i = 0; i < n; i++) {
            g.session((int) r.below(2), g.file_no(), maxedits, (int) r.below(8) < compat_of_8, trace);
            if (g.ch(1, 4)) g.op("restart");
        }
    };
    bool compat_used = false;
    if (num == 1 || num == 3 || num == 4 || num == 5 || num == 9 || num == 12 || num == 14 || num == 16) g.crowded = g.ch(1, 14);
    if (num == 8 || num == 9) g.malformed = g.ch(1, 3);
    switch (num) {
    case 1:
        g.big = g.ch(1, 40); bystanders((int) r.range(1, 2)); compat_used = true; g.pics();
        for (int f = 0; f < g.nfiles; f++) g.file(f, 5, 6);
        sessions(1, 4, 4, 1, false);
        break;
    case 2:
        bystanders((int) r.range(1, 3));
        for (int f = 0; f < g.nfiles; f++) g.file(f, 4, 7);
        {
            int n = (int) r.range(1, 4);
            for (int i = 0; i < n; i++) {
                if (g.ch(1, 2)) g.session(0, g.file_no(), 3, g.ch(1, 6), false);
                g.op(g.ch(1, 4) ? "cremove" : "delete").set("f", (long) g.file_no());
                if (g.ch(1, 4)) g.op("restart");
                if (g.ch(1, 3)) g.op("read").set("s", 1L).set("f", (long) g.file_no());
            }
        }
        break;
    case 3:
        g.big = g.ch(1, 60); bystanders((int) r.range(1, 2));
        for (int f = 0; f < g.nfiles; f++) g.file(f, 6, 7);
        sessions(1, 4, 10 + depth * 6, 0, false);
        g.op("read").set("s", 0L).set("f", 0L); g.op("get").set("s", 0L);
        break;
    case 4:
        g.big = g.ch(1, 40); bystanders(1);
        g.file(0, 9 + depth * 4, 10);
        sessions(1, 3, 3, 1, false);
        g.op("read").set("s", 0L).set("f", 0L); g.op("get").set("s", 0L);
        break;
    case 5:
        g.big = g.ch(1, 25); bystanders(1);
        g.file(0, 6, 7);
        sessions(1, 4, 7, 1, false);
        break;
    case 6:
        bystanders((int) r.range(1, 2));
        for (int f = 0; f < g.nfiles; f++) g.file(f, 4, 7);
        { int n = (int) r.range(1, 3); for (int i = 0; i < n; i++) { if (g.ch(3, 4)) g.session(0, g.file_no(), 3, g.ch(1, 8), false); else g.op(g.ch(1, 4) ? "cremove" : "delete").set("f", (long) g.file_no()); } }
        if (g.ch(1, 3)) g.op(g.ch(1, 4) ? "cremove" : "delete").set("f", (long) g.file_no());
        break;
    case 7:
        g.small = g.ch(3, 4); bystanders(1);
        g.file(0, 3, 7);
        { int n = (int) r.range(1, 3); for (int i = 0; i < n; i++) { if (g.ch(3, 4)) g.session(0, 0, 3, g.ch(1, 8), true); else g.op(g.ch(1, 4) ? "cremove" : "delete").set("f", 0L).set("trace", 1L); } }
        g.session(0, 0, 2, false, true);
        g.op("read").set("s", 0L).set("f", 0L); g.op("get").set("s", 0L);
        break;
    case 8: {
        g.small = g.ch(2, 3); bystanders(1);
        g.file(0, 5, 9);
        long len;
        std::vector<long> fs = fields(g.p, 0, &len);
        if (g.ch(1, 5)) { g.session(0, 0, 3, false, false); }
        int rounds = (int) r.range(1, 3);
        for (int i = 0; i < rounds; i++) {
            int nd = (int) r.range(1, g.ch(1, 4) ? 5 : 2);
            for (int k = 0; k < nd; k++) {
                damage(g, 0, len);
                Line& l = g.p.lines.back();
                if (g.ch(1, 10) && aim_cut(g, 0, l)) continue;
                if (g.ch(1, 3) && aim_size(g, 0, l)) continue;
                if (g.ch(1, 2)) { long at = r.pick(fs) + (g.ch(1, 3) ? r.range(-1, 1) : 0); if (at < 0) at = 0; l.set("at", at); }
            }
            int w = (int) r.below(8);
            bool compat = false;
            if (w < 3) g.op("read").set("s", 0L).set("f", 0L);
            else if (w < 5) { g.op("cload").set("s", 0L).set("f", 0L); compat = true; }
            else if (w < 6) g.op("readbuf").set("s", 0L).set("f", 0L).set("exact", (long) r.below(2));
            else if (w < 7) g.op("readbuf").set("s", 0L).set("f", 0L).set("len", r.range(0, std::min<long>(len, 400)));
            else g.op("agree").set("f", 0L);
            if (g.ch(1, 4)) g.op("header").set("f", 0L);
            g.op(compat ? "cget" : "get").set("s", 0L);
            int ne = (int) r.below(4);
            for (int k = 0; k < ne; k++) compat ? g.cedit(0) : g.edit(0);
            if (g.ch(1, 2)) g.op(compat ? "cwrite" : "write").set("s", 0L).set("f", 0L);
            else if (g.ch(1, 4)) g.op("delete").set("f", 0L);
            if (g.ch(1, 2)) g.op(compat ? "cfree" : "free").set("s", 0L);
        }
        g.p.knobs()->set("twice", 1L);
        break;
    }
    case 9:
        bystanders((int) r.range(1, 2)); g.pics();
        for (int f = 0; f < g.nfiles; f++) g.file(f, 6, 7);
        { int n = (int) r.range(1, 4);
          for (int i = 0; i < n; i++) {
            int k = (int) r.below(8);
            if (k < 5) g.session((int) r.below(2), g.file_no(), 6, g.ch(1, 4), false);
            else if (k < 6) g.op("delete").set("f", (long) g.file_no());
            else if (k < 7) g.op("header").set("f", (long) g.file_no());
            else g.op("agree").set("f", (long) g.file_no());
            if (g.ch(1, 4)) damage(g, g.file_no(), 400);
          } }
        break;
    case 10: {
        int th = (int) r.range(2, 4);
        g.small = true;
        g.nfiles = th;
        for (int f = 0; f < th; f++) { g.small = !g.ch(1, 6); g.file(f, 4, 8); }
        g.small = true;
        g.pics();
        bool shared = g.ch(1, 2);
        if (shared) { g.file(th, 5, 10); g.p.add("shared").set("f", (long) th); }
        for (int t = 0; t < th; t++) {
            g.thr = t;
            int n = (int) r.range(1, 3);
            for (int i = 0; i < n; i++) {
                int k = (int) r.below(10);
                bool compat = g.ch(1, 4);
                if (k < 5) {
                    if (g.ch(1, 5)) g.op(compat ? "cnew" : "new").set("s", 0L); else g.load(0, t, compat, true);
                    int ne = (int) r.below(5);
                    for (int e = 0; e < ne; e++) compat ? g.cedit(0) : g.edit(0);
                    g.op(compat ? "cget" : "get").set("s", 0L);
                    if (g.ch(3, 4)) g.op(compat ? "cwrite" : "write").set("s", 0L).set("f", (long) t);
                } else if (k < 6) g.op(compat ? "cremove" : "delete").set("f", (long) t);
                else if (k < 7) g.op("header").set("f", (long) t);
                else if (k < 8) { g.load(1, shared ? th : t, compat, false); g.op(compat ? "cget" : "get").set("s", 1L); }
                else if (k < 9) g.op("agree").set("f", (long) (shared && g.ch(1, 2) ? th : t));
                else if (shared) g.op("get").set("s", 9L);
            }
        }
        g.thr = 0;
        static const int means[] = {1, 3, 10, 50, 300, 2000, 10000};
        g.p.knobs()->set("threads", (long) th).set("sched", (long) r.below(100000000)).set("mean", (long) any(r, means));
        break;
    }
    case 11:
        bystanders((int) r.range(2, 3)); g.pics();
        for (int f = 0; f < g.nfiles; f++) { g.file(f, 5, 7); }
        for (auto& l : g.p.lines) if (l.kind == "file" && g.ch(1, 4)) l.set("ro", 1L);
        { int n = (int) r.range(2, 5);
          for (int i = 0; i < n; i++) {
            int k = (int) r.below(10), f = g.file_no();
            if (k < 4) g.session((int) r.below(2), f, 4, g.ch(1, 4), false);
            else if (k < 5) g.op("delete").set("f", (long) f);
            else if (k < 6) g.op("header").set("f", (long) f);
            else if (k < 7) g.op("agree").set("f", (long) f);
            else if (k < 8) { g.load(0, f, false, true); g.op("get").set("s", 0L); g.op("get").set("s", 0L); }
            else { g.load(0, f, true, true); g.op("cget").set("s", 0L); }
          } }
        break;
    case 12:
        bystanders((int) r.range(1, 2));
        g.big = g.ch(1, 60);
        for (int f = 0; f < g.nfiles; f++) g.file(f, 6, 7);
        { int n = (int) r.range(2, 5);
          for (int i = 0; i < n; i++) {
            int k = (int) r.below(12), f = g.file_no();
            if (k < 4) g.op("agree").set("f", (long) f);
            else if (k < 6) g.op("header").set("f", (long) f);
            else if (k < 8) g.op(g.ch(1, 3) ? "cloadbuf" : "readbuf").set("s", 0L).set("f", (long) f).set("exact", (long) r.below(2));
            else if (k < 9) g.op("readbuf").set("s", 0L).set("f", (long) f).set("len", r.range(0, 40));
            else if (k < 10) { damage(g, f, 100); g.op("agree").set("f", (long) f); g.op("header").set("f", (long) f); }
            else if (k < 11) g.session(0, f, 4, false, false);
            else g.load(0, f, g.ch(1, 3), false);
          } }
        g.p.knobs()->set("twice", 1L);
        break;
    case 13:
        bystanders(1);
        g.file(0, 5, 7);
        { int n = (int) r.range(1, 2);
          for (int i = 0; i < n; i++) {
            bool compat = g.ch(1, 5);
            if (g.ch(1, 4)) g.op(compat ? "cnew" : "new").set("s", 0L); else g.load(0, 0, compat, false);
            int ne = (int) r.below(5);
            for (int e = 0; e < ne; e++) compat ? g.cedit(0) : g.edit(0);
            int w = (int) r.range(1, 3);
            for (int e = 0; e < w; e++) g.op(g.ch(1, 8) ? "delete" : compat ? "cwrite" : "write").set("s", 0L).set("f", 0L);
            g.op(compat ? "cwrite" : "write").set("s", 0L).set("f", 0L).set("heal", 1L);
            g.op("read").set("s", 1L).set("f", 0L).set("heal", 1L); g.op("get").set("s", 1L);
          } }
        break;
    case 14:
        bystanders((int) r.range(1, 2)); g.pics();
        for (int f = 0; f < g.nfiles; f++) g.file(f, 6, 6);
        { int n = (int) r.range(1, 4);
          for (int i = 0; i < n; i++) {
            int k = (int) r.below(8), f = g.file_no();
            if (k < 6) g.session((int) r.below(2), f, 8, true, false);
            else if (k < 7) g.op("cremove").set("f", (long) f);
            else g.op("agree").set("f", (long) f);
            if (g.ch(1, 6)) g.op("restart");
          }
          g.op("cload").set("s", 0L).set("f", 0L); g.op("cget").set("s", 0L); }
        break;
    case 15:
        g.small = g.ch(1, 2); bystanders((int) r.range(1, 2)); g.pics();
        for (int f = 0; f < g.nfiles; f++) g.file(f, 4, 7);
        { int n = (int) r.range(1, 3);
          for (int i = 0; i < n; i++) {
            if (g.ch(5, 6)) g.session(0, g.file_no(), 4, g.ch(1, 4), false); else g.op(g.ch(1, 4) ? "cremove" : "delete").set("f", (long) g.file_no());
            g.op("write").set("s", 0L).set("f", (long) g.file_no());
          } }
        break;
    case 16:
        bystanders(1);
        g.file(0, 5, 8);
        { int n = (int) r.range(2, 5 + depth * 4);
          for (int i = 0; i < n; i++) {
            bool compat = g.ch(1, 8);
            if (i == 0 && g.ch(1, 4)) g.op(g.ch(1, 3) ? "newh" : "new").set("s", 0L).set("f", 0L), compat = false; else g.load(0, 0, compat, false);
            int ne = g.ch(1, 2) ? 0 : (int) r.below(6);
            for (int e = 0; e < ne; e++) compat ? g.cedit(0) : g.edit(0);
            int w = (int) r.range(1, 3);
            for (int e = 0; e < w; e++) { g.op(compat ? "cwrite" : "write").set("s", 0L).set("f", 0L); if (!compat && g.ch(1, 4)) g.edit(0); }
          }
          g.op("read").set("s", 1L).set("f", 0L); g.op("write").set("s", 1L).set("f", 0L); g.op("write").set("s", 1L).set("f", 0L); }
        break;
    case 20:
        g.small = g.ch(2, 3); bystanders((int) r.range(1, 2)); g.pics();
        for (int f = 0; f < g.nfiles; f++) g.file(f, 7, 9);
        { int n = (int) r.range(8, 30);
          g.load(0, 0, false, true);
          for (int i = 0; i < n; i++) {
            int k = (int) r.below(32);
            long s = (long) r.below(3), s2 = g.ch(1, 2) ? s : (long) r.below(3);
            if (k < 3) g.load((int) s, g.file_no(), false, true);
            else if (k < 4) g.op(g.ch(1, 4) ? "newh" : "new").set("s", s).set("f", (long) g.file_no());
            else if (k < 10) g.edit((int) s);
            else if (k < 13) g.op("setn").set("s", s).set("who", std::string(any(r, named_ids))).set("text", g.text()).set("as", s2).set("aid", std::string("t:") + any(r, text_ids));
            else if (k < 15) { std::string id = std::string("t:") + any(r, text_ids); g.op("sett").set("s", s).set("fid", g.ch(1, 2) ? id : std::string("t:") + any(r, text_ids)).set("flags", g.api_flags()).set("text", g.text()).set("as", s2).set("aid", id).set("aflags", (long) g.ch(1, 2)); }
            else if (k < 18) { static const char* nm[] = {"setcomm", "setcommf", "addcommf"}; std::string t = g.filler(r.range(0, 30)); g.op(any(r, nm)).set("s", s).set("flags", g.api_flags()).set("lang", g.lang()).set("text", t).set("desc", g.filler(r.range(0, 9))).set("as", s2); }
            else if (k < 21) { static const char* nm[] = {"setcover", "setapicf", "addapicf"}; g.op(any(r, nm)).set("s", s).set("flags", g.api_flags()).set("mime", std::string("t:image/png")).set("desc", g.filler(r.range(0, 9))).set("type", (long) r.below(21)).set("data", g.blob(g.size())).set("as", s2); }
            else if (k < 25) g.op("hold").set("s", s).set("idx", (long) r.below(12));
            else if (k < 27) g.op("write").set("s", s).set("f", (long) g.file_no());
            else if (k < 28) g.op("free").set("s", s);
            else if (k < 29) { g.load(0, g.file_no(), true, true); g.cedit(0); g.cedit(0); g.op("cwrite").set("s", 0L).set("f", (long) g.file_no()); }
            else if (k < 30) g.op(g.ch(1, 2) ? "agree" : "delete").set("f", (long) g.file_no());
            else g.op("get").set("s", s);
          }
          for (long s = 0; s < 3; s++) g.op("get").set("s", s);
          if (g.ch(1, 2)) g.p.knobs()->set("roargs", 1L); }
        break;
    case 17:
        g.small = g.ch(1, 2); bystanders(1); g.pics();
        g.file(0, 6, 9);
        { int n = (int) r.range(1, 3);
          for (int i = 0; i < n; i++) {
            int k = (int) r.below(8);
            if (k < 4) { g.op("read").set("s", 0L).set("f", 0L); g.op("get").set("s", 0L); }
            else if (k < 6) { g.op("cload").set("s", 0L).set("f", 0L); g.op("cget").set("s", 0L); }
            else if (k < 7) g.op("header").set("f", 0L);
            else { g.op("cnew").set("s", 0L); g.op("csetn").set("s", 0L).set("who", std::string("title")).set("text", g.text()); g.op("csetcoverf").set("s", 0L).set("pic", std::string("cover.png")); g.op("cget").set("s", 0L); }
          }
          g.op("read").set("s", 1L).set("f", 0L); g.op("get").set("s", 1L); }
        break;
    }
    if (!compat_used && (num <= 8 || num == 10 || num == 13 || num == 16)) { for (auto& l : g.p.lines) if (l.str("name") == "csetcoverf" && !g.have_pics) { g.pics(); break; } }
    g.io_knobs();
    if (g.ch(1, num == 20 ? 2 : 5)) g.p.knobs()->set("reuse", (long) r.range(1, 3));
    if (g.ch(1, 3)) g.p.knobs()->set("names", (long) r.range(1, 10));
    if (num == 7 && g.ch(1, 2)) g.p.knobs()->kv.erase("wshort");
    // operations on files that do not exist or may not be written
    if (num == 6 || num == 9 || num == 11 || num == 13 || num == 15) {
        for (auto& l : g.p.lines)
            if (l.kind == "file") { if (g.ch(1, 14)) l.set("absent", 1L); else if (num != 13 && g.ch(1, 10)) l.set("ro", 1L); }
    } else if (num != 7 && num != 17)
        for (auto& l : g.p.lines) if (l.kind == "file" && g.ch(1, 40)) l.set("absent", 1L);
    return g.p;
}

int gen_variants(const std::string& prop, uint64_t seed) {
    int num = atoi(prop.c_str() + 1);
    (void) seed;
    switch (num) {
    case 6: return 10;
    case 7: return 4;
    case 9: return 3;
    case 11: return 2;
    case 13: return 6;
    case 14: return 2;
    case 15: return 12;
    case 17: return 8;
    case 8: case 12: return 0;
    case 10: return 3;       // other schedules of the same work
    default: return seed % 3 == 0 ? 1 : 0;
    }
}
bool nontrivial(const std::string& prop, const RunStats& s) {
    uint64_t faults = s.oom + s.crash + s.ext + s.enospc;
    for (int i = 0; i < SYS_NTYPES; i++) faults += s.fault_sys[i];
    switch (atoi(prop.c_str() + 1)) {
    case 1: case 4: case 5: return s.writes > 0 && s.checks > 0;
    case 2: return s.deletes > 0;
    case 3: return s.edits > 0 && s.writes > 0;
    case 6: return faults > 0 && s.writes + s.deletes > 0;
    case 7: return s.states > 2 || s.crash > 0;
    case 8: return s.damage > 0 && s.reads > 0;
    case 9: case 11: case 12: case 14: return s.ops > 2 && s.checks > 0;
    case 10: return s.switches > 0;
    case 13: return faults > 0 && s.writes > 1;
    case 15: return s.oom > 0;
    case 16: return s.writes > 1;
    case 20: return s.edits > 0 && s.checks > 3;
    case 17: return faults > 0 && s.reads > 0;
    }
    return true;
}

static const OpInfo* choose(Rng& r, const std::vector<const OpInfo*>& v) { return v.empty() ? nullptr : v[r.below(v.size())]; }
static int pick_sys(Rng& r, const OpInfo& o) {
    // choose the kind of call first so that rare kinds are hit as often as the many reads and writes
    std::vector<int> kinds;
    for (int t : o.sys_types) if (std::find(kinds.begin(), kinds.end(), t) == kinds.end()) kinds.push_back(t);
    int t = kinds[r.below(kinds.size())];
    std::vector<int> at;
    for (size_t i = 0; i < o.sys_types.size(); i++) if (o.sys_types[i] == t) at.push_back((int) i);
    int k = (int) r.below(4);
    if (k == 0) return at.front();
    if (k == 1) return at.back();
    return at[r.below(at.size())];
}
static void add_fail(Plan& p, Rng& r, const OpInfo& o) {
    Line& l = p.add("fault");
    l.set("op", (long) o.id).set("kind", std::string("fail")).set("at", (long) pick_sys(r, o));
    if (r.chance(1, 3)) l.set("persist", (long) r.range(1, 2));
    if (r.chance(1, 2)) l.set("frac", r.range(0, 1000));
    if (r.chance(1, 4)) { static const int e[] = {EIO, ENOSPC, EINTR, EACCES, EMFILE, EDQUOT}; l.set("err", (long) any(r, e)); }
}

Plan gen_faults(const std::string& prop, const Plan& base, const std::vector<OpInfo>& ops, uint64_t seed, int variant) {
    Plan p = base;
    Rng r(mix64(mix64(seed, 77 + variant), hash_bytes(prop)));
    int num = atoi(prop.c_str() + 1);
    std::vector<const OpInfo*> writers, readers, io, alloc;
    for (auto& o : ops) {
        if (o.id < 0) continue;
        if (o.sysn > 0 && o.writer) writers.push_back(&o);
        if (o.sysn > 0 && !o.writer) readers.push_back(&o);
        if (o.sysn > 0) io.push_back(&o);
        if (o.allocn > 0) alloc.push_back(&o);
    }
    auto heals = [&](int id) { for (auto& l : base.lines) if (l.kind == "op" && l.num("id") == id) return l.num("heal") != 0; return false; };
    switch (num) {
    case 6:
        if (r.chance(1, 6)) { p.knobs()->set("room", r.chance(1, 2) ? r.range(0, 6000) : r.range(0, 100000)); break; }
        if (auto* o = choose(r, writers)) add_fail(p, r, *o);
        if (r.chance(1, 5)) if (auto* o = choose(r, writers)) add_fail(p, r, *o);
        if (r.chance(1, 10)) p.knobs()->set("room", r.range(0, 60000));
        break;
    case 7:
        if (auto* o = choose(r, writers)) {
            Line& l = p.add("fault");
            l.set("op", (long) o->id).set("kind", std::string("crash")).set("at", (long) pick_sys(r, *o)).set("frac", r.chance(1, 2) ? 0L : r.range(1, 999));
        }
        if (r.chance(1, 4)) if (auto* o = choose(r, writers)) {
            Line& l = p.add("fault");
            l.set("op", (long) o->id).set("kind", std::string("crash")).set("at", (long) pick_sys(r, *o));
        }
        break;
    case 13: {
        std::vector<const OpInfo*> v;
        for (auto* o : io) if (!heals(o->id)) v.push_back(o);
        if (r.chance(1, 4)) { for (auto* o : v) { add_fail(p, r, *o); p.lines.back().set("persist", 2L); } }
        else { int n = (int) r.range(1, 3); for (int i = 0; i < n; i++) if (auto* o = choose(r, v)) add_fail(p, r, *o); }
        break;
    }
    case 15: {
        // spread over the operations; often the last allocations of a write, close to the file being touched
        auto* o = r.chance(1, 2) && !writers.empty() ? choose(r, writers) : choose(r, alloc);
        if (o && o->allocn > 0) {
            int at = (int) r.below(o->allocn);
            if (r.chance(1, 4)) at = o->allocn - 1 - (int) r.below(std::min(o->allocn, 3));
            p.add("fault").set("op", (long) o->id).set("kind", std::string("oom")).set("at", (long) at).set("persist", (long) r.chance(1, 3));
        }
        break;
    }
    case 17:
        if (auto* o = choose(r, readers)) {
            if (r.chance(1, 2)) add_fail(p, r, *o);
            else {
                Line& l = p.add("fault");
                l.set("op", (long) o->id).set("kind", std::string("ext")).set("at", (long) r.below(o->sysn)).set("act", (long) r.below(3));
                if (l.num("act") == 1) l.set("len", r.chance(1, 2) ? r.range(0, 100) : r.range(0, 5000));
                if (l.num("act") == 2) {
                    // the replacement is another well-formed tag, or the same file with more or less in it
                    std::vector<RFrame> fr;
                    const Line* f0 = nullptr;
                    for (auto& x : base.lines) { if (x.kind == "file") f0 = &x; if (x.kind == "frame" && r.chance(2, 3)) { RFrame f; f.id = x.bytes("fid"); f.flags = x.bytes("flags"); f.payload = x.bytes("data"); fr.push_back(f); } }
                    if (r.chance(1, 2)) { RFrame f; f.id = "TIT2"; f.flags = Bytes(2, '\0'); f.payload = mk_text("other"); fr.insert(fr.begin(), f); }
                    long total = 0;
                    for (auto& f : fr) total += (long) f.payload.size();
                    if (total > 3000) { fr.clear(); }
                    Bytes b = r.chance(1, 6) ? Bytes("no tag here at all") : ref_build(f0 ? (int) (f0->num("ver") ? f0->num("ver") : 3) : 3, 0, 0, "", fr, r.range(0, 200)) + Bytes(40, 'A');
                    l.set("data", hex_spec(b));
                }
            }
        }
        if (r.chance(1, 6)) if (auto* o = choose(r, readers)) add_fail(p, r, *o);
        break;
    case 10:
        p.knobs()->set("sched", (long) r.below(100000000));
        { static const int means[] = {1, 3, 10, 50, 300, 2000, 10000}; p.knobs()->set("mean", (long) any(r, means)); }
        if (r.chance(1, 4)) if (auto* o = choose(r, io)) add_fail(p, r, *o);
        break;
    default: {
        if (num == 9 && r.chance(1, 4)) {       // whatever else becomes of the call, its files are closed
            auto* o = choose(r, io);
            if (o && o->allocn > 0) p.add("fault").set("op", (long) o->id).set("kind", std::string("oom")).set("at", (long) r.below(o->allocn)).set("persist", (long) r.chance(1, 3));
            break;
        }
        int n = (int) r.range(1, 3);
        for (int i = 0; i < n; i++) {
            auto* o = r.chance(1, 2) && !writers.empty() ? choose(r, writers) : choose(r, io);
            if (o) add_fail(p, r, *o);
        }
        if ((num == 9) && r.chance(1, 6)) p.knobs()->set("room", r.range(0, 20000));
    }
    }
    return p;
}

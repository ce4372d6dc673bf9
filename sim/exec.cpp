// Executes plans against the real library on the simulated environment and judges what happened.
#include "exec.h"
#include <csetjmp>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include "id3v2lib.h"
#include "id3v2lib.compat.h"
}

std::set<std::string> listed_findings;

// ---------------------------------------------------------------- per caller state
struct Slot {
    ID3v2_Tag* tag = nullptr;
    ID3v2_tag* ctag = nullptr;
    Model m;
    bool known = false;        // the model says what the tag holds
    std::vector<Model> alts;   // not known for certain after a failed allocation: one of these
    bool aliased = false;      // some arguments of its edits were parts of tags
    bool dirty = true;         // edited since it was read from / written to origin
    std::string origin;
    uint64_t origin_hash = 0;
    bool live() const { return tag || ctag; }
};
struct Hold { ID3v2_Frame* f; ID3v2_Tag* tag; RFrame content; int size; };      // a frame the caller got from a getter and keeps
struct Caller {
    Ctx ctx;
    Slot slots[4], cslots[4];
    std::vector<Hold> holds;
    uint64_t digest = 7;
    std::vector<const Line*> ops;
};

static RunResult* R;
static std::string active;                     // property being decided ("" all)
static std::vector<Caller*> callers;
static Slot shared_slot;
static std::map<int, std::vector<Fault*>> op_faults;
static std::map<std::string, std::pair<Inode*, uint64_t>> seen_versions;
static bool multi, had_fault, had_crash, had_oom;
static bool judging = true;
static bool oom_tainted;                       // an allocation failed earlier in the life of this process

static void emit(const char* props, const std::string& cls, const std::string& msg) {
    // props: space separated
    if (!judging) return;
    std::string s = props;
    size_t i = 0;
    while (i < s.size()) {
        size_t e = s.find(' ', i);
        if (e == std::string::npos) e = s.size();
        std::string p = s.substr(i, e - i);
        i = e + 1;
        if (p.empty() || (!active.empty() && p != active)) continue;
        R->viol.push_back({p, cls, msg});
        logev("VIOLATION %s %s %s", p.c_str(), cls.c_str(), msg.c_str());
    }
}
// properties that also demand normal behaviour after an earlier disturbance
static std::string with_context(std::string base, bool compat) {
    if (compat) base += " C14";
    if (had_fault) base += " C13";
    if (had_crash) base += " C07";
    return base;
}

static int name_style;                         // how the files are called
static std::string path_of(long f) {
    std::string n = std::to_string(f);
    switch (name_style) {
    case 1: return n;
    case 2: return "music/" + std::string(200, 'd') + "/" + std::string(247, 'n') + n + ".mp3";
    case 3: { std::string s; for (int i = 0; i < 14; i++) s += "a rather long directory name with more than the usual number of characters, so that no buffer of an arbitrary size is enough for all of it " + std::to_string(i) + "/"; return s + n + ".mp3"; }
    case 4: return "my music/100%s %n%d%%" + n + " #1.mp3";
    case 5: return "../M\xC3\xBCsik/\xFC\xE9\xFF" + n + ".MP3";
    case 6: return "/mnt/.hidden" + n;
    case 7: case 8: {                       // neighbours whose names differ by a suffix
        static const char* a[] = {"music/a.mp3", "music/a.mp3.tmp", "music/a.mp3~", "music/a.mp3.bak", "music/a.tmp"};
        static const char* b[] = {"song.mp3", "song.mp3.new", "song", "song.bak", "song.mp3.mp3"};
        return f < 5 ? (name_style == 7 ? a : b)[f] : "music/a" + n;
    }
    case 9: return "a.b/c.d.e/f" + n;
    case 10: return "music/f" + n + " ";
    }
    return "music/f" + n + ".mp3";
}
static bool file_get(const std::string& p, Bytes& out) { auto it = disk.names.find(p); if (it == disk.names.end()) { out.clear(); return false; } out = it->second->data; return true; }

// ---------------------------------------------------------------- strings handed to the library live in exactly sized blocks
static bool ro_args;                           // arguments live in pages that cannot be written
struct Arg {
    char* p;
    Bytes was;
    void* map = nullptr;
    size_t len = 0;
    explicit Arg(const Bytes& b) : was(b) {
        if (ro_args && b.size()) {
            size_t pg = 4096;
            len = (b.size() + pg - 1) / pg * pg;
            map = mmap(nullptr, len + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (map == MAP_FAILED) { map = nullptr; len = 0; }
            else {
                p = (char*) map + len - b.size();
                memcpy(p, b.data(), b.size());
                mprotect(map, len, PROT_READ);
                mprotect((char*) map + len, pg, PROT_NONE);
                return;
            }
        }
        p = (char*) malloc(b.size() ? b.size() : 1); memcpy(p, b.data(), b.size());
    }
    ~Arg() {
        if (map) { munmap(map, len + 4096); return; }
        if (was.size() && memcmp(p, was.data(), was.size()) != 0) emit("C20", "input-changed", "an argument of " + std::to_string(was.size()) + " bytes was modified by the library");
        free(p);
    }
    Arg(const Arg&) = delete;
};
static Bytes clean(const Bytes& b) {           // a string the API accepts: no terminator inside
    if (has_bom(b)) {
        Bytes r = b.substr(0, b.size() & ~(size_t) 1);
        for (size_t i = 0; i + 1 < r.size(); i += 2) if (!r[i] && !r[i + 1]) return r.substr(0, i);
        return r;
    }
    size_t z = b.find('\0');
    Bytes r = z == Bytes::npos ? b : b.substr(0, z);
    return r;
}
static Bytes term(const Bytes& b) { return b + (has_bom(b) ? Bytes(2, '\0') : Bytes(1, '\0')); }
static Bytes fixed(const Bytes& b, size_t n, char fill) { Bytes r = b.substr(0, n); r.append(n - r.size(), fill); return r; }

// ---------------------------------------------------------------- calling the library
struct Op {
    Caller& c;
    const Line& l;
    int id;
    std::string name, path;
    bool died = false;
    size_t allocs_before = 0;
    Bytes before;
    bool existed = false;
};
static thread_local sigjmp_buf jb;
static thread_local volatile bool armed = false;
static void on_signal(int sig) {
    if (armed && ctx && (ctx->oom_fired || oom_tainted)) siglongjmp(jb, 1);

    static char buf[160];
    int n = snprintf(buf, sizeof buf, "the library crashed with signal %d", sig);
    (void) n;
    die("signal", buf);
}
static void on_die() { if (armed && ctx && (ctx->oom_fired || oom_tainted)) siglongjmp(jb, 1); }
void (*finish_hook)(const RunResult&) = nullptr;
static thread_local Op* cur_op = nullptr;
static void judge_oom_death(Op& o);
extern "C" void __asan_set_death_callback(void (*)(void));
// ASan is about to end the process. After a failed allocation that is one way for the program not to survive: judge the disk.
static void on_asan_death() {
    if (!(armed && ctx && (ctx->oom_fired || oom_tainted)) || !finish_hook || !cur_op) return;
    ctx->inlib = false;
    judge_oom_death(*cur_op);
    finish_hook(*R);
    _exit(0);
}
static void install_handlers() {
    static bool done = false;
    if (done) return;
    done = true;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    die_hook = on_die;
    __asan_set_death_callback(on_asan_death);
}

static void steps_limit(const Op& o) {
    // generous linear bound in the bytes involved plus the quadratic cost of appending to a singly linked list
    uint64_t bytes = o.before.size() + 4096;
    for (auto* s : {o.c.slots, o.c.cslots}) for (int i = 0; i < 4; i++) if (s[i].live()) for (auto& f : s[i].m.frames) bytes += f.payload.size() + 16;
    for (auto& kv : disk.names) bytes = std::max<uint64_t>(bytes, kv.second->data.size() + 4096);
    for (const char* k : {"text", "desc", "data", "mime"}) if (o.l.has(k)) bytes += o.l.bytes(k).size();
    uint64_t n = std::min<uint64_t>(bytes / 10, 10000);
    step_budget = 300000 + bytes * 300 + std::min<uint64_t>(n * n * 4, 400000000ull);
    if (multi) step_budget = std::max<uint64_t>(step_budget, 20000000);
}
template <class F> static void lib(Op& o, F f, const std::string& watch = "", bool trace = false) {
    static const std::vector<Fault*> none;
    auto it = op_faults.find(o.id);
    ctx = &o.c.ctx;
    o.allocs_before = alloc_outstanding();
    steps_limit(o);
    begin_op(&o.c.ctx, o.id, it == op_faults.end() ? none : it->second, watch, trace);
    cur_op = &o;
    if (sigsetjmp(jb, 1) == 0) { armed = true; f(); armed = false; }
    else { armed = false; o.died = true; logev("process died (out of memory)"); }
    cur_op = nullptr;
    end_op(&o.c.ctx);
    Ctx& c = o.c.ctx;
    R->st.steps += c.steps; R->st.syscalls += c.sysn; R->st.ops++;
    OpInfo i;
    i.id = o.id; i.thr = c.id; i.name = o.name; i.ran = true; i.sys_types = c.sys_types; i.sysn = c.sysn; i.allocn = c.allocn; i.steps = c.steps;
    for (auto& e : c.events) { i.sys_watched.push_back(e.on_watched); i.sys_after.push_back(e.after_trunc); }
    i.writer = o.name == "write" || o.name == "delete" || o.name == "cwrite" || o.name == "cremove";
    i.faultable = i.writer || o.name == "read" || o.name == "cload" || o.name == "header" || o.name == "csetcoverf";
    R->ops.push_back(i);
    if (c.any_fault) { had_fault = true; }
    if (c.oom_fired) had_oom = oom_tainted = true;
}

// ---------------------------------------------------------------- looking at tags through the public API
static size_t zlen(const char* s) {            // bytes including the terminator, by byte order mark
    bool bom = (unsigned char) s[0] == 0xFF ? (unsigned char) s[1] == 0xFE : (unsigned char) s[0] == 0xFE && (unsigned char) s[1] == 0xFF;
    size_t n = 0;
    if (bom) { while (s[n] || s[n + 1]) n += 2; return n + 2; }
    while (s[n]) n++;
    return n + 1;
}
static Bytes payload_of(ID3v2_Frame* f) {
    std::string id(f->header->id, 4);
    Bytes r;
    if (id[0] == 'T') {
        auto* d = ((ID3v2_TextFrame*) f)->data;
        r += d->encoding; r.append(d->text, d->size);
        zlen(d->text);                          // must be terminated in memory
    } else if (id == "COMM") {
        auto* d = ((ID3v2_CommentFrame*) f)->data;
        r += d->encoding; r.append(d->language, 3); r.append(d->short_description, zlen(d->short_description)); r.append(d->comment, d->size);
        zlen(d->comment);
    } else if (id == "APIC") {
        auto* d = ((ID3v2_ApicFrame*) f)->data;
        r += d->encoding; r.append(d->mime_type, zlen(d->mime_type)); r += d->picture_type;
        r.append(d->description, zlen(d->description)); r.append(d->data, d->picture_size);
    } else r.append((const char*) f->data, f->header->size);
    return r;
}
static RFrame frame_of(ID3v2_Frame* f) {
    RFrame r;
    r.id.assign(f->header->id, 4); r.flags.assign(f->header->flags, 2); r.payload = payload_of(f);
    r.mem = r.id[0] == 'T' || r.id == "COMM" || r.id == "APIC";
    return r;
}
static uint64_t digest_tag(ID3v2_Tag* t) {
    if (!t) return 11;
    if (oom_tainted) return 12;      // may be half built
    uint64_t h = mix64(t->header->tag_size, t->padding_size);
    h = mix64(h, (unsigned char) t->header->major_version * 65536 + (unsigned char) t->header->minor_version * 256 + (unsigned char) t->header->flags);
    for (ID3v2_FrameList* l = t->frames; l && l->frame; l = l->next) {
        RFrame f = frame_of(l->frame);
        h = mix64(h, l->frame->header->size);
        h = hash_bytes(f.id + f.flags, h); h = hash_bytes(f.payload, h);
    }
    return h;
}
static uint64_t digest_ctag(ID3v2_tag* t) {
    if (!t) return 13;
    if (oom_tainted) return 14;
    uint64_t h = mix64(digest_tag(t->tag), 3);
    for (ID3v2_frame_list* l = t->frames; l && l->frame; l = l->next) {
        h = hash_bytes(l->frame->frame_id, 4, h); h = hash_bytes(l->frame->flags, 2, h);
        h = mix64(h, l->frame->size); h = hash_bytes(l->frame->data, l->frame->size, h);
    }
    return h;
}
typedef ID3v2_Frame* (*NamedGet)(ID3v2_Tag*);
typedef void (*NamedSet)(ID3v2_Tag*, const char*);
typedef void (*NamedDel)(ID3v2_Tag*);
typedef ID3v2_frame* (*CGet)(ID3v2_tag*);
typedef void (*CSet)(char*, char, ID3v2_tag*);
struct Named { const char* name; const char* id; NamedGet get; NamedSet set; NamedDel del; CGet cget; CSet cset; };
static const Named named[] = {
    {"title", "TIT2", (NamedGet) ID3v2_Tag_get_title_frame, ID3v2_Tag_set_title, ID3v2_Tag_delete_title, tag_get_title, tag_set_title},
    {"artist", "TPE1", (NamedGet) ID3v2_Tag_get_artist_frame, ID3v2_Tag_set_artist, ID3v2_Tag_delete_artist, tag_get_artist, tag_set_artist},
    {"album", "TALB", (NamedGet) ID3v2_Tag_get_album_frame, ID3v2_Tag_set_album, ID3v2_Tag_delete_album, tag_get_album, tag_set_album},
    {"albumartist", "TPE2", (NamedGet) ID3v2_Tag_get_album_artist_frame, ID3v2_Tag_set_album_artist, ID3v2_Tag_delete_album_artist, tag_get_album_artist, tag_set_album_artist},
    {"genre", "TCON", (NamedGet) ID3v2_Tag_get_genre_frame, ID3v2_Tag_set_genre, ID3v2_Tag_delete_genre, tag_get_genre, tag_set_genre},
    {"track", "TRCK", (NamedGet) ID3v2_Tag_get_track_frame, ID3v2_Tag_set_track, ID3v2_Tag_delete_track, tag_get_track, tag_set_track},
    {"year", "TYER", (NamedGet) ID3v2_Tag_get_year_frame, ID3v2_Tag_set_year, ID3v2_Tag_delete_year, tag_get_year, tag_set_year},
    {"disc", "TPOS", (NamedGet) ID3v2_Tag_get_disc_number_frame, ID3v2_Tag_set_disc_number, ID3v2_Tag_delete_disc_number, tag_get_disc_number, tag_set_disc_number},
    {"composer", "TCOM", (NamedGet) ID3v2_Tag_get_composer_frame, ID3v2_Tag_set_composer, ID3v2_Tag_delete_composer, tag_get_composer, tag_set_composer},
    {"comment", "COMM", (NamedGet) ID3v2_Tag_get_comment_frame, nullptr, ID3v2_Tag_delete_comment, tag_get_comment, tag_set_comment},
    {"cover", "APIC", (NamedGet) ID3v2_Tag_get_album_cover_frame, nullptr, ID3v2_Tag_delete_album_cover, tag_get_album_cover, nullptr},
};
static const Named* by_name(const std::string& n) { for (auto& x : named) if (n == x.name) return &x; return nullptr; }

static std::string brief(const RFrame& f) {
    std::string s = f.id + " flags ";
    char t[16];
    for (char c : f.flags) { snprintf(t, sizeof t, "%02x", (unsigned char) c); s += t; }
    s += " [" + std::to_string(f.payload.size()) + "]";
    for (size_t i = 0; i < f.payload.size() && i < 24; i++) { snprintf(t, sizeof t, "%02x", (unsigned char) f.payload[i]); s += t; }
    return s;
}

// What the getters return against the model. Calls the library; returns "" or a description.
static std::string compare_getters(ID3v2_Tag* tag, const Model& m) {
    std::set<std::string> ids = {"TIT2", "COMM", "APIC", "PRIV"};
    for (auto& f : m.frames) ids.insert(f.id);
    std::string bad;
    for (auto& id : ids) {
        Arg idarg(id + Bytes(1, '\0'));
        std::vector<const RFrame*> want;
        for (auto& f : m.frames) if (f.id == id) want.push_back(&f);
        ID3v2_Frame* first = ID3v2_Tag_get_frame(tag, idarg.p);
        if (!first != want.empty()) { bad = "get_frame(" + id + ") " + (first ? "found a frame that should not be there" : "found nothing"); break; }
        ID3v2_FrameList* l = id == "COMM" ? ID3v2_Tag_get_comment_frames(tag) : id == "APIC" ? ID3v2_Tag_get_apic_frames(tag) : ID3v2_Tag_get_frames(tag, idarg.p);
        size_t n = 0;
        for (ID3v2_FrameList* k = l; k && k->frame && bad.empty(); k = k->next, n++) {
            if (n >= want.size()) { bad = "get_frames(" + id + ") returned too many frames"; break; }
            RFrame got = frame_of(k->frame);
            if (n == 0 && k->frame != first) { bad = "get_frame(" + id + ") is not the first of get_frames"; break; }
            bool blob = !want[n]->api && want[n]->flags[1];
            if (!blob && (long) got.payload.size() != k->frame->header->size) { bad = "size of frame " + id + " is " + std::to_string(k->frame->header->size) + " but its content has " + std::to_string(got.payload.size()) + " bytes"; break; }
            if (!frame_same(got, *want[n])) { bad = "frame " + id + "#" + std::to_string(n) + " is " + brief(got) + ", expected " + brief(*want[n]); break; }
        }
        ID3v2_FrameList_unlink(l);
        if (bad.empty() && n != want.size()) bad = "get_frames(" + id + ") returned " + std::to_string(n) + " frames, expected " + std::to_string(want.size());
        if (!bad.empty()) break;
    }
    for (auto& nm : named) {
        if (!bad.empty()) break;
        ID3v2_Frame* f = nm.get(tag);
        int i = m.find(nm.id);
        if (!f != (i < 0)) bad = std::string("getter of ") + nm.name + (f ? " found a frame that should not be there" : " found nothing");
        else if (f) { RFrame got = frame_of(f); if (!frame_same(got, m.frames[i])) bad = std::string("getter of ") + nm.name + " returned " + brief(got) + ", expected " + brief(m.frames[i]); }
    }
    return bad;
}
static std::string compare_compat(ID3v2_tag* tag, const Model& m) {
    for (auto& nm : named) {
        ID3v2_frame* f = nm.cget(tag);
        int i = m.find(nm.id);
        if (!f != (i < 0)) return std::string("compat getter of ") + nm.name + (f ? " found a frame that should not be there" : " found nothing");
        if (!f) {
            if (parse_text_frame_content(nullptr) || parse_comment_frame_content(nullptr) || parse_apic_frame_content(nullptr)) return "content of a missing frame";
            continue;
        }
        const RFrame& w = m.frames[i];
        RFrame got;
        got.id.assign(f->frame_id, 4); got.flags.assign(f->flags, 2); got.payload.assign(f->data, f->size);
        if (!frame_same(got, w)) return std::string("compat getter of ") + nm.name + " returned " + brief(got) + ", expected " + brief(w);
        RFrame c = got;
        c.payload.clear(); c.mem = true;
        if (std::string(nm.id) == "COMM") {
            ID3v2_frame_comment_content* k = parse_comment_frame_content(f);
            c.payload += k->text->encoding; c.payload.append(k->language, 3); c.payload.append(k->short_description, zlen(k->short_description)); c.payload.append(k->text->data, k->text->size);
            sim_free(k->text); sim_free(k);
        } else if (std::string(nm.id) == "APIC") {
            ID3v2_frame_apic_content* k = parse_apic_frame_content(f);
            c.payload += k->encoding; c.payload.append(k->mime_type, zlen(k->mime_type)); c.payload += k->picture_type;
            c.payload.append(k->description, zlen(k->description)); c.payload.append(k->data, k->picture_size);
            sim_free(k);
        } else {
            ID3v2_frame_text_content* k = parse_text_frame_content(f);
            c.payload += k->encoding; c.payload.append(k->data, k->size);
            sim_free(k->data); sim_free(k);
        }
        if (!frame_same(c, w)) return std::string("parsed content of ") + nm.name + " is " + brief(c) + ", expected " + brief(w);
    }
    return "";
}

// ---------------------------------------------------------------- judging a written file
struct Verdict {
    std::string audio, form, frames, untouched, padding, version;   // "" fine
    bool complete() const { return audio.empty() && form.empty() && frames.empty() && version.empty(); }
    std::string first() const { return !audio.empty() ? audio : !form.empty() ? form : !version.empty() ? version : frames; }
    long pad = 0;
};
static Verdict judge_image(const Bytes& after, const Bytes& before, const Slot& s) {
    Verdict v;
    Bytes audio = ref_audio(before);
    RTag t = ref_parse(after);
    if (!t.present) { v.audio = v.form = "the file does not start with a v2.3/v2.4 tag"; v.frames = v.form; return v; }
    Bytes got = after.substr(t.end);
    if (got != audio) {
        size_t i = 0;
        while (i < got.size() && i < audio.size() && got[i] == audio[i]) i++;
        v.audio = "after the tag there are " + std::to_string(got.size()) + " bytes instead of the " + std::to_string(audio.size()) + " bytes of audio, first difference at " + std::to_string(i);
    }
    if (!s.known) return v;
    if (!t.strict) v.form = "tag is not well formed: " + t.why;
    if (t.ver != s.m.ver || t.rev != s.m.rev) v.version = "version " + std::to_string(t.ver) + "." + std::to_string(t.rev) + " instead of " + std::to_string(s.m.ver) + "." + std::to_string(s.m.rev);
    if (t.flags != (s.m.flags & ~0xD0)) v.version = "header flags " + std::to_string(t.flags) + " instead of " + std::to_string(s.m.flags & ~0xD0);
    if (v.version.size() && v.form.empty()) v.form = v.version;
    for (size_t i = 0; v.form.empty() && i < t.frames.size() && t.frames.size() == s.m.frames.size(); i++)
        if (s.m.frames[i].api && t.frames[i].id == s.m.frames[i].id && !plain_strings(t.frames[i])) v.form = "the strings of frame " + brief(t.frames[i]) + " are not in the encoding it announces";
    v.pad = t.pad;
    if (t.frames.size() != s.m.frames.size()) v.frames = "the file holds " + std::to_string(t.frames.size()) + " frames instead of " + std::to_string(s.m.frames.size());
    else for (size_t i = 0; i < t.frames.size(); i++)
        if (!frame_same(t.frames[i], s.m.frames[i])) { v.frames = "frame " + std::to_string(i) + " of the file is " + brief(t.frames[i]) + ", expected " + brief(s.m.frames[i]); break; }
    if (!v.frames.empty()) {
        size_t k = 0;
        for (auto& w : s.m.frames) {
            if (w.api) continue;
            while (k < t.frames.size() && !frame_same(t.frames[k], w)) k++;
            if (k >= t.frames.size()) { v.untouched = "untouched frame " + brief(w) + " is gone or changed"; break; }
            k++;
        }
    }
    long limit = std::max<long>(2048, s.m.pad);
    if (t.pad < 2048) v.padding = "only " + std::to_string(t.pad) + " bytes of padding";
    else if (t.pad > limit) v.padding = "padding grew to " + std::to_string(t.pad) + " bytes (at most " + std::to_string(limit) + " expected)";
    return v;
}

// ---------------------------------------------------------------- checks common to all operations
static void snapshot_versions() { seen_versions.clear(); for (auto& kv : disk.names) seen_versions[kv.first] = {kv.second.get(), kv.second->version}; }
static Names pre_names;
static void before_op(Op& o) {
    o.existed = file_get(o.path, o.before);
    if (!multi) { pre_names = disk.names; snapshot_versions(); }
}
static std::map<std::string, Bytes> pre_other;
static void after_op_common(Op& o, bool reader) {
    Ctx& c = o.c.ctx;
    // C09: every file closed
    int open = 0;
    for (auto& h : disk.handles) if (h->open && h->thr == c.id) open++;
    if (open && !o.died) emit("C09", "handle-leak", o.name + " left " + std::to_string(open) + " file(s) open");
    if (open) {   // do not let one leak colour everything after
        for (auto& h : disk.handles) if (h->open && h->thr == c.id) { h->dead = true; if (h->fp) fclose(h->fp); h->open = false; }
    }
    disk.gc();
    // a file the operation made and was kept from removing is not its fault
    for (auto& e : c.events)
        if (e.faulted && e.type == SYS_META && std::find(c.created.begin(), c.created.end(), e.path) != c.created.end()) disk.names.erase(e.path);
    if (multi) return;
    // C11: nothing but the named file may change
    for (auto& kv : disk.names) {
        auto it = seen_versions.find(kv.first);
        if (it == seen_versions.end()) { emit("C11 C09", "extra-file", o.name + " left an additional file " + kv.first); continue; }
        bool target = kv.first == o.path;
        if (target && (!reader || c.any_fault)) continue;
        if (kv.second.get() != it->second.first || kv.second->version != it->second.second) {
            Bytes old;
            bool same = pre_other.count(kv.first) && pre_other[kv.first] == kv.second->data;
            if (!same) emit(reader ? "C11" : "C11 C02", "other-file", o.name + " of " + o.path + " changed " + kv.first);
        }
    }
    for (auto& kv : seen_versions)
        if (!disk.names.count(kv.first) && !(kv.first == o.path && (!reader || c.any_fault))) emit("C11", "file-gone", o.name + " removed " + kv.first);
    // files left by the operation would disturb later judgements
    for (auto it = disk.names.begin(); it != disk.names.end();) { if (!seen_versions.count(it->first)) it = disk.names.erase(it); else ++it; }
}
static void remember_others(const Op& o, bool reader) {
    if (multi) return;
    pre_other.clear();
    for (auto& kv : disk.names) if (reader || kv.first != o.path) pre_other[kv.first] = kv.second->data;
}
static void check_allocs(Op& o, const char* what) {
    if (multi || o.died) return;
    size_t now = alloc_outstanding();
    if (now > o.allocs_before) emit("C09", "memory-leak", o.name + " " + what + " leaked " + std::to_string(now - o.allocs_before) + " block(s)");
    if (now < o.allocs_before) emit("C09", "memory-lost", o.name + " freed memory it does not own");
}
static void process_death(Op& o) {
    R->st.deaths++;
    disk.kill_handles();
    for (auto* cl : callers) { for (auto& s : cl->slots) s = Slot(); for (auto& s : cl->cslots) s = Slot(); }
    shared_slot = Slot();
    alloc_release_all();
    oom_tainted = false;
    (void) o;
}

// The finding recorded in known_findings: the copy back over the truncated original is not atomic.
static bool excused_by(const char* id, Op& o) {
    if (!listed_findings.count(id)) return false;
    R->known.insert(id);
    R->st.known++;
    (void) o;
    return true;
}
// what a copy back that lost some of its writes can leave: the new content with pieces missing, nothing else
static bool pieces_of(const Bytes& part, const Bytes& whole) {
    size_t i = 0;
    for (size_t k = 0; k < whole.size() && i < part.size(); k++) if (whole[k] == part[i]) i++;
    return i == part.size();
}
// complete new content among the temporary files at the moment the original was truncated
static bool temp_complete(Op& o, const Slot* s, Bytes* out) {
    for (auto& t : o.c.ctx.temps_at_trunc) {
        bool ok = s ? judge_image(t, o.before, *s).complete() : t == ref_audio(o.before);
        if (ok) { if (out) *out = t; return true; }
    }
    return false;
}

// write and delete: s == nullptr for delete
static void judge_writer(Op& o, Slot* s, bool compat) {
    Ctx& c = o.c.ctx;
    Bytes after;
    bool exists = file_get(o.path, after);
    RTag bt = ref_parse(o.before);
    bool ro = o.existed && disk.names.count(o.path) && disk.names[o.path]->ro;
    R->st.checks++;
    bool noop = !o.existed || (!s && !bt.present);
    std::string ctxp = with_context("", compat);

    if (noop) {
        bool same = exists == o.existed && after == o.before;
        if (!same) {
            std::string p = s ? "C06" : "C06 C02";
            if (c.oom_fired || oom_tainted) p += " C15";
            emit((p + ctxp).c_str(), "noop-changed", !o.existed ? "a missing file was created" : "a file without a tag was changed by deleting the tag");
        }
        if (o.died && !c.oom_fired && !oom_tainted) emit("C06", "died", "process died");
    } else {
        Verdict v;
        bool complete;
        std::string why;
        if (s) { v = judge_image(after, o.before, *s); complete = exists && v.complete(); why = v.first(); }
        if (s && !s->known && !s->alts.empty()) {
            bool any = false;
            Slot k;
            k.known = true;
            for (auto& m : s->alts) { k.m = m; Verdict w = judge_image(after, o.before, k); if (w.complete()) { any = true; break; } why = w.first(); }
            complete = exists && any;
        }
        if (!s) {
            complete = exists && after == ref_audio(o.before);
            if (!complete) why = "after deleting the tag the file has " + std::to_string(after.size()) + " bytes instead of the " + std::to_string(ref_audio(o.before).size()) + " bytes of audio";
        }
        bool old = exists && after == o.before;
        if (!c.any_fault && !o.died && !ro) {
            if (s) {
                if (!v.audio.empty()) emit(("C01" + ctxp + (oom_tainted ? " C15" : "")).c_str(), "audio", v.audio);
                if (!v.form.empty()) emit(("C05" + ctxp).c_str(), "form", v.form);
                if (!v.frames.empty()) emit(("C03" + ctxp).c_str(), "frames", v.frames);
                if (!v.untouched.empty()) emit(("C04" + std::string(compat ? " C14" : "")).c_str(), "untouched", v.untouched);
                if (!v.padding.empty()) emit(had_fault ? "C16 C13" : "C16", "padding", v.padding);
                if (s->known && !s->dirty && s->origin == o.path && hash_bytes(o.before) == s->origin_hash && !old)
                    emit("C16", "drift", "writing an unmodified tag again changed the file (" + std::to_string(o.before.size()) + " to " + std::to_string(after.size()) + " bytes)");
            } else if (!complete) emit(("C02" + ctxp).c_str(), "delete", why);
            if (oom_tainted && !complete && !old && (!s || s->known || !s->alts.empty())) emit("C15", "oom-damage", "after an allocation had failed, a later call stored neither the old nor the complete new content: " + why);
        } else if (!complete && !old) {
            // old or new, nothing else
            const char* what = o.died ? "process died" : "call failed";
            Bytes t;
            bool in_window = false;
            if (exists && c.watch_trunc && temp_complete(o, s, &t) && !c.oom_fired && pieces_of(after, t))
                for (auto& e : c.events)
                    if (e.faulted && e.after_trunc && (e.on_watched || ((e.path.empty() || (!multi && !pre_names.count(e.path))) && (e.type == SYS_READ || e.type == SYS_SEEK)))) in_window = true;
            if (c.oom_fired || oom_tainted) emit("C15", "oom-damage", std::string(what) + " for lack of memory and left the file damaged: " + (exists ? why : "file gone"));
            if (!c.oom_fired && !oom_tainted) {
                if (in_window && excused_by("F1", o)) {}
                else emit("C06", "io-damage", std::string("after an I/O failure the file is neither its old nor its new self: ") + (exists ? why : "file gone"));
            }
        }
        if (s && complete && !c.any_fault && !ro) { s->m.pad = v.pad; }
    }
    // C07: every state the file went through
    if (c.record_trace && !c.oom_fired) {
        R->st.states += c.trace.size();
        uint64_t ho = hash_bytes(o.before);
        Bytes t;
        bool tc = c.watch_trunc && temp_complete(o, s, &t);
        Bytes final = after;
        for (auto& st : c.trace) {
            if (st.absent ? !o.existed : (o.existed && st.hash == ho && st.len == (long) o.before.size())) continue;
            if (!st.absent && !c.any_fault && st.len == (long) final.size() && st.hash == hash_bytes(final)) continue;
            if (!st.absent && tc && st.len == (long) t.size() && st.hash == hash_bytes(t)) continue;
            bool prefix = !st.absent && tc && st.in_window && st.len <= (long) t.size() && hash_bytes(t.data(), st.len) == st.hash;
            if (prefix && excused_by("F2", o)) continue;
            if (!st.absent && c.any_fault && tc && st.in_window && st.len <= (long) t.size() && listed_findings.count("F2")) continue;   // a failing copy back, judged above
            emit("C07", "crash-state", std::string("a crash during ") + o.name + " would leave a file of " + std::to_string(st.len) + " bytes" + (st.absent ? " (absent)" : "") + " that is neither the old nor the new one");
            break;
        }
    }
    if (o.died) return;
    if (c.crashed) return;
    if (s) {
        if (noop || c.any_fault) { /* tag object stays as it is */ }
        bool complete_now = exists && !noop && !c.any_fault && judge_image(after, o.before, *s).complete();
        if (complete_now && !ro) { s->dirty = false; s->origin = o.path; s->origin_hash = hash_bytes(after); if (s->known) s->m.pad = std::max<long>(0, ref_parse(after).pad); }
        else s->dirty = true;
        if (c.any_fault && s->known) s->m.pad = std::max<long>(s->m.pad, 2048);
    }
}

static void judge_oom_death(Op& o) {
    Bytes after;
    bool exists = file_get(o.path, after);
    R->st.deaths++;
    if (o.path.empty() || (exists == o.existed && after == o.before)) return;
    emit("C15", "oom-damage", "the process died for lack of memory and left the file damaged");
}

// reader result against the versions of the file that existed
static std::string leading_frames(const std::vector<RFrame>& got, int ver, const std::vector<Bytes>& versions) {
    for (auto& b : versions) {
        RTag t = ref_parse(b);
        if (!t.present || t.ver != ver) continue;
        if (got.size() > t.frames.size()) continue;
        bool ok = true;
        for (size_t i = 0; i < got.size() && ok; i++) ok = frame_same(got[i], t.frames[i]);
        if (ok) return "";
    }
    return "the " + std::to_string(got.size()) + " frames returned are not leading frames of any version of the file";
}
static std::vector<RFrame> walk(ID3v2_Tag* t) { std::vector<RFrame> r; for (auto* l = t->frames; l && l->frame; l = l->next) r.push_back(frame_of(l->frame)); return r; }

static void adopt(Slot& s, const Bytes& content, const std::string& origin) {
    RTag t = ref_parse(content);
    s.known = t.present && t.strict;
    s.m = Model();
    s.dirty = true;
    if (s.known) {
        s.m.ver = t.ver; s.m.rev = t.rev; s.m.flags = t.flags; s.m.frames = t.frames; s.m.pad = t.pad + t.ext + t.synced;
        bool terminated = true;
        for (auto& f : t.frames) {
            if (f.enc) continue;
            if (f.id[0] == 'T' && !has_term(f.payload, 1)) terminated = false;
            if (f.id == "COMM") { long e = str_end(f.payload, 4); if (e < 0 || !has_term(f.payload, e)) terminated = false; }
        }
        if (terminated && t.ext == 0 && t.pad >= 2048 && !(t.flags & 0xD0)) { s.dirty = false; s.origin = origin; s.origin_hash = hash_bytes(content); }
    }
}
// after a read that ran out of memory: nothing is certain, but what is returned claims to be the whole tag
static void hedge(Slot& d, bool whole) {
    d.alts.clear();
    if (d.known && d.live() && whole) d.alts = {d.m};
    d.known = false; d.dirty = true;
}
static std::string header_differs(const char* who, int ver, int rev, int flags, long size, const RTag& t, bool size_too) {
    if ((ver & 0xFF) != t.ver || (rev & 0xFF) != t.rev || (flags & 0xFF) != t.flags) return std::string(who) + " reports version/flags " + std::to_string(ver & 0xFF) + "." + std::to_string(rev & 0xFF) + "/" + std::to_string(flags & 0xFF);
    if (size_too && size != t.size) return std::string(who) + " reports size " + std::to_string(size) + " instead of " + std::to_string(t.size);
    return "";
}
static bool size_certain(const RTag& t) {      // terminators the library may add fit in the padding
    return t.strict && t.pad + t.ext + t.synced >= 3 * (long) t.frames.size();
}
// fault-free reader: tag read from content
static void judge_read(Op& o, Slot& s, const Bytes& content, bool from_file, bool compat) {
    Ctx& c = o.c.ctx;
    RTag t = ref_parse(content);
    ID3v2_Tag* tag = compat ? (s.ctag ? s.ctag->tag : nullptr) : s.tag;
    bool ro = from_file && disk.names.count(o.path) && disk.names[o.path]->ro;
    std::string p = with_context(std::string("C12 C03") + (ro ? " C11" : "") + (had_fault ? " C17" : ""), compat);
    R->st.checks++;
    if (c.any_fault || o.died) {
        if (!tag || c.oom_fired) return;
        std::vector<Bytes> versions = {content};
        Bytes now;
        if (from_file && file_get(o.path, now)) versions.push_back(now);
        std::string bad = leading_frames(walk(tag), (unsigned char) tag->header->major_version, versions);
        bool strict = t.strict && (now.empty() || now == content || ref_parse(now).strict || ref_parse(now).why == "tag size exceeds the file");
        if (!bad.empty() && strict) emit("C17", "invented", bad);
        return;
    }
    bool have = compat ? s.ctag != nullptr : s.tag != nullptr;
    if (have != t.present) { emit(p.c_str(), "recognition", have ? "a tag was returned for a file that has none" : "no tag was returned although the file has one"); return; }
    if (compat && have && content.size() >= 10 && !((content[6] | content[7] | content[8] | content[9]) & 0x80)) {
        ID3v2_header* h = s.ctag->tag_header;
        ID3v2_TagHeader* k = tag->header;
        std::string d;
        if (memcmp(h->tag, "ID3", 3) || h->major_version != k->major_version || h->minor_version != k->minor_version || h->flags != k->flags || (unsigned) h->tag_size != k->tag_size || (unsigned) h->extended_header_size != k->extended_header_size)
            d = "the header of the compatibility tag is not that of the tag";
        size_t n = std::min<size_t>(content.size(), t.end - t.foot);
        if (d.empty() && memcmp(s.ctag->raw, content.data(), n) != 0) d = "the raw bytes of the compatibility tag are not those of the tag";
        if (!d.empty()) emit(with_context("C14", false).c_str(), "compat-header", d);
    }
    if (!have || !s.known) return;
    std::string bad = header_differs("the tag", tag->header->major_version, tag->header->minor_version, tag->header->flags, tag->header->tag_size, t, size_certain(t));
    if (bad.empty() && compat) bad = header_differs("the compat header", s.ctag->tag_header->major_version, s.ctag->tag_header->minor_version, s.ctag->tag_header->flags, s.ctag->tag_header->tag_size, t, size_certain(t));
    if (!bad.empty()) { emit(p.c_str(), "header", bad); return; }
    std::vector<RFrame> got = walk(tag);
    if (got.size() != t.frames.size()) { emit((p + " C04").c_str(), "frames-read", "the tag has " + std::to_string(got.size()) + " frames, the file " + std::to_string(t.frames.size())); return; }
    for (size_t i = 0; i < got.size(); i++)
        if (!frame_same(got[i], t.frames[i])) { emit((p + " C04").c_str(), "frames-read", "frame " + std::to_string(i) + " was read as " + brief(got[i]) + ", the file has " + brief(t.frames[i])); return; }
    if (compat) { std::string b = compare_compat(s.ctag, s.m); if (!b.empty()) emit("C14", "compat-read", b); }
}

// An edit: afterwards the tag is what it was with the edit applied; if memory ran out, with or without it.
template <class F> static void apply(Op& o, Slot& s, F f) {
    bool oom = o.c.ctx.oom_fired;
    if (s.known && !oom) { f(s.m); return; }
    std::vector<Model> from = s.known ? std::vector<Model>{s.m} : s.alts, to;
    f(s.m);
    for (auto& m : from) { if (oom) to.push_back(m); to.push_back(m); f(to.back()); }
    s.known = false;
    if (to.size() <= 32) s.alts = to; else s.alts.clear();
}
static void free_slot(Slot& s) {
    if (s.tag) ID3v2_Tag_free(s.tag);
    if (s.ctag) free_tag(s.ctag);
    s = Slot();
}
static void fold(Caller& c, uint64_t v) { c.digest = mix64(c.digest, v); }

// ---------------------------------------------------------------- one operation
// Arguments may be part of a tag: the frame an operation takes its arguments from
static ID3v2_Frame* alias_source(Caller& c, const Line& l, const Bytes& id) {
    if (!l.has("as") || oom_tainted) return nullptr;
    Slot& a = c.slots[l.num("as") & 3];
    if (!a.tag || !a.known) return nullptr;
    for (auto* k = a.tag->frames; k && k->frame; k = k->next) {
        if (std::string(k->frame->header->id, 4) != id) continue;
        if (id[0] == 'T') { auto* d = ((ID3v2_TextFrame*) k->frame)->data; if ((long) zlen(d->text) != d->size) continue; }
        else if (id == "COMM") {
            auto* d = ((ID3v2_CommentFrame*) k->frame)->data;
            Bytes x(d->short_description, zlen(d->short_description)), y(d->comment, d->size);
            if ((long) zlen(d->comment) != d->size || has_bom(x) != has_bom(y)) continue;
        } else if (id == "APIC") { auto* d = ((ID3v2_ApicFrame*) k->frame)->data; if (has_bom(Bytes(d->mime_type, zlen(d->mime_type)))) continue; }
        else continue;
        return k->frame;
    }
    return nullptr;
}
static Bytes to_wide(const Bytes& t) {
    if (has_bom(t)) return t;
    Bytes r("\xFF\xFE", 2);
    for (char x : t) { r += x; r += '\0'; }
    return r;
}
static Bytes unterm(const char* s) { Bytes b(s, zlen(s)); b.resize(b.size() - (has_bom(b) ? 2 : 1)); return b; }

static void run_op(Caller& c, const Line& l);
static void exec_op(Caller& c, const Line& l) {
    if (active != "C20" || multi) { run_op(c, l); return; }
    // C20: no operation on one tag shows in another, and frames the caller holds stay what they are
    std::string n = l.str("name");
    bool compat = n.size() && n[0] == 'c';
    long si = l.num("s") & 3;
    uint64_t was[8];
    void* ptr[8];
    bool named_slot = l.has("s");
    for (int i = 0; i < 4; i++) { was[i] = digest_tag(c.slots[i].tag); ptr[i] = c.slots[i].tag; was[4 + i] = digest_ctag(c.cslots[i].ctag); ptr[4 + i] = c.cslots[i].ctag; }
    ID3v2_Tag* target = !compat && named_slot ? c.slots[si].tag : nullptr;
    if (n == "hold") {
        if (!target || oom_tainted) return;
        std::vector<ID3v2_Frame*> all;
        for (auto* k = target->frames; k && k->frame; k = k->next) all.push_back(k->frame);
        if (all.empty()) return;
        ID3v2_Frame* f = all[l.num("idx") % all.size()];
        c.holds.push_back({f, target, frame_of(f), f->header->size});
        return;
    }
    std::string touched = n == "setn" || n == "deln" ? (by_name(l.str("who")) ? by_name(l.str("who"))->id : "") : n == "sett" || n == "delid" ? std::string(fixed(l.bytes("fid"), 4, 'X'))
                        : n == "setcomm" || n == "setcommf" || n == "delcomm" ? "COMM" : n == "setcover" || n == "setapicf" || n == "delapic" ? "APIC" : "";
    bool renew = n == "read" || n == "readbuf" || n == "new" || n == "newh" || n == "free";
    std::vector<Hold> keep;
    for (auto& h : c.holds) if (h.tag != target || !(renew || h.content.id == touched)) keep.push_back(h);
    c.holds.swap(keep);
    run_op(c, l);
    if (n == "restart" || c.ctx.crashed) c.holds.clear();
    if (oom_tainted) { c.holds.clear(); return; }
    for (int i = 0; i < 4; i++) {
        if (ptr[i] && ptr[i] == c.slots[i].tag && !(named_slot && !compat && i == si) && digest_tag(c.slots[i].tag) != was[i]) emit("C20", "other-tag", n + " changed a tag it was not given");
        if (ptr[4 + i] && ptr[4 + i] == c.cslots[i].ctag && !(named_slot && compat && i == si) && digest_ctag(c.cslots[i].ctag) != was[4 + i]) emit("C20", "other-tag", n + " changed a compatibility tag it was not given");
    }
    for (auto& h : c.holds) {
        RFrame now = frame_of(h.f);
        if (now.id != h.content.id || now.flags != h.content.flags || now.payload != h.content.payload || h.f->header->size != h.size) { emit("C20", "held-frame", n + " changed a frame the caller had got before: " + brief(h.content) + " is now " + brief(now)); break; }
    }
    R->st.checks++;
}
static void run_op(Caller& c, const Line& l) {
    ctx = &c.ctx;
    Op o{c, l, (int) l.num("id"), l.str("name"), l.has("f") ? path_of(l.num("f")) : ""};
    const std::string& n = o.name;
    c.ctx.op = o.id;
    long si = l.num("s");
    Slot& s = si == 9 ? shared_slot : c.slots[si & 3];
    Slot& cs = c.cslots[si & 3];
    logev("op %s %s", n.c_str(), o.path.c_str());
    Bytes idb = fixed(l.bytes("fid"), 4, 'X');
    Bytes flags = fixed(l.bytes("flags"), 2, '\0');
    auto edited = [&](Slot& x) { x.dirty = true; R->st.edits++; };
    bool trace = l.num("trace") != 0;

    if (n == "read" || n == "cload") {
        bool compat = n[0] == 'c';
        Slot& d = compat ? cs : s;
        if (d.live()) lib(o, [&] { free_slot(d); });
        before_op(o);
        remember_others(o, true);
        Arg p(o.path + Bytes(1, '\0'));
        lib(o, [&] { if (compat) d.ctag = load_tag(p.p); else d.tag = ID3v2_read_tag(p.p); }, o.path);
        R->st.reads++;
        if (o.died) d = Slot();
        Bytes now;
        bool stable = file_get(o.path, now) && now == o.before && !c.ctx.any_fault;
        bool io = false;
        for (auto& e : c.ctx.events) if (e.faulted) io = true;
        if (stable || !c.ctx.any_fault || c.ctx.oom_fired) adopt(d, o.before, o.path); else { d.known = false; d.dirty = true; }
        if (c.ctx.oom_fired) hedge(d, !io && now == o.before);
        judge_read(o, d, o.before, true, compat);
        if (!d.live()) { d = Slot(); check_allocs(o, "without result"); }
        fold(c, compat ? digest_ctag(d.ctag) : digest_tag(d.tag));
        after_op_common(o, true);
        if (o.died) process_death(o);
    } else if (n == "readbuf" || n == "cloadbuf") {
        bool compat = n[0] == 'c';
        Slot& d = compat ? cs : s;
        if (d.live()) lib(o, [&] { free_slot(d); });
        before_op(o);
        remember_others(o, true);
        Bytes b = o.before;
        RTag t = ref_parse(b);
        if (l.num("exact") && t.present) b = b.substr(0, t.end);
        if (l.has("len")) b = b.substr(0, std::min<size_t>(b.size(), l.num("len")));
        Arg p(b);
        lib(o, [&] { if (compat) d.ctag = load_tag_with_buffer(p.p, (int) b.size()); else d.tag = ID3v2_read_tag_from_buffer(p.p, (int) b.size()); });
        R->st.reads++;
        if (o.died) d = Slot();
        adopt(d, b, "");
        if (c.ctx.oom_fired) hedge(d, true);
        judge_read(o, d, b, false, compat);
        if (!d.live()) { d = Slot(); check_allocs(o, "without result"); }
        fold(c, compat ? digest_ctag(d.ctag) : digest_tag(d.tag));
        after_op_common(o, true);
        if (o.died) process_death(o);
    } else if (n == "header") {
        before_op(o);
        remember_others(o, true);
        Arg p(o.path + Bytes(1, '\0'));
        ID3v2_TagHeader *h = nullptr, *hb = nullptr;
        Bytes b10 = o.before.substr(0, 10);
        Arg pb(b10);
        bool buf = b10.size() == 10;
        lib(o, [&] { h = ID3v2_read_tag_header(p.p); if (buf) hb = ID3v2_read_tag_header_from_buffer(pb.p); }, o.path);
        RTag t = ref_parse(o.before);
        R->st.checks++;
        if (!o.died && !c.ctx.oom_fired) {
            std::string pp = with_context(std::string("C12") + (disk.names.count(o.path) && disk.names[o.path]->ro ? " C11" : ""), false);
            bool strict_size = o.before.size() >= 10 && !((o.before[6] | o.before[7] | o.before[8] | o.before[9]) & 0x80);
            for (ID3v2_TagHeader* x : {h, hb}) {
                bool file = x == h && !(h == nullptr && x == hb && hb == nullptr && false);
                (void) file;
                if (x) {
                    std::string d = header_differs("the header", x->major_version, x->minor_version, x->flags, x->tag_size, t, strict_size);
                    if (!t.present && !c.ctx.any_fault) d = "a header was returned for a file without a tag";
                    if (t.present && !d.empty()) {
                        if (!c.ctx.any_fault) emit(pp.c_str(), "header", d);
                        else { Bytes now; file_get(o.path, now); RTag t2 = ref_parse(now); if (!t2.present || !header_differs("", x->major_version, x->minor_version, x->flags, x->tag_size, t2, true).empty()) emit("C17", "header", d); }
                    } else if (!d.empty()) emit(pp.c_str(), "header", d);
                    fold(c, mix64(x->tag_size, mix64((unsigned char) x->flags, x->extended_header_size)));
                } else fold(c, 5);
            }
            if (!c.ctx.any_fault && t.present && (!h || !hb)) emit(pp.c_str(), "recognition", "no header was returned although the file has a tag");
        }
        if (!o.died) { Op f{c, l, -1, "free", ""}; lib(f, [&] { if (h) ID3v2_TagHeader_free(h); if (hb) ID3v2_TagHeader_free(hb); }); }
        check_allocs(o, "");
        after_op_common(o, true);
        if (o.died) process_death(o);
    } else if (n == "new" || n == "cnew") {
        bool compat = n[0] == 'c';
        Slot& d = compat ? cs : s;
        if (d.live()) lib(o, [&] { free_slot(d); });
        lib(o, [&] { if (compat) d.ctag = new_tag(); else d.tag = ID3v2_Tag_new_empty(); });
        if (o.died) { process_death(o); return; }
        d.known = true; d.dirty = true; d.m = Model();
        if (c.ctx.oom_fired) { d.known = false; d.alts = {d.m}; }
        if (compat && !c.ctx.oom_fired && !oom_tainted) {
            ID3v2_header* h = d.ctag->tag_header;
            ID3v2_TagHeader* k = d.ctag->tag->header;
            if (memcmp(h->tag, "ID3", 3) || h->major_version != k->major_version || h->minor_version != k->minor_version || h->flags != k->flags || (unsigned) h->tag_size != k->tag_size || (unsigned) h->extended_header_size != k->extended_header_size)
                emit("C14", "compat-header", "the header of a new compatibility tag is not that of the tag");
        }
        fold(c, 17);
    } else if (n == "newh") {                   // an empty tag behind the header of a file
        if (s.live()) lib(o, [&] { free_slot(s); });
        before_op(o);
        remember_others(o, true);
        Arg p(o.path + Bytes(1, '\0'));
        RTag t = ref_parse(o.before);
        long claimed = 0;                       // counts as padding of the new tag
        for (int i = 6; t.present && i < 10; i++) claimed = claimed << 7 | (o.before[i] & 0x7F);
        bool use = claimed < 1 << 20;
        lib(o, [&] { s.tag = ID3v2_Tag_new(use ? ID3v2_read_tag_header(p.p) : nullptr, (int) l.num("pad")); }, o.path);
        if (o.died) { s = Slot(); after_op_common(o, true); process_death(o); return; }
        s.known = true; s.dirty = true; s.m = Model();
        if (c.ctx.any_fault) { s.known = false; s.alts = {s.m}; }
        else if (t.present && use && (t.flags & ~(t.ver == 4 ? 0xF0 : 0xE0))) s.known = false;      // flags that mean nothing
        else if (t.present && use) { s.m.ver = t.ver; s.m.rev = t.rev; s.m.flags = t.flags; s.m.pad = (long) s.tag->header->tag_size + 2048; }
        after_op_common(o, true);
        fold(c, digest_tag(s.tag));
    } else if (n == "free" || n == "cfree") {
        Slot& d = n[0] == 'c' ? cs : s;
        if (d.live() && si != 9) lib(o, [&] { free_slot(d); });
    } else if (n == "restart") {
        if (multi) return;
        R->st.sessions++;
        process_death(o);
        R->st.deaths--;
    } else if (n == "sett" || n == "setn") {
        if (!s.tag || si == 9) return;
        const Named* nm = nullptr;
        if (n == "setn") { nm = by_name(l.str("who")); if (!nm || !nm->set) return; idb = nm->id; flags = Bytes(2, '\0'); }
        else { if (idb[0] != 'T') idb[0] = 'T'; for (auto& ch : idb) if (!((ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9'))) ch = 'X'; }
        Bytes text = clean(l.bytes("text"));
        auto* src = (ID3v2_TextFrame*) alias_source(c, l, l.bytes("aid"));
        if (src) { text = unterm(src->data->text); if (!nm && l.num("aflags")) flags.assign(src->header->flags, 2); }
        Arg ai(idb + Bytes(1, '\0')), af(flags), at(term(text));
        const char *tp = src ? src->data->text : at.p, *fp = src && l.num("aflags") ? src->header->flags : af.p;
        bool conv = l.num("conv") && !src;      // the caller converts the text first
        lib(o, [&] {
            char* u = nullptr;
            if (conv) tp = u = ID3v2_to_unicode(at.p);
            if (nm) nm->set(s.tag, tp);
            else { ID3v2_TextFrameInput in = {ai.p, fp, tp}; ID3v2_Tag_set_text_frame(s.tag, &in); }
            if (u != at.p) sim_free(u);
        });
        if (conv) text = to_wide(text);
        if (o.died) { process_death(o); return; }
        if (src) s.aliased = true;
        RFrame f{std::string(idb), flags, mk_text(text), true};
        apply(o, s, [&](Model& m) { m.set(f); }); edited(s);
    } else if (n == "setcomm" || n == "setcommf" || n == "addcommf") {
        if (!s.tag || si == 9) return;
        Bytes lang = fixed(l.bytes("lang"), 3, 'x'), text = clean(l.bytes("text")), desc = clean(l.bytes("desc"));
        auto* src = (ID3v2_CommentFrame*) alias_source(c, l, "COMM");
        if (src) { text = unterm(src->data->comment); desc = unterm(src->data->short_description); lang.assign(src->data->language, 3); flags.assign(src->header->flags, 2); }
        if (n == "setcomm") { desc = has_bom(text) ? Bytes("\xFF\xFE", 2) : Bytes(); flags = Bytes(2, '\0'); }
        Arg al(lang), at(term(text)), ad(term(desc)), af(flags);
        const char *lp = src ? src->data->language : al.p, *tp = src ? src->data->comment : at.p, *dp = src ? src->data->short_description : ad.p, *fp = src ? src->header->flags : af.p;
        lib(o, [&] {
            if (n == "setcomm") ID3v2_Tag_set_comment(s.tag, lp, tp);
            else { ID3v2_CommentFrameInput in = {fp, lp, dp, tp}; if (n == "setcommf") ID3v2_Tag_set_comment_frame(s.tag, &in); else ID3v2_Tag_add_comment_frame(s.tag, &in); }
        });
        if (o.died) { process_death(o); return; }
        if (src) s.aliased = true;
        RFrame f{"COMM", flags, mk_comm(lang, desc, text), true};
        apply(o, s, [&](Model& m) { if (n == "addcommf") m.add(f); else m.set(f); }); edited(s);
    } else if (n == "setcover" || n == "setapicf" || n == "addapicf") {
        if (!s.tag || si == 9) return;
        Bytes mime = clean(l.bytes("mime")), desc = clean(l.bytes("desc")), data = l.bytes("data");
        if (has_bom(mime)) mime = "image/png";
        int type = (int) l.num("type") & 0xFF;
        auto* src = (ID3v2_ApicFrame*) alias_source(c, l, "APIC");
        if (src) { mime = unterm(src->data->mime_type); desc = unterm(src->data->description); data.assign(src->data->data, src->data->picture_size); flags.assign(src->header->flags, 2); }
        if (n == "setcover") { desc = Bytes("\xFF\xFE", 2); type = 3; flags = Bytes(2, '\0'); }
        Arg am(term(mime)), ad(term(desc)), ap(data), af(flags);
        const char *mp = src ? src->data->mime_type : am.p, *dp = src ? src->data->description : ad.p, *pp = src ? src->data->data : ap.p, *fp = src ? src->header->flags : af.p;
        lib(o, [&] {
            if (n == "setcover") ID3v2_Tag_set_album_cover(s.tag, mp, (int) data.size(), pp);
            else {
                ID3v2_ApicFrameInput in = {fp, mp, dp, (char) type, (int) data.size(), pp};
                if (n == "setapicf") ID3v2_Tag_set_apic_frame(s.tag, &in); else ID3v2_Tag_add_apic_frame(s.tag, &in);
            }
        });
        if (o.died) { process_death(o); return; }
        if (src) s.aliased = true;
        RFrame f{"APIC", flags, mk_apic(mime, type, desc, data), true};
        apply(o, s, [&](Model& m) { if (n == "addapicf") m.add(f); else m.set(f); }); edited(s);
    } else if (n == "delid" || n == "deln") {
        if (!s.tag || si == 9) return;
        const Named* nm = n == "deln" ? by_name(l.str("who")) : nullptr;
        if (n == "deln" && !nm) return;
        if (nm) idb = nm->id;
        Arg ai(idb + Bytes(1, '\0'));
        lib(o, [&] { if (nm) nm->del(s.tag); else ID3v2_Tag_delete_frame(s.tag, ai.p); });
        if (o.died) { process_death(o); return; }
        bool hit = false;
        apply(o, s, [&](Model& m) { if (m.del(idb)) hit = true; });
        if (hit) edited(s);
    } else if (n == "delcomm" || n == "delapic") {
        if (!s.tag || si == 9) return;
        int idx = (int) l.num("idx");
        lib(o, [&] { if (n == "delcomm") ID3v2_Tag_delete_comment_frame(s.tag, idx); else ID3v2_Tag_delete_apic_frame(s.tag, idx); });
        if (o.died) { process_death(o); return; }
        bool hit = false;
        apply(o, s, [&](Model& m) { if (m.del(n == "delcomm" ? "COMM" : "APIC", idx)) hit = true; });
        if (hit) edited(s);
    } else if (n == "get") {
        if (!s.tag) {           // a file without a tag: nothing to find either
            bool found = false;
            lib(o, [&] { for (auto& nm : named) if (nm.get(nullptr)) found = true; if (ID3v2_Tag_get_frame(nullptr, "PRIV") || ID3v2_Tag_get_frames(nullptr, "TIT2") || ID3v2_Tag_get_comment_frames(nullptr) || ID3v2_Tag_get_apic_frames(nullptr)) found = true; });
            if (found) emit("C12", "getters-no-tag", "a getter found a frame although there is no tag");
            fold(c, 1); return;
        }
        uint64_t d1 = digest_tag(s.tag);
        std::string bad;
        before_op(o);
        lib(o, [&] { bad = compare_getters(s.tag, s.known ? s.m : Model()); });
        R->st.checks++;
        if (s.known && !bad.empty()) emit(with_context(s.aliased ? "C03 C20" : "C03", false).c_str(), "getters", bad);
        if (digest_tag(s.tag) != d1) emit("C11", "query-changes", "querying the tag changed it");
        if (o.path.empty()) check_allocs(o, "");
        fold(c, d1);
    } else if (n == "cget") {
        if (!cs.ctag) { fold(c, 1); return; }
        uint64_t d1 = digest_ctag(cs.ctag);
        std::string bad;
        lib(o, [&] { bad = compare_compat(cs.ctag, cs.m); });
        R->st.checks++;
        if (cs.known && !bad.empty()) emit("C14", "compat-getters", bad);
        if (digest_ctag(cs.ctag) != d1) emit("C11", "query-changes", "querying the tag changed it");
        check_allocs(o, "");
        fold(c, d1);
    } else if (n == "csetn") {
        if (!cs.ctag) return;
        const Named* nm = by_name(l.str("who"));
        if (!nm || !nm->cset) return;
        Bytes text = clean(l.bytes("text"));
        Arg at(term(text));
        bool conv = l.num("conv") != 0;
        lib(o, [&] {
            char* u = conv ? ID3v2_to_unicode(at.p) : at.p;
            nm->cset(u, (char) l.num("enc"), cs.ctag);
            if (u != at.p) sim_free(u);
        });
        if (conv) text = to_wide(text);
        if (o.died) { process_death(o); return; }
        RFrame f;
        f.id = nm->id; f.flags = Bytes(2, '\0'); f.api = true;
        f.payload = f.id == "COMM" ? mk_comm("eng", has_bom(text) ? Bytes("\xFF\xFE", 2) : Bytes(), text) : mk_text(text);
        apply(o, cs, [&](Model& m) { m.set(f); }); edited(cs);
    } else if (n == "csetcover" || n == "csetcoverf") {
        if (!cs.ctag) return;
        Bytes data = l.bytes("data"), mime = clean(l.bytes("mime"));
        if (has_bom(mime)) mime = "image/png";
        bool ok = true;
        std::string pic = l.str("pic");
        Arg am(term(mime)), ap(data), an(pic + Bytes(1, '\0'));
        if (n == "csetcoverf") {
            o.path = pic;
            before_op(o);
            remember_others(o, true);
            ok = o.existed;
            data = o.before;
            size_t dot = pic.rfind('.');
            mime = dot != std::string::npos && pic.substr(dot + 1) == "png" ? "image/png" : "image/jpeg";
            lib(o, [&] { tag_set_album_cover(an.p, cs.ctag); }, pic);
        } else lib(o, [&] { tag_set_album_cover_from_bytes(ap.p, am.p, (int) data.size(), cs.ctag); });
        if (o.died) { process_death(o); return; }
        RFrame f{"APIC", Bytes(2, '\0'), mk_apic(mime, 3, Bytes("\xFF\xFE", 2), data), true};
        bool io = false;
        for (auto& e : c.ctx.events) if (e.faulted) io = true;
        if (c.ctx.oom_fired) { apply(o, cs, [&](Model& m) { if (ok) m.set(f); }); if (io) cs.alts.clear(); }
        else if (c.ctx.any_fault && !cs.known) cs.alts.clear();
        else if (c.ctx.any_fault && cs.known) {
            // the cover is set completely or not at all
            ID3v2_frame* g = tag_get_album_cover(cs.ctag);
            int i = cs.m.find("APIC");
            RFrame got;
            if (g) { got.id.assign(g->frame_id, 4); got.flags.assign(g->flags, 2); got.payload.assign(g->data, g->size); }
            Bytes now;
            file_get(pic, now);
            RFrame f2{"APIC", Bytes(2, '\0'), mk_apic(mime, 3, Bytes("\xFF\xFE", 2), now), true};
            if (g && frame_same(got, f)) cs.m.set(f);
            else if (g && now != data && frame_same(got, f2)) cs.m.set(f2);     // replaced by another program in time
            else if (!(g ? i >= 0 && frame_same(got, cs.m.frames[i]) : i < 0)) { emit("C14 C17", "partial-cover", "a cover that could not be read completely was set: " + brief(got)); cs.known = false; }
        } else if (ok) apply(o, cs, [&](Model& m) { m.set(f); });
        edited(cs);
        if (n == "csetcoverf") after_op_common(o, true);
    } else if (n == "write" || n == "cwrite") {
        bool compat = n[0] == 'c';
        Slot& d = compat ? cs : s;
        if (si == 9 || (compat && !d.live())) return;
        before_op(o);
        remember_others(o, false);
        Arg p(o.path + Bytes(1, '\0'));
        if (!d.live()) {        // what came of reading a file without a tag: nothing to write
            lib(o, [&] { ID3v2_write_tag(p.p, nullptr); }, o.path);
            Bytes now;
            bool there = file_get(o.path, now);
            if (!o.died && !c.ctx.crashed && (there != o.existed || now != o.before)) emit(with_context("C11 C06", false).c_str(), "write-nothing", "writing no tag changed the file");
            check_allocs(o, "");
            after_op_common(o, false);
            if (c.ctx.crashed) { had_crash = true; disk.names = c.ctx.snapshot; R->st.sessions++; }
            if (o.died || c.ctx.crashed) process_death(o);
            fold(c, hash_bytes(now)); return;
        }
        lib(o, [&] { if (compat) set_tag(p.p, d.ctag); else ID3v2_write_tag(p.p, d.tag); }, o.path, trace && o.before.size() < 40000);
        R->st.writes++;
        Slot copy = d;
        judge_writer(o, &d, compat);
        check_allocs(o, "");
        after_op_common(o, false);
        Bytes now;
        file_get(o.path, now);
        fold(c, hash_bytes(now));
        if (!o.died && !c.ctx.oom_fired && d.live() && d.known && !compat && !c.ctx.crashed && !multi) {
            // the tag object is still what it was
            std::vector<RFrame> got = walk(d.tag);
            bool same = got.size() == d.m.frames.size();
            for (size_t i = 0; same && i < got.size(); i++) same = frame_same(got[i], d.m.frames[i]);
            if (!same) emit("C03 C13", "object-changed", "writing changed the frames of the tag object");
        }
        if (c.ctx.crashed) {
            // the process died at the snapshot: everything after it never happened
            had_crash = true;
            disk.names = c.ctx.snapshot;
            R->st.sessions++;
            process_death(o);
        } else if (o.died) process_death(o);
    } else if (n == "delete" || n == "cremove") {
        before_op(o);
        remember_others(o, false);
        Arg p(o.path + Bytes(1, '\0'));
        lib(o, [&] { if (n[0] == 'c') remove_tag(p.p); else ID3v2_delete_tag(p.p); }, o.path, trace && o.before.size() < 40000);
        R->st.deletes++;
        judge_writer(o, nullptr, n[0] == 'c');
        check_allocs(o, "");
        after_op_common(o, false);
        Bytes now;
        file_get(o.path, now);
        fold(c, hash_bytes(now));
        if (c.ctx.crashed) { had_crash = true; disk.names = c.ctx.snapshot; R->st.sessions++; process_death(o); }
        else if (o.died) process_death(o);
    } else if (n == "agree") {
        before_op(o);
        remember_others(o, true);
        RTag t = ref_parse(o.before);
        Bytes exact = t.present ? o.before.substr(0, t.end) : o.before;
        Arg p(o.path + Bytes(1, '\0')), be(exact), bw(o.before);
        ID3v2_Tag *a = nullptr, *b = nullptr, *w = nullptr;
        ID3v2_tag *ca = nullptr, *cb = nullptr;
        lib(o, [&] {
            a = ID3v2_read_tag(p.p);
            b = ID3v2_read_tag_from_buffer(be.p, (int) exact.size());
            w = ID3v2_read_tag_from_buffer(bw.p, (int) o.before.size());
            ca = load_tag(p.p);
            cb = load_tag_with_buffer(bw.p, (int) o.before.size());
        }, o.path);
        R->st.checks++; R->st.reads += 5;
        bool extent = true;      // where the tag ends is only defined for a sync-safe size
        for (size_t i = 6; t.present && i < 10; i++) if (o.before[i] & 0x80) extent = false;
        if (!c.ctx.any_fault) {
            uint64_t da = digest_tag(a);
            if (extent && da != digest_tag(b)) emit("C12", "readers", "reading the file and reading a buffer with its tag give different results");
            if (da != digest_tag(w)) emit("C12", "readers", "reading the file and reading a buffer that continues with audio give different results");
            if (da != digest_tag(ca ? ca->tag : nullptr) || da != digest_tag(cb ? cb->tag : nullptr)) emit("C14 C12", "readers", "the compatibility loaders read another tag than the core readers");
            if (digest_ctag(ca) != digest_ctag(cb)) emit("C14 C12", "readers", "the compatibility loaders disagree");
            fold(c, da);
        }
        Op f{c, l, -1, "free", ""};
        lib(f, [&] { if (a) ID3v2_Tag_free(a); if (b) ID3v2_Tag_free(b); if (w) ID3v2_Tag_free(w); if (ca) free_tag(ca); if (cb) free_tag(cb); });
        o.name = "agree";
        check_allocs(o, "");
        after_op_common(o, true);
    } else if (n == "damage") {
        // the disk corrupts a file between sessions
        auto it = disk.names.find(o.path);
        if (it == disk.names.end()) return;
        Bytes& d = it->second->data;
        std::string how = l.str("how");
        size_t at = l.num("at"), len = l.num("len");
        if (how == "flip") { if (at < d.size()) d[at] ^= (char) (1 << (l.num("bit") & 7)); }
        else if (how == "cut") { if (at < d.size()) d.resize(at); }
        else if (how == "zero") { for (size_t i = at; i < at + len && i < d.size(); i++) d[i] = 0; }
        else if (how == "over") { Bytes x = l.bytes("data"); for (size_t i = 0; i < x.size() && at + i < d.size(); i++) d[at + i] = x[i]; }
        else if (how == "dup") { if (at < d.size()) { Bytes x = d.substr(at, len); d.insert(at, x); } }
        else if (how == "drop") { if (at < d.size()) d.erase(at, len); }
        else if (how == "ro") it->second->ro = true;
        else if (how == "rw") it->second->ro = false;
        else if (how == "unlink") { disk.names.erase(it); return; }
        it->second->version++;
        R->st.damage++;
    }
}

// ---------------------------------------------------------------- one execution of a plan
static void setup(const Plan& p, unsigned char fill) {
    const Line* k = nullptr;
    for (auto& l : p.lines) if (l.kind == "knobs") k = &l;
    static const Line nok;
    if (!k) k = &nok;
    active = k->str("prop");
    ro_args = k->num("roargs") != 0;
    name_style = (int) k->num("names");
    disk = Disk();
    disk.bufsize = (int) k->num("bufsize"); disk.short_max = (int) k->num("short"); disk.wshort_max = (int) k->num("wshort");
    disk.capacity = k->has("cap") ? k->num("cap") : -1;
    set_io_seed(k->num("io", 1));
    alloc_fill = fill;
    alloc_reuse = (int) k->num("reuse");
    alloc_release_all();
    op_faults.clear();
    had_fault = had_crash = had_oom = oom_tainted = false;
    shared_slot = Slot();
    std::map<long, Line> files;
    std::map<long, std::vector<RFrame>> frames;
    for (auto& l : p.lines) {
        if (l.kind == "file") files[l.num("f")] = l;
        if (l.kind == "frame") { RFrame f; f.id = fixed(l.bytes("fid"), 4, 'X'); f.flags = fixed(l.bytes("flags"), 2, '\0'); f.payload = l.bytes("data"); frames[l.num("f")].push_back(f); }
        if (l.kind == "pic") { auto i = std::make_shared<Inode>(); i->data = l.bytes("data"); disk.names[l.str("pic")] = i; }
    }
    for (auto& kv : files) {
        Line& l = kv.second;
        if (l.num("absent")) continue;
        Bytes b = l.bytes("raw");
        int ver = (int) l.num("ver");
        if (ver) b += ref_build(ver, (int) l.num("flags"), (int) l.num("rev"), l.bytes("ext"), frames[kv.first], l.num("pad"));
        b += l.bytes("audio");
        auto i = std::make_shared<Inode>();
        i->data = b; i->ro = l.num("ro") != 0;
        disk.names[path_of(kv.first)] = i;
    }
    if (k->has("room")) disk.capacity = disk.used() + k->num("room");
}
static std::vector<std::unique_ptr<Fault>> fault_store;
static void load_faults(const Plan& p) {
    fault_store.clear();
    op_faults.clear();
    for (auto& l : p.lines) {
        if (l.kind != "fault") continue;
        auto f = std::make_unique<Fault>();
        std::string kd = l.str("kind");
        f->kind = kd == "crash" ? FK_CRASH : kd == "ext" ? FK_EXT : kd == "oom" ? FK_OOM : FK_FAIL;
        f->op = (int) l.num("op"); f->at = (int) l.num("at"); f->err = (int) l.num("err"); f->frac = (int) l.num("frac");
        f->persist = (int) l.num("persist"); f->act = (int) l.num("act"); f->len = l.num("len"); f->data = l.bytes("data");
        op_faults[f->op].push_back(f.get());
        fault_store.push_back(std::move(f));
    }
}
static void run_caller(int t, void*) {
    Caller& c = *callers[t];
    ctx = &c.ctx;
    c.ctx.id = t;
    for (auto* l : c.ops) exec_op(c, *l);
    for (int i = 0; i < 4; i++) {
        Line none;
        Op o{c, none, -1, "free", ""};
        if (c.slots[i].live()) lib(o, [&] { free_slot(c.slots[i]); });
        if (c.cslots[i].live()) lib(o, [&] { free_slot(c.cslots[i]); });
    }
    ctx = nullptr;
}
static void load_shared(const Plan& p) {
    for (auto& l : p.lines)
        if (l.kind == "shared") {
            Bytes b;
            std::string path = path_of(l.num("f"));
            file_get(path, b);
            Ctx tmp;
            tmp.id = 99;
            ctx = &tmp;
            begin_op(&tmp, -2, {}, "", false);
            shared_slot.tag = ID3v2_read_tag(path.c_str());
            end_op(&tmp);
            disk.gc();
            adopt(shared_slot, b, path);
            ctx = nullptr;
        }
}
static void make_callers(const Plan& p, int n) {
    for (auto* c : callers) delete c;
    callers.clear();
    for (int i = 0; i < n; i++) { callers.push_back(new Caller); callers.back()->ctx.id = i; }
    for (auto& l : p.lines) if (l.kind == "op") { long t = l.num("t"); if (t >= 0 && t < n) callers[t]->ops.push_back(&l); }
}
static uint64_t names_digest(const std::string& skip = "") {
    uint64_t h = 3;
    for (auto& kv : disk.names) if (kv.first != skip) { h = hash_bytes(kv.first, h); h = hash_bytes(kv.second->data, h); }
    return h;
}
static void finish_disk_stats() {
    for (int i = 0; i < SYS_NTYPES; i++) R->st.fault_sys[i] += disk.fail_count[i];
    R->st.crash += disk.crashes; R->st.ext += disk.ext_changes; R->st.enospc += disk.enospc;
    R->st.short_reads += disk.short_reads; R->st.short_writes += disk.short_writes;
}
static void end_of_history() {
    // C09: everything given back
    if (shared_slot.tag) { ID3v2_Tag_free(shared_slot.tag); shared_slot = Slot(); }
    size_t n = alloc_outstanding();
    if (n && !had_oom) {
        std::string sz;
        for (size_t x : alloc_sizes()) if (sz.size() < 60) sz += " " + std::to_string(x);
        emit("C09", "memory-leak-end", std::to_string(n) + " block(s) still allocated at the end:" + sz);
    }
    alloc_release_all();
}

RunResult run_plan(const Plan& p) {
    RunResult res;
    R = &res;
    install_handlers();
    const Line* k = nullptr;
    for (auto& l : p.lines) if (l.kind == "knobs") k = &l;
    static const Line nok;
    if (!k) k = &nok;
    int threads = (int) std::max<long>(1, std::min<long>(4, k->num("threads", 1)));
    log_hash = 0;
    AllocStats a0 = alloc_stats;
    if (threads == 1) {
        multi = false;
        int reps = k->num("twice") ? 2 : 1;
        uint64_t dig[2] = {0, 0};
        for (int r = 0; r < reps; r++) {
            setup(p, (unsigned char) (r == 0 ? k->num("fill", 0xA5) : ~k->num("fill", 0xA5)));
            load_faults(p);
            make_callers(p, 1);
            logev("run %d", r);
            run_caller(0, nullptr);
            end_of_history();
            finish_disk_stats();
            dig[r] = mix64(callers[0]->digest, names_digest());
            logev("digest %llx", (unsigned long long) dig[r]);
        }
        if (reps == 2 && dig[0] != dig[1]) emit("C08 C12", "stale-memory", "the result depends on the contents of uninitialised memory");
        res.digest = dig[0];
    } else {
        // every thread alone, then together
        multi = true;
        std::vector<uint64_t> alone(threads);
        uint64_t files_alone = 0;
        setup(p, (unsigned char) k->num("fill", 0xA5));
        load_faults(p);
        make_callers(p, threads);
        load_shared(p);
        logev("serial");
        judging = false;
        for (int t = 0; t < threads; t++) { run_caller(t, nullptr); alone[t] = callers[t]->digest; }
        judging = true;
        files_alone = names_digest();
        alloc_release_all();
        shared_slot = Slot();
        finish_disk_stats();
        res.ops.clear();
        setup(p, (unsigned char) k->num("fill", 0xA5));
        load_faults(p);
        make_callers(p, threads);
        load_shared(p);
        logev("together");
        sched.rng = Rng(k->num("sched", 1));
        sched.mean = (int) std::max<long>(1, k->num("mean", 20));
        sched.explicit_mode = k->has("switches");
        sched.plan.clear();
        if (sched.explicit_mode) {
            std::string s = k->str("switches");
            size_t i = 0;
            while (i < s.size()) {
                size_t e = s.find(',', i);
                if (e == std::string::npos) e = s.size();
                unsigned long long st = 0; int tg = 0;
                if (sscanf(s.substr(i, e - i).c_str(), "%llu:%d", &st, &tg) == 2) sched.plan.push_back({st, tg});
                i = e + 1;
            }
        }
        sched_run(threads, run_caller, nullptr);
        res.switches = sched.recorded; res.sched_sig = sched.sig; res.st.switches = sched.switches;
        for (int t = 0; t < threads; t++)
            if (callers[t]->digest != alone[t]) emit("C10", "interference", "thread " + std::to_string(t) + " got other results than when running alone");
        if (names_digest() != files_alone) emit("C10", "interference-files", "the files differ from those the threads leave when running one after the other");
        alloc_release_all();
        shared_slot = Slot();
        finish_disk_stats();
        res.digest = names_digest();
    }
    res.st.oom = alloc_stats.failed - a0.failed;
    res.log_hash = log_hash;
    disk.kill_handles();
    for (auto* c : callers) delete c;
    callers.clear();
    return res;
}

// Independent ID3v2 decoder/encoder and the reference model of a tag. Written from the ID3v2.3.0 / v2.4.0 documents,
// sharing no code with the library.
#pragma once
#include "sim.h"

struct RFrame {
    std::string id;       // 4 characters
    Bytes flags;          // 2 bytes
    Bytes payload;
    bool api = false;     // made by an editing call (then exact comparison applies)
    bool enc = false;     // format flags say that the payload is compressed, encrypted, ...: just bytes
    bool mem = false;     // put together from what a getter returned
};

struct RTag {
    bool present = false; // file starts with a v2.3/v2.4 header
    bool strict = false;  // well formed in every respect
    std::string why;      // why not
    int ver = 0, rev = 0, flags = 0;
    long size = 0;        // declared
    long ext = 0;         // bytes of extended header
    long foot = 0;        // bytes of footer
    long synced = 0;      // zero bytes that unsynchronisation had added
    std::vector<RFrame> frames;
    long pad = 0;         // bytes after the last frame
    long end = 0;         // offset of the first byte after the tag
};

RTag ref_parse(const Bytes& b);
Bytes ref_audio(const Bytes& b);                       // what follows the tag, everything if there is none
Bytes ref_unsync(const Bytes& b);
Bytes ref_build(int ver, int flags, int rev, const Bytes& ext, const std::vector<RFrame>& frames, long pad);
Bytes sync4(uint32_t v);
Bytes be4(uint32_t v);

bool has_bom(const Bytes& s);
long str_end(const Bytes& s, size_t from);             // offset just after the terminator of the string at from, -1 none
bool has_term(const Bytes& s, size_t from);

struct RComm { bool ok = false; int enc = 0; Bytes lang, desc, text; };
struct RApic { bool ok = false; int enc = 0; Bytes mime, desc, data; int type = 0; };
RComm ref_comm(const Bytes& payload);
RApic ref_apic(const Bytes& payload);
bool plain_strings(const RFrame& f);                   // COMM/APIC whose strings carry their width in a byte order mark

// got equals want, or want lacked a terminator (string starting at from) and got is want plus 1..3 zero bytes
bool same_modulo_term(const Bytes& got, const Bytes& want, size_t from, bool exact);
bool frame_same(const RFrame& got, const RFrame& want);

Bytes mk_text(const Bytes& text);                      // payload of a text frame made by an editing call
Bytes mk_comm(const Bytes& lang, const Bytes& desc, const Bytes& text);
Bytes mk_apic(const Bytes& mime, int type, const Bytes& desc, const Bytes& data);

struct Model {
    int ver = 3, rev = 0, flags = 0;
    std::vector<RFrame> frames;
    long pad = 0;
    int find(const std::string& id, int nth = 0) const;
    void set(const RFrame& f);
    void add(const RFrame& f) { frames.push_back(f); }
    bool del(const std::string& id, int nth = 0);
};
// is img a (possibly complete) prefix of the file that writing m in front of audio produces?
bool image_prefix(const Bytes& img, const Model& m, const Bytes& audio, std::string* why = nullptr);

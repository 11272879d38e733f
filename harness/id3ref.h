// An independent description of ID3v2.3/2.4: an encoder that remembers what it encoded, and a
// strict decoder. Written from the ID3v2 specifications, shares no code with the library.
#pragma once
#include "util.h"

enum Kind { TEXT, COMM, APIC, RAW };

static inline Kind kind_of(const char* id)
{
    if (id[0] == 'T') return TEXT;
    if (memcmp(id, "COMM", 4) == 0) return COMM;
    if (memcmp(id, "APIC", 4) == 0) return APIC;
    return RAW;
}

// What the library is expected to expose for a frame. Strings carry their terminator.
struct VFrame
{
    char id[5];
    u8 flags[2];
    Kind kind;
    u8 enc;
    char lang[3];
    Bytes desc, text, mime, pic, raw;
    u8 ptype;
    int origin; // index in the file it was loaded from, -1 if it was set through the API
    u64 uid;    // tells frames with equal contents apart (C22), not compared
    VFrame() : kind(RAW), enc(0), ptype(0), origin(-1), uid(0) { memset(id, 0, 5); memset(flags, 0, 2); memset(lang, 0, 3); }
    u32 payload_size() const
    {
        switch (kind)
        {
            case TEXT: return 1 + (u32) text.size();
            case COMM: return 4 + (u32) desc.size() + (u32) text.size();
            case APIC: return 2 + (u32) mime.size() + (u32) desc.size() + (u32) pic.size();
            default: return (u32) raw.size();
        }
    }
    void payload(Bytes& b) const
    {
        switch (kind)
        {
            case TEXT: put8(b, enc); put(b, text); break;
            case COMM: put8(b, enc); put(b, lang, 3); put(b, desc); put(b, text); break;
            case APIC: put8(b, enc); put(b, mime); put8(b, ptype); put(b, desc); put(b, pic); break;
            default: put(b, raw);
        }
    }
    bool same(const VFrame& o) const
    {
        return memcmp(id, o.id, 4) == 0 && memcmp(flags, o.flags, 2) == 0 && kind == o.kind && enc == o.enc &&
               memcmp(lang, o.lang, 3) == 0 && desc == o.desc && text == o.text && mime == o.mime && pic == o.pic &&
               raw == o.raw && ptype == o.ptype;
    }
    u64 hash(u64 h) const
    {
        Bytes b;
        put(b, id, 4); put(b, flags, 2); put8(b, kind); put8(b, enc); put(b, lang, 3); put8(b, ptype);
        h = hash_bytes(b, h);
        h = hash_bytes(desc, h); h = hash_bytes(text, h); h = hash_bytes(mime, h); h = hash_bytes(pic, h);
        return hash_bytes(raw, h);
    }
};
typedef std::vector<VFrame> Frames;

static inline u64 hash_frames(const Frames& f)
{
    u64 h = 0x1234;
    for (size_t i = 0; i < f.size(); i++) h = f[i].hash(h);
    return h;
}

// Describes the first difference of two frames
static inline void describe_diff(const VFrame& got, const VFrame& want, char* out, size_t n)
{
#define D(field, cond, fmt, ...) if (!(cond)) { snprintf(out, n, "%s differs: " fmt, field, __VA_ARGS__); return; }
    D("id", memcmp(got.id, want.id, 4) == 0, "got %.4s want %.4s", got.id, want.id)
    D("flags", memcmp(got.flags, want.flags, 2) == 0, "%.4s got %02x%02x want %02x%02x", want.id, got.flags[0], got.flags[1], want.flags[0], want.flags[1])
    D("encoding", got.enc == want.enc, "%.4s got %d want %d", want.id, got.enc, want.enc)
    D("language", memcmp(got.lang, want.lang, 3) == 0, "%.4s got %02x%02x%02x want %02x%02x%02x", want.id, (u8) got.lang[0], (u8) got.lang[1], (u8) got.lang[2], (u8) want.lang[0], (u8) want.lang[1], (u8) want.lang[2])
    D("picture type", got.ptype == want.ptype, "%.4s got %d want %d", want.id, got.ptype, want.ptype)
    const Bytes* a[] = {&got.desc, &got.text, &got.mime, &got.pic, &got.raw};
    const Bytes* b[] = {&want.desc, &want.text, &want.mime, &want.pic, &want.raw};
    const char* names[] = {"description", "text", "mime type", "picture", "raw data"};
    for (int i = 0; i < 5; i++)
    {
        if (*a[i] == *b[i]) continue;
        size_t d = first_diff(*a[i], *b[i]);
        snprintf(out, n, "%s of %.4s differs: sizes got %zu want %zu, first difference at %zu: got %s want %s", names[i], want.id, a[i]->size(), b[i]->size(), d, Hex(*a[i], d).s, Hex(*b[i], d).s);
        return;
    }
    snprintf(out, n, "no difference");
#undef D
}

static inline void check_frames(const Frames& got, const Frames& want, const char* key, const char* when)
{
    for (size_t i = 0; i < got.size() && i < want.size(); i++)
    {
        if (got[i].same(want[i])) continue;
        char d[600];
        describe_diff(got[i], want[i], d, sizeof d);
        fail(key, "%s: frame %zu of %zu: %s", when, i, want.size(), d);
    }
    if (got.size() != want.size())
    {
        size_t i = std::min(got.size(), want.size());
        fail(key, "%s: %zu frames instead of %zu (first extra or missing: %.4s)", when, got.size(), want.size(), got.size() > i ? got[i].id : want[i].id);
    }
}

// ---- conforming tags ---------------------------------------------------------------------------
struct GenFrame
{
    VFrame v;         // what must be exposed
    Bytes payload;    // the bytes in the file
};
struct GenTag
{
    int version, minor, flags;
    Bytes ext;        // extended header
    std::vector<GenFrame> frames;
    u32 padding;
    std::vector<u32> offsets; // of frame headers in the encoding, filled in by encode
    u32 size;                 // declared size, filled in by encode
    u32 total;                // bytes up to the audio, footer included
    bool footer() const { return version == 4 && (flags & 0x10); }
    Frames expected() const
    {
        Frames f;
        for (size_t i = 0; i < frames.size(); i++) { f.push_back(frames[i].v); f.back().origin = (int) i; }
        return f;
    }
    Bytes encode()
    {
        Bytes body = ext;
        offsets.clear();
        for (size_t i = 0; i < frames.size(); i++)
        {
            offsets.push_back((u32) body.size() + 10);
            put(body, frames[i].v.id, 4);
            if (version == 4) putsync(body, (u32) frames[i].payload.size());
            else put32(body, (u32) frames[i].payload.size());
            put(body, frames[i].v.flags, 2);
            put(body, frames[i].payload);
        }
        body.resize(body.size() + padding, 0);
        size = (u32) body.size();
        Bytes b;
        put(b, "ID3", 3);
        put8(b, (u32) version); put8(b, (u32) minor); put8(b, (u32) flags);
        putsync(b, size);
        put(b, body);
        if (footer())
        {
            put(b, "3DI", 3);
            put8(b, (u32) version); put8(b, (u32) minor); put8(b, (u32) flags);
            putsync(b, size);
        }
        total = (u32) b.size();
        return b;
    }
};

// ---- strict decoder ----------------------------------------------------------------------------
struct RawFrame
{
    char id[5];
    u8 flags[2];
    Bytes payload;
};
struct Decoded
{
    int version, minor, flags;
    u32 size;      // declared
    u32 padding;
    u32 audio_at;
    std::vector<RawFrame> frames;
    char error[200];
};
// Accepts what the library may write: a header without extended header and footer, complete
// frames, zero padding. Explains what is wrong otherwise.
static inline bool decode_strict(const Bytes& f, Decoded& d)
{
    d.frames.clear();
    d.error[0] = 0;
#define BAD(...) do { snprintf(d.error, sizeof d.error, __VA_ARGS__); return false; } while (0)
    if (f.size() < 10) BAD("file has %zu bytes, no room for a tag header", f.size());
    if (memcmp(f.data(), "ID3", 3) != 0) BAD("no ID3 identifier: %02x%02x%02x", f[0], f[1], f[2]);
    d.version = f[3]; d.minor = f[4]; d.flags = f[5];
    if (d.version != 3 && d.version != 4) BAD("major version %d", d.version);
    if (d.flags & 0x40) BAD("flags %02x announce an extended header that is not written", d.flags);
    if (d.version == 4 && (d.flags & 0x10)) BAD("flags %02x announce a footer that is not written", d.flags);
    for (int i = 6; i < 10; i++) if (f[i] & 0x80) BAD("tag size is not syncsafe: %02x%02x%02x%02x", f[6], f[7], f[8], f[9]);
    d.size = (u32) f[6] << 21 | (u32) f[7] << 14 | (u32) f[8] << 7 | f[9];
    d.audio_at = d.size + 10;
    if (f.size() < d.audio_at) BAD("declared tag size %u, but the file has %zu bytes", d.size, f.size());
    size_t p = 10, end = d.audio_at;
    while (p < end && f[p] != 0)
    {
        if (end - p < 10) BAD("%zu stray bytes before the end of the tag", end - p);
        RawFrame r;
        memcpy(r.id, &f[p], 4);
        r.id[4] = 0;
        for (int i = 0; i < 4; i++)
            if (!((r.id[i] >= 'A' && r.id[i] <= 'Z') || (r.id[i] >= '0' && r.id[i] <= '9')))
                BAD("invalid frame id %02x%02x%02x%02x at offset %zu", f[p], f[p + 1], f[p + 2], f[p + 3], p);
        u32 size;
        if (d.version == 4)
        {
            for (int i = 4; i < 8; i++) if (f[p + i] & 0x80) BAD("size of %s in a v2.4 tag is not syncsafe: %02x%02x%02x%02x", r.id, f[p + 4], f[p + 5], f[p + 6], f[p + 7]);
            size = (u32) f[p + 4] << 21 | (u32) f[p + 5] << 14 | (u32) f[p + 6] << 7 | f[p + 7];
        }
        else size = (u32) f[p + 4] << 24 | (u32) f[p + 5] << 16 | (u32) f[p + 6] << 8 | f[p + 7];
        memcpy(r.flags, &f[p + 8], 2);
        if (size > end - p - 10) BAD("frame %s at offset %zu declares %u bytes, %zu are left", r.id, p, size, end - p - 10);
        r.payload.assign(f.begin() + (long) p + 10, f.begin() + (long) (p + 10 + size));
        d.frames.push_back(r);
        p += 10 + size;
    }
    d.padding = (u32) (end - p);
    for (; p < end; p++) if (f[p] != 0) BAD("padding is not zero at offset %zu: %02x", p, f[p]);
#undef BAD
    return true;
}

// Where the audio starts in any file, by the header alone (0: no supported tag)
static inline size_t audio_offset(const Bytes& f)
{
    if (f.size() < 10 || memcmp(f.data(), "ID3", 3) != 0 || (f[3] != 3 && f[3] != 4)) return 0;
    size_t n = 10 + (((size_t) f[6] & 0x7F) << 21 | ((size_t) f[7] & 0x7F) << 14 | ((size_t) f[8] & 0x7F) << 7 | (f[9] & 0x7F));
    if (f[3] == 4 && (f[5] & 0x10)) n += 10;
    return std::min(n, f.size());
}
static inline Bytes audio_of(const Bytes& f) { return Bytes(f.begin() + (long) audio_offset(f), f.end()); }

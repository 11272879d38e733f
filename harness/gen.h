// Generators of strings, conforming tags, audio and hostile bytes.
#pragma once
#include "id3ref.h"

// Integers and identifiers that occur in the sources under test: thresholds and special cases are
// met on purpose instead of by luck. Only steers the workload; the oracles do not know about it.
extern std::vector<u32> g_dict;
extern std::vector<u32> g_dict_ids; // four characters, big-endian
extern std::vector<Bytes> g_dict_strings;

static inline u32 dict_len(Rng& r, u32 max, u32 min = 0)
{
    if (g_dict.empty()) return min + r.below(40);
    for (int i = 0; i < (min ? 60 : 8); i++)
    {
        u32 v = g_dict[r.below((u32) g_dict.size())];
        static const int off[] = {0, 0, 0, 1, -1, 2, -2, 10, -10, 11, -11, -4, -5, 5, -12, 12};
        long n = (long) v + r.pick(off);
        if (n >= (long) min && n <= (long) max) return (u32) n;
    }
    return min + r.below(40);
}
static inline bool dict_string(Rng& r, Bytes& b)
{
    if (g_dict_strings.empty()) return false;
    b = g_dict_strings[r.below((u32) g_dict_strings.size())];
    return true;
}

enum Size { SMALL, MEDIUM, LARGE }; // LARGE: up to tens of MB, used rarely

// What one case draws stays well below the 256 MB a tag can hold
extern thread_local u32 g_len_budget;
static inline u32 gen_len_any(Rng& r, Size s);
static inline u32 gen_len(Rng& r, Size s)
{
    u32 n = gen_len_any(r, s);
    if (n < 10000) return n;
    if (n > g_len_budget) return n % 10000;
    g_len_budget -= n;
    return n;
}
static inline u32 gen_len_any(Rng& r, Size s)
{
    static const u32 edges[] = {0, 1, 2, 3, 61, 63, 64, 65, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131,
                                252, 253, 254, 255, 256, 257, 258, 510, 511, 512, 513, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 4094, 4095, 4096, 4097};
    static const u32 big[] = {16370, 16379, 16380, 16381, 16382, 16383, 16384, 16385, 16386, 32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 131071, 131072, 131073};
    static const u32 huge[] = {524288, 1048574, 1048576, 2097130, 2097149, 2097150, 2097151, 2097152, 2097153, 2097154, 3000000, 4194304, 9000001, 16777214, 16777216, 17000000, 20000003};
    u32 k = r.below(100);
    static const u32 giant[] = {33554432, 50000001, 67108863, 134217720, 134217728, 134217730};
    if (s == LARGE && r.chance(1, 60)) return r.pick(giant);
    if (s == LARGE && k < 25) return dict_len(r, 40000000, 140000);
    if (s == LARGE) return k < 70 ? r.pick(huge) + r.below(3) : r.pick(big);
    if (s == MEDIUM && k < 8) return r.pick(big);
    if (k < 12) return 0;
    if (k < 20) return dict_len(r, s == MEDIUM ? 140000 : 9000);
    if (k < 70) return r.below(40);
    if (k < 90) return r.pick(edges);
    return r.below(700);
}

// ISO-8859-1 without NUL, not starting with a BOM
static inline Bytes gen_iso(Rng& r, u32 n)
{
    Bytes b(n);
    if (n && n < 300 && r.chance(1, 25) && dict_string(r, b)) return b;
    int style = (int) r.below(4);
    for (u32 i = 0; i < n; i++)
    {
        u8 c;
        do
        {
            c = style == 0 ? (u8) r.range(0x20, 0x7E) : style == 1 ? r.byte() : style == 2 ? (u8) r.range(0x80, 0xFF) : (u8) (r.chance(1, 3) ? 0xFF : r.chance(1, 2) ? 0xFE : r.byte());
        } while (c == 0 || (i == 0 && (c == 0xFF || c == 0xFE)));
        b[i] = c;
    }
    return b;
}
static inline Bytes gen_utf8(Rng& r, u32 n)
{
    Bytes b;
    if (n >= 3 && r.chance(1, 8)) put(b, "\xEF\xBB\xBF", 3); // a signature is part of the text
    while (b.size() < n)
    {
        u32 c = r.chance(1, 2) ? (u32) r.range(0x20, 0x7E) : r.chance(1, 2) ? (u32) r.range(0x80, 0x7FF) : r.chance(1, 2) ? (u32) r.range(0x800, 0xD7FF) : (u32) r.range(0x10000, 0x10FFFF);
        if (c < 0x80) put8(b, c);
        else if (c < 0x800) { put8(b, 0xC0 | c >> 6); put8(b, 0x80 | (c & 63)); }
        else if (c < 0x10000) { put8(b, 0xE0 | c >> 12); put8(b, 0x80 | (c >> 6 & 63)); put8(b, 0x80 | (c & 63)); }
        else { put8(b, 0xF0 | c >> 18); put8(b, 0x80 | (c >> 12 & 63)); put8(b, 0x80 | (c >> 6 & 63)); put8(b, 0x80 | (c & 63)); }
    }
    return b;
}
// UTF-16 code units, none of them zero; no BOM
static inline Bytes gen_units(Rng& r, u32 n, bool big_endian)
{
    Bytes b;
    for (u32 i = 0; i < n; i++)
    {
        u32 u;
        do
        {
            switch (r.below(6))
            {
                case 0: u = (u32) r.range(0x20, 0x7E); break;
                case 1: u = (u32) r.range(1, 0xFF) << 8; break;        // zero low byte
                case 2: u = (u32) r.range(1, 0xFF); break;             // zero high byte
                case 3: u = 0xD83D; break;
                default: u = (u32) r.below(0x10000);
            }
            if (i > 0 && r.chance(1, 60)) u = 0xFEFF; // a character like any other there
        } while (u == 0 || (i == 0 && (u == 0xFEFF || u == 0xFFFE)));
        if (u == 0xD83D)
        {
            u32 lo = 0xDC00 | r.below(0x400);
            if (big_endian) { put8(b, u >> 8); put8(b, u); put8(b, lo >> 8); put8(b, lo); }
            else { put8(b, u); put8(b, u >> 8); put8(b, lo); put8(b, lo >> 8); }
            continue;
        }
        if (big_endian) { put8(b, u >> 8); put8(b, u); }
        else { put8(b, u); put8(b, u >> 8); }
    }
    return b;
}
static inline Bytes gen_utf16_bom(Rng& r, u32 units, bool in_file = false)
{
    bool be = r.chance(1, 3);
    Bytes b;
    if (units == 0 && in_file && r.chance(1, 2)) return b; // an empty string may go without BOM
    put(b, be ? "\xFE\xFF" : "\xFF\xFE", 2);
    put(b, gen_units(r, units, be));
    return b;
}
// What people write in tags
static inline Bytes gen_usual(Rng& r)
{
    char t[60];
    static const char* const words[] = {"Various Artists", "The Beatles", "Rock", "(17)", "(17)Rock", "(RX)", "((x)", "Unknown", "Track 01", "http://example.com/a?b=c&d", "a/b", "a;b", "a\\b", " x", "x ", "  ", "\t", "a\nb", "a\r\nb",
                                        "N/A", "%s%n%d", "\"q\"", "'", "<x>", "image/jpeg", "eng", "XXX", "TIT2", "ID3", "TAG", "-", "null", "true", "1e5", "0x1F", "2003-05-01", "2003-05-01T10:20:30", "0105", "12:34"};
    switch (r.below(6))
    {
        case 0: snprintf(t, sizeof t, "%d", r.range(1000, 2200)); break;
        case 1: snprintf(t, sizeof t, r.chance(1, 3) ? "%02d" : "%d", r.range(0, 150)); break;
        case 2: { int n = r.range(0, 30); snprintf(t, sizeof t, r.chance(1, 3) ? "%02d/%02d" : "%d/%d", r.range(0, 30), n); break; }
        case 3: snprintf(t, sizeof t, r.chance(1, 8) ? "-%llu" : "%llu", (unsigned long long) (r.next() >> r.below(64))); break;
        default: snprintf(t, sizeof t, "%s", r.pick(words));
    }
    return Bytes((const u8*) t, (const u8*) t + strlen(t));
}
// A string in a given encoding, without terminator
static inline Bytes gen_string(Rng& r, int enc, u32 len, bool in_file = false)
{
    Bytes known, wide_known;
    bool usual = len && len < 300 && r.chance(1, 10);
    if (usual) { known = gen_usual(r); if (enc == 0) return known; }
    if (usual || (enc && len && len < 300 && r.chance(1, 40) && dict_string(r, known))) // the sources' own ASCII strings
    {
        bool ascii = true;
        for (size_t i = 0; i < known.size(); i++) ascii = ascii && known[i] < 0x80;
        if (ascii && enc == 3) return known;
        if (ascii)
        {
            bool be = enc == 2 || r.chance(1, 3);
            if (enc == 1) put(wide_known, be ? "\xFE\xFF" : "\xFF\xFE", 2);
            for (size_t i = 0; i < known.size(); i++) { put8(wide_known, be ? 0 : known[i]); put8(wide_known, be ? known[i] : 0); }
            return wide_known;
        }
    }
    switch (enc)
    {
        case 0: return gen_iso(r, len);
        case 1: return gen_utf16_bom(r, len / 2, in_file);
        case 2: return gen_units(r, len / 2, true);
        default: return gen_utf8(r, len);
    }
}
static inline bool wide(int enc) { return enc == 1 || enc == 2; }
static inline void terminate(Bytes& b, int enc) { put(b, "\0\0", wide(enc) ? 2 : 1); }

static const char* const TEXT_IDS[] = {"TIT2", "TPE1", "TALB", "TPE2", "TCON", "TRCK", "TYER", "TPOS", "TCOM", "TCOP", "TXXX", "TENC", "TDRC", "TSSE", "TIT1", "TIT3", "TPE3", "TPE4", "TALC", "TCOO", "TBPM", "TKEY", "TLAN"};
static const char* const RAW_IDS[] = {"PRIV", "GEOB", "UFID", "WOAR", "WXXX", "USLT", "MCDI", "RVAD", "POPM", "PCNT", "CHAP", "CTOC", "COMR", "AENC", "ASPI", "COMN", "COMX", "APIX", "APIB", "CRM1", "IPLS", "LINK", "XHD3", "ZZZZ", "PIC0", "1234"};
static const char IDCHARS[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";

static inline bool dict_id(Rng& r, char* id, bool text)
{
    if (g_dict_ids.empty() || !r.chance(1, 8)) return false;
    for (int i = 0; i < 10; i++)
    {
        u32 v = g_dict_ids[r.below((u32) g_dict_ids.size())];
        char c[5] = {(char) (v >> 24), (char) (v >> 16), (char) (v >> 8), (char) v, 0};
        if (text ? c[0] == 'T' : kind_of(c) == RAW) { memcpy(id, c, 5); return true; }
    }
    return false;
}
static inline void gen_text_id(Rng& r, char* id)
{
    if (dict_id(r, id, true)) return;
    if (r.chance(4, 5)) { memcpy(id, TEXT_IDS[r.below(sizeof TEXT_IDS / sizeof *TEXT_IDS)], 5); return; }
    id[0] = 'T';
    for (int i = 1; i < 4; i++) id[i] = IDCHARS[r.below(36)];
    id[4] = 0;
}
static inline void gen_raw_id(Rng& r, char* id)
{
    if (dict_id(r, id, false)) return;
    if (r.chance(4, 5)) { memcpy(id, RAW_IDS[r.below(sizeof RAW_IDS / sizeof *RAW_IDS)], 5); return; }
    do
    {
        for (int i = 0; i < 4; i++) id[i] = IDCHARS[r.below(36)];
        id[4] = 0;
    } while (kind_of(id) != RAW);
}
static inline Bytes gen_blob(Rng& r, u32 n)
{
    Bytes b(n);
    u32 style = r.below(5);
    for (u32 i = 0; i < n; i++) b[i] = style == 0 ? 0xFF : style == 1 ? 0 : style == 2 ? (u8) (r.chance(1, 2) ? 0xFF : 0) : r.byte();
    return b;
}
static inline Bytes gen_mime(Rng& r)
{
    static const char* const m[] = {"image/png", "image/jpeg", "image/", "-->", "PNG", "", "image/gif", "image/x-very-long-subtype-name+xml"};
    Bytes known;
    if (r.chance(1, 15) && dict_string(r, known)) return known;
    if (r.chance(1, 6)) return gen_iso(r, r.chance(4, 5) ? r.below(60) : gen_len(r, SMALL));
    const char* s = m[r.below(8)];
    Bytes b;
    put(b, s, strlen(s));
    return b;
}

static inline u32 gen_desc_len(Rng& r)
{
    static const u32 wide[] = {16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072};
    static const u32 very_wide[] = {262144, 524287, 1048575, 1048576, 1048577, 4194304, 4200000};
    if (r.chance(1, 250)) return r.chance(1, 3) ? dict_len(r, r.chance(1, 8) ? 5000000 : 140000) : r.chance(1, 10) ? r.pick(very_wide) : r.pick(wide);
    u32 k = r.below(20);
    return k < 9 ? 0 : k < 17 ? r.below(80) : gen_len(r, SMALL);
}

// A conforming frame for a tag of the given version
static inline GenFrame gen_frame(Rng& r, int version, Size sz)
{
    GenFrame g;
    VFrame& v = g.v;
    static const u8 status3[] = {0, 0, 0, 0x80, 0x40, 0x20, 0xE0}, status4[] = {0, 0, 0, 0x40, 0x20, 0x10, 0x70};
    v.flags[0] = version == 4 ? r.pick(status4) : r.pick(status3);
    v.enc = (u8) r.below(version == 4 || r.chance(1, 8) ? 4 : 2); // taggers put 2 and 3 into v2.3 as well
    u32 k = r.below(10);
    if (k < 5)
    {
        v.kind = TEXT;
        gen_text_id(r, v.id);
        v.text = gen_string(r, v.enc, gen_len(r, sz), true);
        bool empty = false; // an empty last value: several terminators at the end
        if (r.chance(1, 6) || memcmp(v.id, "TXXX", 4) == 0) // more values: separated by terminators
        {
            int n = r.range(1, 4);
            for (int i = 0; i < n; i++)
            {
                terminate(v.text, v.enc);
                empty = r.chance(1, 5);
                if (!empty) put(v.text, gen_string(r, v.enc, 2 + r.below(30)));
            }
        }
        put8(g.payload, v.enc);
        put(g.payload, v.text);
        if (empty || r.chance(1, 2)) terminate(g.payload, v.enc); // both are allowed
        if (v.text.empty() && r.chance(1, 2)) g.payload.resize(1);
        terminate(v.text, v.enc);
    }
    else if (k < 7)
    {
        v.kind = COMM;
        memcpy(v.id, "COMM", 5);
        for (int i = 0; i < 3; i++) v.lang[i] = (char) r.range('a', 'z');
        if (r.chance(1, 10)) memcpy(v.lang, "XXX", 3);
        if (r.chance(1, 20)) memset(v.lang, r.chance(2, 3) ? 0 : ' ', 3); // no language, as some taggers put it
        Bytes known;
        if (r.chance(1, 12) && dict_string(r, known) && known.size() == 3) memcpy(v.lang, known.data(), 3);
        v.desc = gen_string(r, v.enc, gen_desc_len(r), true);
        terminate(v.desc, v.enc);
        v.text = gen_string(r, v.enc, gen_len(r, sz), true);
        put8(g.payload, v.enc);
        put(g.payload, v.lang, 3);
        put(g.payload, v.desc);
        put(g.payload, v.text);
        if (r.chance(1, 3)) terminate(g.payload, v.enc);
        terminate(v.text, v.enc);
    }
    else if (k < 8)
    {
        v.kind = APIC;
        memcpy(v.id, "APIC", 5);
        v.mime = gen_mime(r);
        put8(v.mime, 0);
        v.ptype = r.chance(9, 10) ? (u8) r.below(0x15) : r.byte();
        v.desc = gen_string(r, v.enc, gen_desc_len(r), true);
        terminate(v.desc, v.enc);
        v.pic = gen_blob(r, gen_len(r, sz));
        v.payload(g.payload);
    }
    else
    {
        v.kind = RAW;
        v.enc = 0;
        gen_raw_id(r, v.id);
        v.flags[1] = r.chance(1, 3) ? r.byte() : 0;
        v.raw = gen_blob(r, r.chance(1, 15) ? 0 : std::max(1u, gen_len(r, sz)));
        g.payload = v.raw;
    }
    return g;
}

static inline Bytes gen_ext_header(Rng& r, int version, u32 padding)
{
    Bytes b;
    if (version == 3)
    {
        bool crc = r.chance(1, 2);
        put32(b, crc ? 10 : 6);
        put8(b, crc ? 0x80 : 0); put8(b, 0);
        put32(b, padding);
        if (crc) put32(b, (u32) r.next());
        return b;
    }
    bool update = r.chance(1, 2), crc = r.chance(1, 2), restrict_ = r.chance(1, 2);
    Bytes d;
    if (update) put8(d, 0);
    if (crc) { put8(d, 5); put8(d, r.below(16)); for (int i = 0; i < 4; i++) put8(d, r.below(128)); }
    if (restrict_) { put8(d, 1); put8(d, r.below(256)); }
    putsync(b, 6 + (u32) d.size());
    put8(b, 1);
    put8(b, (update ? 0x40u : 0) | (crc ? 0x20u : 0) | (restrict_ ? 0x10u : 0));
    put(b, d);
    return b;
}

// Large frames are pictures more often than not
static inline GenFrame gen_large_frame(Rng& r, int version)
{
    bool picture = r.chance(1, 2);
    for (int i = 0;; i++)
    {
        Rng copy = r;
        u32 budget = g_len_budget;
        GenFrame g = gen_frame(r, version, SMALL); // shows the kind at little cost
        bool fits = !picture || g.v.kind == APIC || i > 100;
        g_len_budget = budget;
        if (!fits) continue;
        r = copy;
        g = gen_frame(r, version, LARGE);
        return g;
    }
}
static bool g_odd_flags; // v2.3 headers may have the flag that announces a footer in v2.4
static u32 g_crowd; // one tag in so many has tens of thousands of frames; 0: none (set for the checks that can afford it)
static inline GenFrame gen_tiny_frame(Rng& r, int style)
{
    GenFrame g;
    VFrame& v = g.v;
    Bytes b;
    u32 len = 1 + r.below(3);
    for (u32 i = 0; i < len; i++) put8(b, (u32) r.range('0', '9'));
    if (style == 5) style = (int) r.below(5);
    if (style == 0 || style == 4) // 4: all with the same id
    {
        v.kind = TEXT;
        if (style == 0) gen_text_id(r, v.id); else memcpy(v.id, "TIT3", 5);
        v.text = b;
        put8(v.text, 0);
        put8(g.payload, 0);
        put(g.payload, v.text);
    }
    else if (style == 1)
    {
        v.kind = RAW;
        gen_raw_id(r, v.id);
        v.raw = g.payload = b;
    }
    else if (style == 2)
    {
        v.kind = COMM;
        memcpy(v.id, "COMM", 5);
        memcpy(v.lang, "eng", 3);
        put8(v.desc, 0);
        v.text = b;
        put8(v.text, 0);
        put8(g.payload, 0);
        put(g.payload, v.lang, 3);
        put(g.payload, v.desc);
        put(g.payload, v.text);
    }
    else
    {
        v.kind = APIC;
        memcpy(v.id, "APIC", 5);
        put8(v.mime, 0);
        put8(v.desc, 0);
        v.ptype = 3;
        v.pic = b;
        v.payload(g.payload);
    }
    return g;
}
static inline GenTag gen_tag(Rng& r, Size sz)
{
    static const u32 pads[] = {0, 1, 5, 9, 10, 11, 12, 20, 100, 1000, 2037, 2038, 2046, 2047, 2048, 2049, 2058, 2059, 4096, 5000};
    GenTag t;
    t.version = r.chance(1, 2) ? 3 : 4;
    t.minor = r.chance(1, 8) ? (int) (r.chance(1, 4) ? r.below(255) : r.below(4)) : 0;
    t.flags = r.chance(1, 6) ? 0x20 : 0;
    u32 k = r.below(20);
    u32 n = k == 0 ? 0 : k < 8 ? r.below(4) : k < 18 ? r.below(12) : k < 19 ? r.below(60) : r.below(300);
    if (sz == LARGE) n = 1 + r.below(5);
    u32 big = r.chance(1, 2) ? 0 : r.below(n > 0 ? n : 1); // which frame is the large one
    for (u32 i = 0; i < n; i++) t.frames.push_back(sz != LARGE ? gen_frame(r, t.version, sz) : i == big ? gen_large_frame(r, t.version) : gen_frame(r, t.version, SMALL));
    if (sz != LARGE && r.chance(1, 250)) // very many tiny frames
    {
        static const u32 many[] = {127, 128, 255, 256, 257, 511, 512, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4096};
        n = r.chance(1, 2) ? r.pick(many) : r.chance(1, 2) ? dict_len(r, 5000) : r.below(3000);
        bool raw = r.chance(1, 3);
        while (t.frames.size() < n)
        {
            GenFrame g;
            g.v.kind = raw ? RAW : TEXT;
            if (raw) gen_raw_id(r, g.v.id); else gen_text_id(r, g.v.id);
            Bytes& b = raw ? g.v.raw : g.v.text;
            u32 len = 1 + r.below(3);
            for (u32 i = 0; i < len; i++) put8(b, (u32) r.range('0', '9'));
            if (!raw) { put8(b, 0); put8(g.payload, 0); }
            put(g.payload, b);
            t.frames.push_back(g);
        }
    }
    if (g_crowd && sz != LARGE && r.chance(1, g_crowd))
    {
        static const u32 crowds[] = {4097, 8193, 10001, 16385, 32768, 32769, 50000, 65535, 65536, 65537, 65540, 66000, 70000, 70001};
        n = r.chance(3, 4) ? r.pick(crowds) : (u32) r.range(4000, 75000);
        int style = r.chance(1, 2) ? r.range(2, 3) : (int) r.below(6);
        while (t.frames.size() < n) t.frames.push_back(gen_tiny_frame(r, style));
        count("tags_with_more_than_4000_frames");
    }
    if (n > 1 && r.chance(1, 4)) // a repeated id, with other content
    {
        GenFrame g = gen_frame(r, t.version, SMALL);
        for (int tries = 0; tries < 20 && g.v.kind != t.frames[0].v.kind; tries++) g = gen_frame(r, t.version, SMALL);
        if (g.v.kind == t.frames[0].v.kind) { memcpy(g.v.id, t.frames[0].v.id, 5); t.frames.push_back(g); }
    }
    t.padding = r.chance(1, 4) ? 0 : r.chance(3, 5) ? r.pick(pads) : r.chance(1, 3) ? dict_len(r, 20000) : r.below(6000);
    if (r.chance(1, 60)) { static const u32 wide_pads[] = {16374, 16383, 16384, 32768, 65535, 65536, 70000, 200000}; t.padding = r.pick(wide_pads); }
    if (r.chance(1, 5)) // a size of interest for the tag as a whole
    {
        static const u32 sizes[] = {1, 2, 9, 10, 11, 63, 64, 100, 127, 128, 129, 137, 138, 255, 256, 257, 265, 266, 511, 512, 1000, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 16383, 16384, 16385, 16393, 16394, 32767, 32768, 65535, 65536};
        size_t used = 0;
        for (size_t i = 0; i < t.frames.size(); i++) used += 10 + t.frames[i].payload.size();
        for (int i = 0; i < 6; i++)
        {
            u32 want = r.chance(1, 4) ? dict_len(r, 140000) : r.pick(sizes);
            if (want >= used && want - used <= 70000) { t.padding = (u32) (want - used); break; }
        }
    }
    if (t.version == 4 && r.chance(1, 8)) { t.flags |= 0x10; t.padding = 0; }
    if (g_odd_flags && t.version == 3 && r.chance(1, 20)) t.flags |= 0x10;
    if (r.chance(1, 6)) { t.flags |= 0x40; t.ext = gen_ext_header(r, t.version, t.padding); }
    t.size = t.total = 0;
    return t;
}

static inline Bytes gen_audio(Rng& r, Size sz)
{
    static const u32 lens[] = {0, 1, 2, 9, 10, 11, 127, 128, 129, 4095, 4096, 4097, 8191, 8192, 8193, 12288};
    u32 n = r.chance(1, 2) ? r.pick(lens) : r.chance(1, 4) ? dict_len(r, 70000) : r.below(6000);
    if (r.chance(1, 40)) { static const u32 wide_lens[] = {65535, 65536, 65537, 131072, 262144, 300001}; n = r.pick(wide_lens); }
    if (sz == MEDIUM && r.chance(1, 4)) n = 60000 + r.below(20000);
    if (sz == LARGE) n = r.chance(1, 4) ? dict_len(r, 20000000, 70000) : r.below(3000000);
    Bytes b = gen_blob(r, n);
    switch (r.below(12))
    {
        case 0: if (n >= 2) { b[0] = 0xFF; b[1] = 0xFB; } break;
        case 1: if (n >= 4) memcpy(b.data(), "TIT2", 4); break;
        case 2: if (n >= 10) memcpy(b.data(), "\0\0\0\0\0\0\0\0\0\0", 10); break;
        case 3: if (n >= 128) memcpy(b.data() + n - 128, "TAG", 3); break;
        case 4: if (n >= 3) memcpy(b.data(), "3DI", 3); break;
        case 5: if (n >= 20) memcpy(b.data(), "COMM\0\0\0\x05\0\0\0eng\0x\0", 17); break;
        case 6: if (n >= 3) memcpy(b.data() + n - 3, "\x0A\x1A\xFF", 3); break;
        case 7: if (n >= 10) memcpy(b.data(), "ID3\2\0\0\0\0\0\0", 10); break;
        case 8: // a string of the sources, at the beginning, at or near the end, or anywhere
        {
            Bytes s;
            if (!dict_string(r, s) || s.size() > n) break;
            static const u32 backs[] = {0, 10, 20, 30, 32, 64, 100, 128, 160, 227, 256};
            u32 last = n - (u32) s.size(), back = r.pick(backs), at = r.chance(1, 2) ? 0 : r.chance(1, 2) ? r.below(last + 1) : back >= s.size() && back <= n ? n - back : last;
            memcpy(b.data() + at, s.data(), s.size());
            break;
        }
        default: break;
    }
    // Nothing that a reader would take for a supported tag
    if (n >= 4 && memcmp(b.data(), "ID3", 3) == 0 && (b[3] == 3 || b[3] == 4)) b[0] = 'J';
    return b;
}

// Hostile bytes: a conforming tag with its structure attacked, or noise
static inline Bytes gen_hostile(Rng& r)
{
    if (r.chance(1, 12)) return gen_blob(r, r.below(64));
    if (r.chance(1, 8)) // frame headers strung together from ids and odd sizes
    {
        Bytes b;
        put(b, "ID3", 3); put8(b, (u32) r.range(3, 4)); put8(b, 0); put8(b, r.chance(1, 4) ? r.byte() : 0);
        Bytes body;
        int n = r.range(0, 12);
        for (int i = 0; i < n; i++)
        {
            char id[5];
            switch (r.below(5)) { case 0: gen_text_id(r, id); break; case 1: memcpy(id, "COMM", 5); break; case 2: memcpy(id, "APIC", 5); break; case 3: gen_raw_id(r, id); break; default: for (int j = 0; j < 4; j++) id[j] = (char) r.byte(); }
            u32 len = r.below(24);
            put(body, id, 4);
            static const u32 odd[] = {0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFF6, 0x7F7F7F7F, 0x00FFFFFF, 128, 256};
            put32(body, r.chance(1, 5) ? r.pick(odd) : r.chance(1, 5) ? len + (u32) r.range(-2, 2) : len);
            put8(body, r.byte()); put8(body, r.byte());
            for (u32 j = 0; j < len; j++) { static const u8 c[] = {0, 0, 1, 2, 3, 0xFF, 0xFE, 'a', 'e'}; put8(body, r.chance(1, 5) ? r.byte() : r.pick(c)); }
        }
        putsync(b, r.chance(1, 5) ? (u32) r.next() & 0xFFFFFFF : (u32) body.size() + r.below(3) * 10);
        put(b, body);
        return b;
    }
    GenTag t = gen_tag(r, r.chance(1, 20) ? MEDIUM : SMALL);
    Bytes b = t.encode();
    if (r.chance(1, 3)) put(b, gen_blob(r, r.below(200)));
    int n = r.range(1, 6);
    for (int i = 0; i < n && !b.empty(); i++)
    {
        u32 p = r.below((u32) b.size());
        static const u8 odd[] = {0, 1, 2, 3, 0x7F, 0x80, 0xFE, 0xFF, 'T', 'C', 'A', 10};
        switch (r.below(12))
        {
            case 0: b[p] = r.byte(); break;
            case 1: b[p] = r.pick(odd); break;
            case 2: b.resize(p); break;                                              // truncate
            case 3: b.resize(b.size() - std::min<size_t>(b.size(), r.below(30))); break;
            case 4: { u32 k = std::min<u32>(r.below(40), (u32) b.size() - p); b.erase(b.begin() + p, b.begin() + p + k); break; }
            case 5: { Bytes x = gen_blob(r, r.below(40)); b.insert(b.begin() + p, x.begin(), x.end()); break; }
            case 6: case 7: case 8: // a frame's size
                if (!t.offsets.empty())
                {
                    u32 o = r.pick_index(t.offsets);
                    if (o + 8 <= b.size())
                    {
                        u32 left = (u32) b.size() - o;
                        u32 v;
                        switch (r.below(9))
                        {
                            case 0: v = 0; break;
                            case 1: v = 1; break;
                            case 2: v = r.below(12); break;
                            case 3: v = left; break;
                            case 4: v = left - 10 + (u32) r.range(-3, 3); break;
                            case 5: v = 0x7FFFFFFF; break;
                            case 6: v = 0x80000000u + r.below(40); break;
                            case 7: v = 0xFFFFFFFFu - r.below(16); break;
                            default: v = (u32) r.next();
                        }
                        Bytes s;
                        if (t.version == 4 && v < (1u << 28)) putsync(s, v); else put32(s, v);
                        memcpy(&b[o + 4], s.data(), 4);
                    }
                }
                break;
            case 9: // a frame's id or first content bytes
                if (!t.offsets.empty())
                {
                    u32 o = r.pick_index(t.offsets);
                    if (o + 20 <= b.size())
                    {
                        if (r.chance(1, 2)) memcpy(&b[o], r.chance(1, 2) ? "COMM" : r.chance(1, 2) ? "APIC" : "TIT2", 4);
                        else b[o + 10 + r.below(10)] = r.pick(odd);
                    }
                }
                break;
            case 10: // the tag's size or flags
                if (b.size() >= 10)
                {
                    if (r.chance(1, 3)) b[5] = r.byte();
                    else b[6 + r.below(4)] = r.chance(1, 2) ? r.byte() : r.pick(odd);
                }
                break;
            default: { u32 k = std::min<u32>(r.below(60), (u32) b.size() - p); Bytes x(b.begin() + p, b.begin() + p + k); u32 q = r.below((u32) b.size()); b.insert(b.begin() + q, x.begin(), x.end()); }
        }
    }
    return b;
}

// One workload and oracle per property. Each function runs one case.
#pragma once
#include <sys/statvfs.h>
#include "engine.h"
#include "faults.h"

struct Ledger // allocator events, fed by the sanitizer's malloc hooks
{
    bool on;
    u64 blocks, bytes;        // allocated while on
    long live, live_bytes;
};
extern Ledger g_ledger;
void ledger_start();
void ledger_stop();
extern bool g_have_ledger, g_have_steps;

static inline Size pick_size(Rng& r, u32 large_in)
{
    if (large_in && r.chance(1, large_in)) return LARGE;
    return r.chance(1, 12) ? MEDIUM : SMALL;
}
static inline void edits(Rng& r, ID3v2_Tag* tag, Frames& model, OpMix mix, OpLog& log, int n)
{
    if (model.size() > 4000) n = std::min(n, 8);
    for (int i = 0; i < n; i++)
    {
        random_edit(r, tag, model, mix, log);
        if (mix.size == LARGE) mix.size = SMALL; // one huge frame per case
    }
    count("edits", (u64) n);
}
static inline int edit_count(Rng& r)
{
    u32 k = r.below(30);
    return k < 4 ? 0 : k < 20 ? r.range(1, 8) : k < 28 ? r.range(5, 25) : r.range(20, 80);
}
static inline const char* scratch(const char* name)
{
    // One lasting buffer per name: the result stays valid; no allocation, for the ledger's sake
    static thread_local struct { char name[64], path[600]; } t[64];
    for (int i = 0; i < 64; i++)
    {
        if (t[i].name[0] == '\0') { snprintf(t[i].name, sizeof t[i].name, "%s", name); path_in(t[i].path, sizeof t[i].path, name); }
        if (strcmp(t[i].name, name) == 0) return t[i].path;
    }
    fail("HARNESS", "too many scratch names");
}
static inline Bytes must_read(const char* path, const char* key)
{
    Bytes b;
    CHECK(read_file(path, b), key, "the file is gone");
    return b;
}

// ---- C01 -------------------------------------------------------------------------------------
static inline void call_everything(Rng& r, ID3v2_Tag* tag, const char* key)
{
    Frames model = view_tag(tag, key);
    count("hostile_frames_exposed", model.size());
    // lengths computed by the library on its own strings
    for (ID3v2_FrameList* l = tag->frames; l != NULL && l->frame != NULL; l = l->next)
    {
        Kind k = kind_of(l->frame->header->id);
        if (k == TEXT) { ID3v2_strlen(((ID3v2_TextFrame*) l->frame)->data->text); ID3v2_strlent(((ID3v2_TextFrame*) l->frame)->data->text); }
        if (k == COMM) { ID3v2_strlent(((ID3v2_CommentFrame*) l->frame)->data->short_description); ID3v2_strlen(((ID3v2_CommentFrame*) l->frame)->data->comment); }
        if (k == APIC) { ID3v2_strlent(((ID3v2_ApicFrame*) l->frame)->data->description); ID3v2_strlen(((ID3v2_ApicFrame*) l->frame)->data->mime_type); }
    }
    check_getters(r, tag, model, key);
    if (r.chance(1, 2)) { OpLog log; edits(r, tag, model, OpMix(), log, r.range(1, 6)); view_tag(tag, key); }
}
static inline void compat_walk(ID3v2_tag* t, const char* key)
{
    CHECK(t->tag_header != NULL && t->frames != NULL, key, "compat tag without header or list");
    INIT_CHECK(t->tag_header, 6);
    INIT_CHECK(&t->tag_header->tag_size, 8);
    u64 h = 0;
    for (ID3v2_frame_list* l = t->frames; l != NULL && l->frame != NULL; l = l->next)
    {
        CHECK(l->frame->size >= 0, key, "compat frame of size %d", l->frame->size);
        INIT_CHECK(l->frame, 4 + 4 + 2);
        INIT_CHECK(l->frame->data, (size_t) l->frame->size);
        h = hash_bytes(l->frame->data, (size_t) l->frame->size, h);
    }
    ID3v2_frame* text[] = {tag_get_title(t), tag_get_artist(t), tag_get_album(t), tag_get_album_artist(t), tag_get_genre(t), tag_get_track(t), tag_get_year(t), tag_get_disc_number(t), tag_get_composer(t)};
    for (int i = 0; i < 9; i++)
    {
        ID3v2_frame_text_content* c = parse_text_frame_content(text[i]);
        if (c != NULL) { CHECK(c->size >= 0, key, "compat text of size %d", c->size); INIT_CHECK(c->data, (size_t) c->size); h = hash_bytes(c->data, (size_t) c->size, h); free(c->data); free(c); }
    }
    ID3v2_frame_comment_content* c = parse_comment_frame_content(tag_get_comment(t));
    if (c != NULL)
    {
        INIT_CHECK(c->language, 3);
        INIT_CHECK(c->text->data, (size_t) c->text->size);
        h = hash_bytes(c->text->data, (size_t) c->text->size, h);
        Bytes d = copy_string(c->short_description, c->text->encoding);
        INIT_CHECK(d.data(), d.size());
        free(c->text);
        free(c);
    }
    ID3v2_frame_apic_content* a = parse_apic_frame_content(tag_get_album_cover(t));
    if (a != NULL)
    {
        INIT_CHECK(a->data, (size_t) a->picture_size);
        h = hash_bytes(a->data, (size_t) a->picture_size, h);
        Bytes d = copy_string(a->description, a->encoding), m = copy_mime(a->mime_type);
        INIT_CHECK(d.data(), d.size());
        INIT_CHECK(m.data(), m.size());
        free(a);
    }
    (void) h;
}
static inline void sane_padding(const ID3v2_Tag* t, const Bytes& in, const char* key)
{
    if (strcmp(key, "memory-safety") != 0) return;
    CHECK(t->padding_size >= 0 && (size_t) t->padding_size <= in.size(), key, "%d bytes of padding in %zu bytes", t->padding_size, in.size());
}
static inline void hostile_case(Rng& r, const Bytes& in, const char* key)
{
    bool any = false;
    {
        HeapCopy b(in);
        if (in.size() >= 10)
        {
            ID3v2_TagHeader* h = ID3v2_read_tag_header_from_buffer(b);
            if (h) { INIT_CHECK(&h->tag_size, 8); INIT_CHECK(h, 6); ID3v2_TagHeader_free(h); }
        }
        ID3v2_Tag* t = ID3v2_read_tag_from_buffer(b, (int) b.n);
        b.destroy();
        if (t) { any = true; sane_padding(t, in, key); call_everything(r, t, key); ID3v2_Tag_free(t); }
    }
    if (r.chance(1, 2))
    {
        HeapCopy b(in);
        ID3v2_tag* t = load_tag_with_buffer(b, (int) b.n);
        b.destroy();
        if (t)
        {
            compat_walk(t, key);
            if (r.chance(1, 2))
            {
                HeapCopy s(gen_input(r, SMALL));
                tag_set_title(s.p, 0, t);
                tag_set_comment(s.p, 0, t);
                s.destroy();
                compat_walk(t, key);
            }
            free_tag(t);
        }
    }
    if (r.chance(1, 2))
    {
        const char* path = scratch("hostile");
        write_file(path, in);
        ID3v2_TagHeader* h = ID3v2_read_tag_header(path);
        if (h) { INIT_CHECK(&h->tag_size, 8); INIT_CHECK(h, 6); ID3v2_TagHeader_free(h); }
        ID3v2_Tag* t = ID3v2_read_tag(path);
        if (t)
        {
            any = true;
            sane_padding(t, in, key);
            call_everything(r, t, key);
            if (r.chance(2, 3)) ID3v2_write_tag(path, t);
            ID3v2_Tag_free(t);
        }
        ID3v2_tag* c = load_tag(path);
        if (c)
        {
            if (in.size() == must_read(path, key).size()) sane_padding(c->tag, in, key);
            compat_walk(c, key);
            if (r.chance(1, 3)) set_tag(path, c);
            free_tag(c);
        }
        if (r.chance(1, 2)) ID3v2_delete_tag(path); else remove_tag(path);
    }
    if (any) { count("inputs_accepted_as_tags"); if (strcmp(key, "memory-safety") == 0) nontrivial(hash_bytes(in)); }
    else count("inputs_rejected");
}
// More frames than a call stack has room for
static inline Bytes gen_many_frames(Rng& r, u32 n)
{
    Bytes b, body;
    int version = r.range(3, 4);
    u32 kind = r.below(5);
    for (u32 i = 0; i < n; i++)
    {
        switch (kind == 4 ? r.below(4) : kind)
        {
            case 0: put(body, "TIT2\0\0\0\2\0\0\0x", 12); break;
            case 1: put(body, "COMM\0\0\0\6\0\0\0eng\0x", 16); break;
            case 2: put(body, "APIC\0\0\0\5\0\0\0\0\3\0x", 15); break;
            default: put(body, "PRIV\0\0\0\1\0\0x", 11);
        }
    }
    put(b, "ID3", 3); put8(b, (u32) version); put8(b, 0); put8(b, 0);
    putsync(b, (u32) body.size());
    put(b, body);
    return b;
}
static inline void run_C01(Rng& r)
{
    bool many = r.chance(1, 4000);
    Bytes in = many ? gen_many_frames(r, 100000 + r.below(150000)) : gen_hostile(r);
    if (many) count("inputs_with_very_many_frames");
    if (g_case % 997 == 5) sample("hostile input of %zu bytes: %s", in.size(), Hex(in).s);
    hostile_case(r, in, "memory-safety");
    // every truncation of a small input
    if (r.chance(1, 200) && in.size() < 3000)
    {
        for (size_t n = 0; n < in.size(); n += 1 + r.below(3))
        {
            Bytes part(in.begin(), in.begin() + (long) n);
            HeapCopy b(part);
            ID3v2_Tag* t = ID3v2_read_tag_from_buffer(b, (int) n);
            if (t) { view_tag(t, "memory-safety"); ID3v2_Tag_free(t); }
            count("truncations");
        }
    }
}

// ---- saving ----------------------------------------------------------------------------------
struct Saved // the common part of C02..C05: a file, a tag, edits, a save
{
    AnyFile file;
    Bytes before, after;
    Subject s;
    OpLog log;
    const char* path;
};
static inline void subject_for_save(Rng& r, Saved& c, Size sz, const char* key, bool conforming)
{
    c.path = scratch("song.mp3");
    do c.file = gen_file(r, sz); while (conforming && (c.file.kind == 1 || c.file.kind == 2));
    c.before = c.file.bytes;
    write_file(c.path, c.before);
    if (c.file.tagged && r.chance(2, 3))
    {
        c.s.tag = ID3v2_read_tag(c.path);
        CHECK(c.s.tag != NULL, key, "a tagged file is not read");
        c.s.loaded = true;
        c.s.source = c.file.tag;
        c.s.model = c.file.kind == 1 || c.file.kind == 2 ? view_tag(c.s.tag, key) : c.file.tag.expected();
    }
    else make_subject(r, c.s, sz == LARGE ? SMALL : sz, key);
}
// What the old API has for a tag: it is saved by set_tag like one that load_tag returned
struct OldTag
{
    ID3v2_tag t;
    ID3v2_header h;
    std::vector<Bytes> data;
    std::vector<ID3v2_frame> frames;
    std::vector<ID3v2_frame_list> nodes;
    OldTag(ID3v2_Tag* tag)
    {
        memcpy(h.tag, tag->header->identifier, 3);
        h.major_version = tag->header->major_version;
        h.minor_version = tag->header->minor_version;
        h.flags = tag->header->flags;
        h.tag_size = (int) tag->header->tag_size;
        h.extended_header_size = (int) tag->header->extended_header_size;
        Frames v = view_tag(tag, "saved");
        data.resize(v.size());
        frames.resize(v.size());
        nodes.resize(std::max<size_t>(v.size(), 1));
        const ID3v2_FrameList* l = tag->frames;
        for (size_t i = 0; i < nodes.size(); i++)
        {
            ID3v2_frame_list& n = nodes[i];
            n.frame = NULL;
            n.start = n.last = n.next = NULL;
            if (v.empty()) break;
            v[i].payload(data[i]);
            ID3v2_frame& f = frames[i];
            memcpy(f.frame_id, v[i].id, 4);
            memcpy(f.flags, v[i].flags, 2);
            f.size = (int) data[i].size();
            f.data = (char*) data[i].data();
            f.frame = l->frame;
            l = l->next;
            n.frame = &f;
            n.start = &nodes[0];
            n.next = i + 1 < nodes.size() ? &nodes[i + 1] : NULL;
        }
        if (!v.empty()) nodes[0].last = &nodes.back();
        t.raw = NULL;
        t.tag_header = &h;
        t.frames = &nodes[0];
        t.tag = tag;
    }
};
static inline void do_save(Rng& r, const char* path, ID3v2_Tag* tag)
{
    if (r.chance(1, 6))
    {
        OldTag old(tag);
        set_tag(path, &old.t);
        count("saves_by_the_old_api");
    }
    else ID3v2_write_tag(path, tag);
    count("saves");
}

// A file whose tag is up to 256 MB large, nearly all of it padding, and may be gigabytes long itself;
// the disk holds little of it
struct Sparse
{
    GenTag t;
    Bytes audio;
    u64 audio_at, file_size;
    bool make(Rng& r, const char* path, bool huge_file)
    {
        t = gen_tag(r, SMALL);
        t.flags &= ~0x50; // padding and footer exclude each other
        t.ext.clear();
        t.padding = 0;
        Bytes b = t.encode();
        static const u32 marks[] = {1u << 21, 1u << 24, 1u << 25, 1u << 26, 1u << 27, (1u << 28) - 1};
        u32 want = r.chance(1, 2) ? r.pick(marks) - r.below(3) : (u32) r.next() & 0xFFFFFFF;
        if (want < t.size + 10) want += t.size + 10;
        t.padding = want - t.size;
        t.size = want;
        t.total = want + 10;
        Bytes h;
        putsync(h, want);
        memcpy(b.data() + 6, h.data(), 4);
        audio = gen_audio(r, SMALL);
        audio_at = t.total;
        file_size = audio_at + audio.size();
        int fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0) harness_error("open");
        if (huge_file) // also sizes that are small modulo 2^32
            file_size = r.chance(1, 2) ? 2100000000ull + (r.next() & 0xFFFFFFFF) : (1ull << 32) + (r.chance(1, 2) ? r.below(t.total) : r.below(20));
        bool ok = write(fd, b.data(), b.size()) == (ssize_t) b.size() && ftruncate(fd, (off_t) file_size) == 0 &&
                  pwrite(fd, audio.data(), audio.size(), (off_t) audio_at) == (ssize_t) audio.size();
        close(fd);
        if (!ok) unlink(path); // a file system without holes or room: leave it
        return ok;
    }
};
static inline void sparse_save(Rng& r)
{
    const char* path = scratch("huge.mp3");
    Sparse f;
    if (!f.make(r, path, false)) return;
    Subject s;
    OpLog log;
    s.tag = ID3v2_Tag_new_empty();
    edits(r, s.tag, s.model, OpMix(), log, r.range(0, 4));
    ID3v2_write_tag(path, s.tag);
    Bytes after;
    struct stat st;
    CHECK(stat(path, &st) == 0 && st.st_size < 100000000, "audio", "a tag of %u bytes is still there after a small one was saved", f.t.total);
    after = must_read(path, "audio");
    Bytes audio = audio_of(after);
    CHECK(audio == f.audio, "audio", "the audio after a tag of %u bytes changed: %zu bytes instead of %zu", f.t.total, audio.size(), f.audio.size());
    count("saves_over_huge_tags");
    unlink(path);
    s.release();
}
static inline bool room_for(const char* dir, u64 bytes)
{
    struct statvfs v;
    return statvfs(dir, &v) == 0 && (u64) v.f_bavail * v.f_frsize > bytes;
}
static inline bool memory_for(u64 bytes)
{
    FILE* f = fopen("/proc/meminfo", "r");
    char line[200];
    unsigned long long kb = 0;
    while (f && fgets(line, sizeof line, f)) if (sscanf(line, "MemAvailable: %llu", &kb) == 1) break;
    if (f) fclose(f);
    return kb * 1024 > bytes;
}
// Audio of more than 2 or 4 gigabytes: zeros, with marks where offsets and sizes may wrap
struct BigAudio
{
    u64 at, size; // offset of the audio in the file, its length
    std::vector<std::pair<u64, Bytes>> marks;
    void mark(Rng& r, u64 from, size_t n) { marks.push_back(std::make_pair(from, gen_blob(r, (u32) n))); }
    bool make(Rng& r, const char* path, const Bytes& tag, u64 total)
    {
        if (!room_for(g_dir, total + 500000000) || !room_for("/tmp", total + 500000000) || !memory_for(2 * total + 4000000000ull)) return false;
        at = tag.size();
        size = total - at;
        mark(r, 0, 5000);
        for (u64 wrap = 1ull << 31; wrap < total; wrap *= 2)
        {
            mark(r, wrap - at - 3000, 5000);   // where the offset in the file wraps
            if (wrap < size) mark(r, wrap + 3000, 3000); // and the one in the audio
        }
        mark(r, size - 5000, 5000);
        int fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0) harness_error("open");
        bool ok = write(fd, tag.data(), tag.size()) == (ssize_t) tag.size() && ftruncate(fd, (off_t) total) == 0;
        for (size_t i = 0; ok && i < marks.size(); i++) ok = pwrite(fd, marks[i].second.data(), marks[i].second.size(), (off_t) (at + marks[i].first)) == (ssize_t) marks[i].second.size();
        close(fd);
        if (!ok) unlink(path);
        return ok;
    }
    // The file from this offset on is the audio
    void check(const char* path, u64 from, const char* key, const char* what)
    {
        struct stat st;
        CHECK(stat(path, &st) == 0 && (u64) st.st_size == from + size, key, "%s: %llu bytes of audio became %lld", what, (unsigned long long) size, (long long) st.st_size - (long long) from);
        int fd = open(path, O_RDONLY);
        if (fd < 0) fail(key, "%s: the file cannot be opened", what);
        Bytes got(1 << 20), want(1 << 20);
        for (u64 o = 0; o < size; o += want.size())
        {
            size_t n = (size_t) std::min<u64>(want.size(), size - o);
            memset(want.data(), 0, n);
            for (size_t i = 0; i < marks.size(); i++)
                for (u64 a = std::max(o, marks[i].first); a < std::min(o + n, marks[i].first + marks[i].second.size()); a++) want[a - o] = marks[i].second[a - marks[i].first];
            if (pread(fd, got.data(), n, (off_t) (from + o)) != (ssize_t) n) harness_error("pread");
            CHECK(memcmp(got.data(), want.data(), n) == 0, key, "%s: audio of %llu bytes changed between bytes %llu and %llu", what, (unsigned long long) size, (unsigned long long) o, (unsigned long long) (o + n));
        }
        close(fd);
        count_max("largest_audio", size);
    }
};
static inline u64 big_total(Rng& r) { return (g_case % 2 ? 1ull << 32 : 1ull << 31) + 100000 + r.below(300000); }
static inline void run_C02B(Rng& r)
{
    const char* path = scratch("big.mp3");
    GenTag old = gen_tag(r, SMALL);
    BigAudio a;
    if (!a.make(r, path, old.encode(), big_total(r))) { count("no_room_for_big_files"); return; }
    if (g_case % 4 < 2)
    {
        ID3v2_Tag* t = ID3v2_Tag_new_empty();
        ID3v2_Tag_set_title(t, "a title");
        ID3v2_write_tag(path, t);
        ID3v2_Tag_free(t);
    }
    else
    {
        ID3v2_tag* t = new_tag();
        char title[] = "a title";
        tag_set_title(title, 0, t);
        set_tag(path, t);
        free_tag(t);
    }
    u8 h[10] = {0};
    int fd = open(path, O_RDONLY);
    if (fd < 0 || read(fd, h, 10) != 10) harness_error("read");
    close(fd);
    u32 n = (u32) h[6] << 21 | (u32) h[7] << 14 | (u32) h[8] << 7 | h[9];
    CHECK(memcmp(h, "ID3", 3) == 0, "audio", "a file of more than 2 gigabytes has no tag after a save");
    a.check(path, 10ull + n, "audio", "a save");
    unlink(path);
    count("big_files_saved");
    nontrivial(r.next());
    sample("audio of %llu bytes unchanged by a save", (unsigned long long) a.size);
}
static inline void run_C09B(Rng& r)
{
    const char* path = scratch("big.mp3");
    GenTag old = gen_tag(r, SMALL);
    BigAudio a;
    if (!a.make(r, path, old.encode(), big_total(r))) { count("no_room_for_big_files"); return; }
    if (g_case % 4 < 2) ID3v2_delete_tag(path); else remove_tag(path);
    a.check(path, 0, "delete", "a deletion");
    unlink(path);
    count("big_files_stripped");
    nontrivial(r.next());
    sample("audio of %llu bytes left by a deletion", (unsigned long long) a.size);
}
static inline void run_C02(Rng& r)
{
    if (r.chance(1, 250)) sparse_save(r);
    Size sz = pick_size(r, 200);
    Saved c;
    subject_for_save(r, c, sz, "audio", false);
    OpMix mix;
    mix.size = r.chance(1, 4) ? sz : SMALL;
    CHECK(audio_of(c.before) == c.file.audio, "HARNESS", "reference offset of the audio");
    int rounds = r.range(1, 3);
    for (int i = 0; i < rounds; i++)
    {
        edits(r, c.s.tag, c.s.model, mix, c.log, edit_count(r));
        do_save(r, c.path, c.s.tag);
        c.after = must_read(c.path, "audio");
        Bytes audio = audio_of(c.after);
        if (audio != c.file.audio)
        {
            size_t d = first_diff(audio, c.file.audio);
            fail("audio", "audio changed by save %d: %zu bytes instead of %zu, first difference at %zu; old file of %zu bytes (%s tag), new file of %zu bytes; edits: %s", i, audio.size(), c.file.audio.size(), d, c.before.size(), c.file.tagged ? "with" : "no", c.after.size(), c.log.s);
        }
        if (r.chance(1, 4) && c.s.tag != NULL) // carry on with what is in the file
        {
            c.s.release();
            c.s.tag = ID3v2_read_tag(c.path);
            CHECK(c.s.tag != NULL, "audio", "a saved file is not read");
            c.s.model = view_tag(c.s.tag, "audio");
        }
        mix.size = SMALL;
    }
    count("audio_bytes_compared", c.file.audio.size());
    count_max("largest_audio", c.file.audio.size());
    if (!c.file.audio.empty() && c.after != c.before) nontrivial(hash_bytes(c.before) ^ hash_bytes(c.after));
    if (g_case % 397 == 3) sample("old file %zu bytes (tag %u, audio %zu), %u edits, new file %zu bytes", c.before.size(), c.file.tagged ? c.file.tag.total : 0, c.file.audio.size(), c.log.ops, c.after.size());
    c.s.release();
}

static inline void run_C03(Rng& r)
{
    Size sz = pick_size(r, 150);
    Saved c;
    OpMix mix;
    mix.size = sz;
    mix.mixed = true;
    mix.deletes = (u32) r.range(1, 5);
    subject_for_save(r, c, sz, "roundtrip", true);
    if (sz == LARGE) { mix.deletes = 0; }
    edits(r, c.s.tag, c.s.model, mix, c.log, sz == LARGE ? r.range(1, 4) : edit_count(r));
    int version = c.s.tag->header->major_version, minor = (u8) c.s.tag->header->minor_version;
    do_save(r, c.path, c.s.tag);
    ID3v2_Tag* back = ID3v2_read_tag(c.path);
    CHECK(back != NULL, "roundtrip", "the saved file has no tag; edits: %s", c.log.s);
    Frames got = view_tag(back, "roundtrip");
    CHECK(back->header->major_version == version && (u8) back->header->minor_version == minor, "roundtrip", "version %d.%d read back as %d.%d", version, minor, back->header->major_version, (u8) back->header->minor_version);
    check_frames(got, c.s.model, "roundtrip", "read back after save");
    Rng g(r.next());
    check_getters(g, back, c.s.model, "roundtrip");
    count("frames_compared", got.size());
    count(version == 4 ? "tags_v24" : "tags_v23");
    count_max("most_frames", got.size());
    for (size_t i = 0; i < got.size(); i++) count_max("largest_frame", got[i].payload_size());
    if (!got.empty()) nontrivial(hash_frames(got));
    if (g_case % 397 == 3) sample("v2.%d tag with %zu frames, %llu bytes; edits: %.200s", version, got.size(), (unsigned long long) model_size(c.s.model), c.log.s);
    ID3v2_Tag_free(back);
    c.s.release();
}

static inline void check_saved_frames(const Decoded& d, const Frames& model, const GenTag& source, const char* key, const char* log)
{
    for (size_t i = 0; i < d.frames.size() && i < model.size(); i++)
    {
        const RawFrame& f = d.frames[i];
        const VFrame& v = model[i];
        Bytes want, terminated;
        v.payload(terminated);
        want = v.origin >= 0 ? source.frames[(size_t) v.origin].payload : terminated;
        CHECK(memcmp(f.id, v.id, 4) == 0, key, "frame %zu of the saved file is %s instead of %s; edits: %s", i, f.id, v.id, log);
        CHECK(memcmp(f.flags, v.flags, 2) == 0, key, "flags of %s in the saved file: %02x%02x instead of %02x%02x", f.id, f.flags[0], f.flags[1], v.flags[0], v.flags[1]);
        if (f.payload != want && f.payload != terminated)
        {
            size_t k = first_diff(f.payload, want);
            fail(key, "content of %s (frame %zu, %s) in the saved file: %zu bytes instead of %zu, first difference at %zu: %s instead of %s", f.id, i, v.origin >= 0 ? "untouched" : "set", f.payload.size(), want.size(), k, Hex(f.payload, k).s, Hex(want, k).s);
        }
    }
    CHECK(d.frames.size() == model.size(), key, "%zu frames in the saved file instead of %zu; edits: %s", d.frames.size(), model.size(), log);
}

static inline void run_C04(Rng& r)
{
    Size sz = pick_size(r, 150);
    const char* path = scratch("song.mp3");
    GenTag t = gen_tag(r, sz);
    Bytes audio = gen_audio(r, SMALL), file = t.encode();
    put(file, audio);
    write_file(path, file);
    ID3v2_Tag* tag;
    if (r.chance(2, 3)) tag = ID3v2_read_tag(path);
    else { HeapCopy b(file); tag = ID3v2_read_tag_from_buffer(b, (int) b.n); }
    CHECK(tag != NULL, "untouched", "a conforming file is not read");
    Frames model = t.expected();
    OpLog log;
    OpMix mix;
    edits(r, tag, model, mix, log, r.chance(1, 4) ? 0 : r.range(1, 10));
    do_save(r, path, tag);
    Bytes after = must_read(path, "untouched");
    Decoded d;
    CHECK(decode_strict(after, d), "untouched", "the saved file is not readable: %s; edits: %s", d.error, log.s);
    check_saved_frames(d, model, t, "untouched", log.s);
    u64 kept = 0;
    for (size_t i = 0; i < model.size(); i++) if (model[i].origin >= 0) { kept++; static const char* const names[] = {"kept_text", "kept_comments", "kept_pictures", "kept_unknown"}; count(names[model[i].kind]); }
    if (kept) nontrivial(hash_bytes(file) ^ log.h);
    if (g_case % 397 == 3) sample("v2.%d, %zu frames, %llu kept; edits: %.200s", t.version, t.frames.size(), (unsigned long long) kept, log.s);
    ID3v2_Tag_free(tag);
}

// Tags around the 256 MB that the size field can express: saved whole or not at all
static inline void oversized_save(Rng& r)
{
    const u64 limit = (1u << 28) - 1;
    const char* path = scratch("big.mp3");
    AnyFile f = gen_file(r, SMALL);
    write_file(path, f.bytes);
    ID3v2_Tag* tag = ID3v2_Tag_new_empty();
    if (r.chance(1, 2)) tag->header->major_version = 4;
    // with 2048 bytes of padding this is the size of the tag
    bool fits = g_case % 18000 == 17 && room_for(g_dir, 2000000000) && room_for("/tmp", 2000000000);
    u64 total = fits ? limit - (r.chance(1, 2) ? 0 : r.below(3000)) : limit + 1 + (r.chance(1, 2) ? 0 : r.chance(1, 2) ? r.below(6000) : r.below(100000000));
    Bytes data = gen_blob(r, 1000);
    data.resize(140000000);
    int n = r.range(2, 3);
    u64 left = total - 2048, declared = 0;
    std::vector<u32> sizes;
    for (int i = 0; i < n; i++)
    {
        u32 part = (u32) (i == n - 1 ? left : left / (u32) (n - i));
        if (part > data.size()) { data.resize(part); }
        ID3v2_ApicFrameInput in = {"\0\0", "image/x", "d", 3, (int) part - (10 + 1 + 8 + 1 + 2), (char*) data.data()};
        ID3v2_Tag_add_apic_frame(tag, &in);
        left -= part;
        declared += part;
        sizes.push_back(part);
    }
    u32 size_before = tag->header->tag_size;
    CHECK(size_before == declared, "well-formed", "the tag's size is %u instead of %llu", size_before, (unsigned long long) declared);
    Bytes().swap(data);
    ID3v2_write_tag(path, tag);
    if (!fits)
    {
        struct stat st;
        CHECK(stat(path, &st) == 0 && (u64) st.st_size == f.bytes.size() && must_read(path, "well-formed") == f.bytes, "well-formed", "a tag of %llu bytes, too large for the format, was saved", (unsigned long long) total);
        CHECK(tag->header->tag_size == size_before && tag->padding_size == 0, "well-formed", "a save that is not possible changed the sizes of the tag");
        count("oversized_tags");
    }
    else
    {
        int fd = open(path, O_RDONLY);
        if (fd < 0) fail("well-formed", "the file cannot be opened");
        u8 h[10] = {0};
        Bytes tail(f.audio.size());
        struct stat st;
        CHECK(fstat(fd, &st) == 0 && (u64) st.st_size == total + 10 + tail.size(), "well-formed", "a file with a tag of %llu bytes has %lld bytes", (unsigned long long) total, (long long) st.st_size);
        bool got = pread(fd, h, 10, 0) == 10 && pread(fd, tail.data(), tail.size(), (off_t) total + 10) == (ssize_t) tail.size();
        u32 size = (u32) h[6] << 21 | (u32) h[7] << 14 | (u32) h[8] << 7 | h[9];
        CHECK(got && (h[6] | h[7] | h[8] | h[9]) < 0x80 && size == total, "well-formed", "the size %llu of a tag was saved as %u", (unsigned long long) total, size);
        CHECK(tail == f.audio, "well-formed", "audio after a tag of %llu bytes", (unsigned long long) total);
        u64 at = 10;
        for (int i = 0; i < n; i++)
        {
            CHECK(pread(fd, h, 10, (off_t) at) == 10 && memcmp(h, "APIC", 4) == 0, "well-formed", "picture %d of a tag of %llu bytes", i, (unsigned long long) total);
            u32 fs = tag->header->major_version == 4 ? (u32) h[4] << 21 | (u32) h[5] << 14 | (u32) h[6] << 7 | h[7] : (u32) h[4] << 24 | (u32) h[5] << 16 | (u32) h[6] << 8 | h[7];
            CHECK(fs + 10 == sizes[i], "well-formed", "picture of %u bytes saved as %u", sizes[i], fs + 10);
            at += sizes[i];
        }
        close(fd);
        count("largest_tags");
    }
    ID3v2_Tag_free(tag);
    unlink(path);
}
static inline void run_C05(Rng& r)
{
    if (g_case % 3000 == 17) oversized_save(r);
    Size sz = pick_size(r, 150);
    Saved c;
    OpMix mix;
    mix.size = r.chance(1, 2) ? sz : SMALL;
    subject_for_save(r, c, sz, "well-formed", true);
    int rounds = r.range(1, 3);
    for (int i = 0; i < rounds; i++)
    {
        edits(r, c.s.tag, c.s.model, mix, c.log, edit_count(r));
        mix.size = SMALL;
        int version = c.s.tag->header->major_version;
        do_save(r, c.path, c.s.tag);
        c.after = must_read(c.path, "well-formed");
        Decoded d;
        CHECK(decode_strict(c.after, d), "well-formed", "%s; edits: %s", d.error, c.log.s);
        CHECK(d.version == version, "well-formed", "version %d saved as %d", version, d.version);
        CHECK((d.flags & ~0x20) == 0, "well-formed", "flags %02x announce something that is not there", d.flags);
        int minor = c.s.loaded ? c.s.source.minor : 0;
        CHECK(d.minor == minor, "well-formed", "revision %d saved as %d", minor, d.minor);
        CHECK(d.audio_at + c.file.audio.size() == c.after.size(), "well-formed", "declared size %u puts the audio at %u, it is at %zu; edits: %s", d.size, d.audio_at, c.after.size() - c.file.audio.size(), c.log.s);
        CHECK(d.frames.size() == c.s.model.size(), "well-formed", "%zu frames instead of %zu; edits: %s", d.frames.size(), c.s.model.size(), c.log.s);
        CHECK(d.padding >= 2048, "well-formed", "only %u bytes of padding; edits: %s", d.padding, c.log.s);
        for (size_t k = 0; k < d.frames.size(); k++)
        {
            Bytes want;
            const VFrame& v = c.s.model[k];
            CHECK(memcmp(d.frames[k].id, v.id, 4) == 0, "well-formed", "frame %zu is %s instead of %s", k, d.frames[k].id, v.id);
            CHECK(d.frames[k].payload.size() == v.payload_size(), "well-formed", "frame %zu (%s) has %zu bytes instead of %u", k, v.id, d.frames[k].payload.size(), v.payload_size());
        }
        count("tags_decoded");
        count("frames_decoded", d.frames.size());
        if (!d.frames.empty()) nontrivial(hash_bytes(c.after.data(), d.audio_at));
    }
    if (g_case % 397 == 3) sample("v2.%d, %zu frames, saved %d times; edits: %.200s", c.s.tag->header->major_version, c.s.model.size(), rounds, c.log.s);
    c.s.release();
}

// ---- C06 -------------------------------------------------------------------------------------
static inline void run_C06(Rng& r)
{
    Subject s;
    make_subject(r, s, SMALL, "list-model");
    OpLog log;
    OpMix mix;
    mix.mixed = true;
    mix.deletes = (u32) r.range(2, 6);
    mix.size = pick_size(r, 300);
    int n = mix.size == LARGE ? r.range(1, 12) : r.chance(1, 20) ? r.range(60, 400) : r.range(1, 40);
    int large_at = mix.size == LARGE ? r.range(0, n - 1) : -1;
    if (mix.size == LARGE) mix.size = SMALL;
    if (n > 60) mix.deletes = (u32) r.range(0, 3);
    if (s.model.size() > 4000) n = std::min(n, 6);
    check_frames(view_tag(s.tag, "list-model"), s.model, "list-model", s.loaded ? "after loading" : "new tag");
    for (int i = 0; i < n; i++)
    {
        OpMix now = mix;
        if (i == large_at) { now.size = LARGE; now.deletes = 0; }
        random_edit(r, s.tag, s.model, now, log);
        char when[300];
        snprintf(when, sizeof when, "after step %d, history ends with ...%s", i, log.s + (log.n > 200 ? log.n - 200 : 0));
        check_frames(view_tag(s.tag, "list-model"), s.model, "list-model", when);
        if (n < 60 || r.chance(1, 10)) check_getters(r, s.tag, s.model, "list-model");
        count("steps_compared");
        count_max("longest_list", s.model.size());
        if (s.model.empty()) count("empty_list_states");
    }
    if (r.chance(1, 8) && s.model.size() < 4000) // down to nothing and up again
    {
        while (!s.model.empty())
        {
            char id[5];
            memcpy(id, s.model[r.below((u32) s.model.size())].id, 5);
            ID3v2_Tag_delete_frame(s.tag, id);
            model_delete(s.model, id);
            check_frames(view_tag(s.tag, "list-model"), s.model, "list-model", "while deleting everything");
        }
        check_getters(r, s.tag, s.model, "list-model");
        for (int i = 0; i < 4; i++) random_edit(r, s.tag, s.model, mix, log);
        check_frames(view_tag(s.tag, "list-model"), s.model, "list-model", "after emptying the tag and setting frames again");
        count("emptied_tags");
    }
    nontrivial(log.h ^ hash_frames(s.model));
    if (g_case % 397 == 3) sample("%d steps ending with %zu frames: %.300s", n, s.model.size(), log.s);
    s.release();
}

// ---- C07 -------------------------------------------------------------------------------------
static inline void check_loaded(ID3v2_Tag* tag, const GenTag& t, const Frames& want, const char* key, const char* when)
{
    CHECK(tag != NULL, key, "%s: a conforming tag is not read", when);
    check_frames(view_tag(tag, key), want, key, when);
    CHECK(memcmp(tag->header->identifier, "ID3", 3) == 0, key, "%s: identifier", when);
    CHECK((u8) tag->header->major_version == t.version && (u8) tag->header->minor_version == t.minor, key, "%s: version %d.%d instead of %d.%d", when, tag->header->major_version, tag->header->minor_version, t.version, t.minor);
    CHECK((u8) tag->header->flags == t.flags, key, "%s: flags %02x instead of %02x", when, (u8) tag->header->flags, t.flags);
    CHECK(tag->header->tag_size == t.size, key, "%s: tag size %u instead of %u", when, tag->header->tag_size, t.size);
    CHECK(tag->padding_size == (int) t.padding, key, "%s: padding %d instead of %u", when, tag->padding_size, t.padding);
}
static inline void sparse_read(Rng& r)
{
    const char* path = scratch("huge.mp3");
    Sparse f;
    if (!f.make(r, path, r.chance(1, 2))) return;
    ID3v2_Tag* tag = ID3v2_read_tag(path);
    check_loaded(tag, f.t, f.t.expected(), "decode", "a tag with very much padding");
    ID3v2_Tag_free(tag);
    ID3v2_TagHeader* h = ID3v2_read_tag_header(path);
    CHECK(h != NULL && h->tag_size == f.t.size, "decode", "the header of a tag of %u bytes: size %u", f.t.size, h ? h->tag_size : 0);
    ID3v2_TagHeader_free(h);
    unlink(path);
    count("huge_files_decoded");
}
static inline void run_C07(Rng& r)
{
    if (r.chance(1, 1000)) sparse_read(r);
    Size sz = pick_size(r, 120);
    GenTag t = gen_tag(r, sz);
    Bytes enc = t.encode(), audio = gen_audio(r, SMALL), file = enc;
    put(file, audio);
    Frames want = t.expected();
    {
        HeapCopy b(r.chance(1, 2) ? enc : file);
        ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(b, (int) b.n);
        b.destroy();
        check_loaded(tag, t, want, "decode", "from a buffer");
        check_getters(r, tag, want, "decode");
        ID3v2_Tag_free(tag);
    }
    if (r.chance(1, 2))
    {
        const char* path = scratch("song.mp3");
        write_file(path, file);
        ID3v2_Tag* tag = ID3v2_read_tag(path);
        check_loaded(tag, t, want, "decode", "from a file");
        ID3v2_Tag_free(tag);
        ID3v2_TagHeader* h = ID3v2_read_tag_header(path);
        CHECK(h != NULL, "decode", "the header of a conforming file is not read");
        CHECK(memcmp(h->identifier, "ID3", 3) == 0 && (u8) h->major_version == t.version && (u8) h->minor_version == t.minor && (u8) h->flags == t.flags && h->tag_size == t.size, "decode", "header: version %d.%d flags %02x size %u instead of %d.%d %02x %u", h->major_version, h->minor_version, (u8) h->flags, h->tag_size, t.version, t.minor, t.flags, t.size);
        ID3v2_TagHeader_free(h);
        count("files_decoded");
    }
    count("frames_compared", want.size());
    count_max("largest_tag", t.total);
    if (t.flags & 0x40) count("with_extended_header");
    if (t.footer()) count("with_footer");
    for (size_t i = 0; i < want.size(); i++) { static const char* const names[] = {"text_frames", "comment_frames", "picture_frames", "unknown_frames"}; count(names[want[i].kind]); }
    if (!want.empty()) nontrivial(hash_bytes(enc));
    if (g_case % 397 == 3) sample("v2.%d flags %02x, %zu frames, padding %u: %s", t.version, t.flags, want.size(), t.padding, Hex(enc).s);
}

// ---- C08 -------------------------------------------------------------------------------------
static inline Bytes gen_untagged(Rng& r)
{
    Bytes b;
    switch (r.below(9))
    {
        case 0: b = gen_blob(r, r.below(10)); break;                                   // too short
        case 1: { GenTag t = gen_tag(r, SMALL); b = t.encode(); b.resize(r.below(10)); break; } // cut within the header
        case 2: case 3: // another version
        {
            GenTag t = gen_tag(r, SMALL);
            b = t.encode();
            static const u8 v[] = {0, 1, 2, 5, 6, 0x7F, 0x83, 0x84, 0xFF, 0x23, 0x33, '3', '4'};
            b[3] = r.pick(v);
            break;
        }
        case 4: case 5: // almost the identifier
        {
            GenTag t = gen_tag(r, SMALL);
            b = t.encode();
            static const char* const ids[] = {"ID2", "ID4", "id3", "3DI", "TAG", "ID\0", "IDE", "JD3", "\0D3", "Id3", "I\0""3", " ID"};
            memcpy(b.data(), r.pick(ids), 3);
            break;
        }
        case 6: { GenTag t = gen_tag(r, SMALL); Bytes e = t.encode(); b = gen_blob(r, 1 + r.below(20)); put(b, e); break; } // a tag that is not at the start
        default: b = gen_audio(r, SMALL);
    }
    if (b.size() >= 10 && memcmp(b.data(), "ID3", 3) == 0 && (b[3] == 3 || b[3] == 4)) b[0] = 'X';
    return b;
}
static inline void all_readers_null(const char* path, const char* what)
{
    ID3v2_Tag* t = ID3v2_read_tag(path);
    CHECK(t == NULL, "no-tag", "ID3v2_read_tag returns a tag for %s", what);
    ID3v2_TagHeader* h = ID3v2_read_tag_header(path);
    CHECK(h == NULL, "no-tag", "ID3v2_read_tag_header returns a header for %s", what);
    ID3v2_tag* c = load_tag(path);
    CHECK(c == NULL, "no-tag", "load_tag returns a tag for %s", what);
    // what the readers return is accepted by the getters
    ID3v2_FrameList *l1 = ID3v2_Tag_get_frames(t, "TIT2"), *l2 = ID3v2_Tag_get_comment_frames(t), *l3 = ID3v2_Tag_get_apic_frames(t);
    CHECK(l1 == NULL && l2 == NULL && l3 == NULL && ID3v2_Tag_get_frame(t, "TIT2") == NULL && ID3v2_Tag_get_comment_frame(t) == NULL && ID3v2_Tag_get_album_cover_frame(t) == NULL, "no-tag", "frames of a tag that is not there");
    for (int i = 0; i < 9; i++) CHECK(NAMED[i].get(t) == NULL, "no-tag", "the %s frame of a tag that is not there", NAMED[i].id);
    count("null_results", 3);
}
// A file of gigabytes without a tag
static inline void sparse_untagged(Rng& r)
{
    const char* path = scratch("huge.bin");
    Bytes b = gen_untagged(r);
    u64 total = (r.chance(1, 2) ? 1ull << 32 : 1ull << 31) + r.below(20000);
    write_file(path, b);
    if (truncate(path, (off_t) total) != 0) { unlink(path); return; }
    if (b.size() < 10) b.resize(10); // what lies there now
    if (memcmp(b.data(), "ID3\3", 4) == 0 || memcmp(b.data(), "ID3\4", 4) == 0) { unlink(path); return; }
    all_readers_null(path, "a file of gigabytes");
    ID3v2_write_tag(path, NULL);
    if (r.chance(1, 2)) ID3v2_delete_tag(path); else remove_tag(path);
    struct stat st;
    CHECK(stat(path, &st) == 0 && (u64) st.st_size == total, "no-tag", "a file of %llu bytes without a tag has %lld bytes after deleting its tag", (unsigned long long) total, (long long) st.st_size);
    unlink(path);
    count("huge_untagged_files");
}
static inline void run_C08(Rng& r)
{
    if (r.chance(1, 500)) sparse_untagged(r);
    u32 k = r.below(10);
    if (k < 6)
    {
        Bytes b = gen_untagged(r);
        const char* path = scratch("plain.mp3");
        write_file(path, b);
        char what[120];
        snprintf(what, sizeof what, "%zu bytes starting with %.24s", b.size(), Hex(b).s);
        all_readers_null(path, what);
        HeapCopy h(b);
        ID3v2_Tag* t = ID3v2_read_tag_from_buffer(h, (int) h.n);
        CHECK(t == NULL, "no-tag", "ID3v2_read_tag_from_buffer returns a tag for %s", what);
        ID3v2_tag* c = load_tag_with_buffer(h, (int) h.n);
        CHECK(c == NULL, "no-tag", "load_tag_with_buffer returns a tag for %s", what);
        if (b.size() >= 10)
        {
            ID3v2_TagHeader* th = ID3v2_read_tag_header_from_buffer(h);
            CHECK(th == NULL, "no-tag", "ID3v2_read_tag_header_from_buffer returns a header for %s", what);
        }
        CHECK(must_read(path, "no-tag") == b, "no-tag", "reading changed the file (%s)", what);
        ID3v2_write_tag(path, NULL);
        CHECK(must_read(path, "no-tag") == b, "no-tag", "saving no tag at all changed a file (%s)", what);
        ID3v2_delete_tag(path);
        CHECK(must_read(path, "no-tag") == b, "no-tag", "ID3v2_delete_tag changed a file without tag (%s)", what);
        remove_tag(path);
        CHECK(must_read(path, "no-tag") == b, "no-tag", "remove_tag changed a file without tag (%s)", what);
        count("untagged_contents");
        if (b.size() >= 3) nontrivial(hash_bytes(b));
        if (g_case % 397 == 3) sample("untagged: %s", what);
    }
    else if (k < 8)
    {
        // reading never changes a file, whatever is in it
        Bytes b;
        if (r.chance(1, 2)) b = gen_hostile(r);
        else { AnyFile f = gen_file(r, SMALL); b = f.bytes; }
        const char* path = scratch("song.mp3");
        write_file(path, b);
        ID3v2_Tag* t = ID3v2_read_tag(path);
        ID3v2_TagHeader* h = ID3v2_read_tag_header(path);
        ID3v2_tag* c = load_tag(path);
        if (t) ID3v2_Tag_free(t);
        if (h) ID3v2_TagHeader_free(h);
        if (c) free_tag(c);
        CHECK(must_read(path, "no-tag") == b, "no-tag", "reading changed a file of %zu bytes", b.size());
        count("files_compared_after_reading");
    }
    else
    {
        // paths that cannot be read
        static int serial;
        char path[700];
        u32 m = r.below(6);
        snprintf(path, sizeof path, "%s/missing-%d%s", g_dir, serial++, m == 0 ? ".mp3" : m == 1 ? "/deeper/file.mp3" : "");
        if (m == 2) snprintf(path, sizeof path, "%s", g_dir); // a directory
        if (m == 3) { const char* f = scratch("plain.mp3"); write_file(f, Bytes(20, 'x')); snprintf(path, sizeof path, "%s/x", f); }
        if (m == 4) { if (symlink("nowhere-at-all", path) != 0) harness_error("symlink"); }
        if (m == 5) path[0] = 0;
        all_readers_null(path, "a path that cannot be read");
        ID3v2_delete_tag(path);
        remove_tag(path);
        Subject s;
        make_subject(r, s, SMALL, "no-tag");
        OpLog log;
        edits(r, s.tag, s.model, OpMix(), log, r.range(0, 4));
        ID3v2_write_tag(path, NULL);
        ID3v2_write_tag(path, s.tag);
        check_frames(view_tag(s.tag, "no-tag"), s.model, "no-tag", "after saving to a path that cannot be written");
        ID3v2_tag* c = new_tag();
        set_tag(path, c);
        free_tag(c);
        OldTag old(s.tag);
        set_tag(path, &old.t);
        s.release();
        if (m == 4) { CHECK(unlink(path) == 0, "no-tag", "a dangling symbolic link was replaced"); const char* target = scratch("nowhere-at-all"); CHECK(access(target, F_OK) != 0, "no-tag", "the target of a dangling symbolic link was created"); }
        else if (m < 2) CHECK(access(path, F_OK) != 0, "no-tag", "a missing path was created: case %u", m);
        count("unreadable_paths");
        nontrivial(mix(m) ^ log.h);
    }
}

// ---- C09 -------------------------------------------------------------------------------------
static inline void sparse_delete(Rng& r)
{
    const char* path = scratch("huge.mp3");
    Sparse f;
    if (!f.make(r, path, false)) return;
    if (r.chance(1, 2)) ID3v2_delete_tag(path); else remove_tag(path);
    struct stat st;
    CHECK(stat(path, &st) == 0 && (u64) st.st_size == f.audio.size(), "delete", "deleting a tag of %u bytes left %lld bytes instead of %zu", f.t.total, (long long) st.st_size, f.audio.size());
    CHECK(must_read(path, "delete") == f.audio, "delete", "deleting a tag of %u bytes changed the audio", f.t.total);
    unlink(path);
    count("huge_tags_deleted");
}
static inline void run_C09(Rng& r)
{
    if (r.chance(1, 250)) sparse_delete(r);
    Size sz = pick_size(r, 200);
    AnyFile f;
    do f = gen_file(r, sz); while (!f.tagged);
    const char* path = scratch("song.mp3");
    write_file(path, f.bytes);
    if (r.chance(1, 4)) // as the library itself would have left it
    {
        Subject s;
        make_subject(r, s, SMALL, "delete");
        ID3v2_write_tag(path, s.tag);
        s.release();
    }
    Bytes before = must_read(path, "delete");
    if (r.chance(1, 2)) ID3v2_delete_tag(path); else remove_tag(path);
    Bytes after = must_read(path, "delete");
    if (after != f.audio) fail("delete", "deleting the tag of a file of %zu bytes (tag of %zu) left %zu bytes instead of %zu, first difference at %zu", before.size(), audio_offset(before), after.size(), f.audio.size(), first_diff(after, f.audio));
    if (audio_offset(f.audio) == 0)
    {
        ID3v2_delete_tag(path);
        CHECK(must_read(path, "delete") == f.audio, "delete", "deleting again changed the file");
        count("deleted_twice");
    }
    count("tags_deleted");
    if (f.tag.footer()) count("with_footer");
    if (f.audio.empty()) count("without_audio");
    count("audio_bytes_compared", f.audio.size());
    nontrivial(hash_bytes(before));
    if (g_case % 397 == 3) sample("file of %zu bytes, tag of %zu, %zu left", before.size(), audio_offset(before), after.size());
}

// ---- C13 -------------------------------------------------------------------------------------
static inline void run_C13(Rng& r)
{
    Size sz = pick_size(r, 300);
    Saved c;
    OpMix mix;
    subject_for_save(r, c, sz, "stable", false);
    edits(r, c.s.tag, c.s.model, mix, c.log, edit_count(r));
    Frames frames = view_tag(c.s.tag, "stable");
    do_save(r, c.path, c.s.tag);
    Bytes first = must_read(c.path, "stable");
    check_frames(view_tag(c.s.tag, "stable"), frames, "stable", "frames in memory after a save");
    int cycles = r.range(1, 6);
    for (int i = 0; i < cycles; i++)
    {
        const char* how;
        switch (r.below(4))
        {
            case 0:
                how = "saving the same tag again";
                do_save(r, c.path, c.s.tag);
                check_frames(view_tag(c.s.tag, "stable"), frames, "stable", how);
                break;
            case 1:
            {
                how = "loading and saving";
                ID3v2_Tag* t = ID3v2_read_tag(c.path);
                CHECK(t != NULL, "stable", "a saved file is not read");
                do_save(r, c.path, t);
                ID3v2_Tag_free(t);
                break;
            }
            case 2:
            {
                how = "loading from a buffer and saving";
                Bytes now = must_read(c.path, "stable");
                HeapCopy b(now);
                ID3v2_Tag* t = ID3v2_read_tag_from_buffer(b, (int) b.n);
                CHECK(t != NULL, "stable", "a saved file is not read");
                do_save(r, c.path, t);
                do_save(r, c.path, t);
                ID3v2_Tag_free(t);
                break;
            }
            default:
            {
                how = "loading and saving through the compatibility layer";
                ID3v2_tag* t = load_tag(c.path);
                CHECK(t != NULL, "stable", "a saved file is not read");
                set_tag(c.path, t);
                free_tag(t);
            }
        }
        Bytes now = must_read(c.path, "stable");
        if (now != first) fail("stable", "%s changed the file: %zu bytes, %zu before, first difference at %zu (cycle %d; edits: %s)", how, now.size(), first.size(), first_diff(now, first), i, c.log.s);
        count("cycles");
    }
    // a save that fails leaves the frames alone as well
    ID3v2_write_tag(scratch("missing/x.mp3"), c.s.tag);
    check_frames(view_tag(c.s.tag, "stable"), frames, "stable", "frames in memory after a failed save");
    if (!frames.empty()) nontrivial(hash_bytes(first));
    if (g_case % 397 == 3) sample("%zu frames, file of %zu bytes unchanged over %d cycles", frames.size(), first.size(), cycles);
    c.s.release();
}

// ---- C14 -------------------------------------------------------------------------------------
static inline void agree_case(Rng& r, const Bytes& b)
{
    const char* path = scratch("song.mp3");
    write_file(path, b);
    ID3v2_Tag* tf = ID3v2_read_tag(path);
    HeapCopy hb(b);
    ID3v2_Tag* tb = ID3v2_read_tag_from_buffer(hb, (int) hb.n);
    CHECK((tf != NULL) == (tb != NULL), "agree", "%zu bytes: the file reader returns %s, the buffer reader %s", b.size(), tf ? "a tag" : "NULL", tb ? "a tag" : "NULL");
    ID3v2_TagHeader* hf = ID3v2_read_tag_header(path);
    ID3v2_TagHeader* hh = b.size() >= 10 ? ID3v2_read_tag_header_from_buffer(hb) : NULL;
    CHECK((hf != NULL) == (tf != NULL) && (hh != NULL) == (tf != NULL), "agree", "%zu bytes: header readers and tag readers disagree about the presence of a tag", b.size());
    if (tf != NULL)
    {
        check_frames(view_tag(tf, "agree"), view_tag(tb, "agree"), "agree", "file compared with buffer");
        CHECK(tf->padding_size == tb->padding_size, "agree", "padding %d from the file, %d from the buffer", tf->padding_size, tb->padding_size);
        ID3v2_TagHeader* all[] = {tf->header, tb->header, hf, hh};
        for (int i = 1; i < 4; i++)
            CHECK(all[i]->major_version == all[0]->major_version && all[i]->minor_version == all[0]->minor_version && all[i]->flags == all[0]->flags && all[i]->tag_size == all[0]->tag_size, "agree", "header reader %d: version %d.%d flags %02x size %u, file reader: %d.%d %02x %u", i, all[i]->major_version, all[i]->minor_version, (u8) all[i]->flags, all[i]->tag_size, all[0]->major_version, all[0]->minor_version, (u8) all[0]->flags, all[0]->tag_size);
        // Anything may follow a complete tag
        size_t end = 10 + (size_t) tf->header->tag_size;
        if (end <= b.size())
        {
            Frames want = view_tag(tf, "agree");
            for (int i = 0; i < 3; i++)
            {
                Bytes x(b.begin(), b.begin() + (long) end);
                if (i > 0)
                {
                    Bytes tail = gen_blob(r, r.below(400));
                    if (i == 2) { GenTag t = gen_tag(r, SMALL); tail = t.encode(); tail.erase(tail.begin(), tail.begin() + 10); }
                    put(x, tail);
                }
                HeapCopy hx(x);
                ID3v2_Tag* tx = ID3v2_read_tag_from_buffer(hx, (int) hx.n);
                CHECK(tx != NULL, "agree", "a tag is not read when %zu bytes follow it", x.size() - end);
                check_frames(view_tag(tx, "agree"), want, "agree", "with other bytes after the tag");
                CHECK(tx->padding_size == tf->padding_size, "agree", "padding %d with %zu bytes after the tag, %d otherwise", tx->padding_size, x.size() - end, tf->padding_size);
                ID3v2_Tag_free(tx);
                count("trailing_data_compared");
            }
        }
        nontrivial(hash_bytes(b));
        count("tags_compared");
        count("frames_compared", view_tag(tf, "agree").size());
        ID3v2_Tag_free(tf);
        ID3v2_Tag_free(tb);
        ID3v2_TagHeader_free(hf);
        ID3v2_TagHeader_free(hh);
    }
    else count("null_agreements");
    if (g_case % 397 == 3) sample("%zu bytes: %s", b.size(), Hex(b).s);
}
static inline void sparse_agree(Rng& r)
{
    const char* path = scratch("huge.mp3");
    Sparse f;
    if (!f.make(r, path, true)) return;
    ID3v2_Tag* tf = ID3v2_read_tag(path);
    ID3v2_TagHeader* hf = ID3v2_read_tag_header(path);
    Bytes b(f.audio_at + 5);
    int fd = open(path, O_RDONLY);
    if (fd < 0 || read(fd, b.data(), b.size()) != (ssize_t) b.size()) harness_error("read");
    close(fd);
    ID3v2_Tag* tb = ID3v2_read_tag_from_buffer((const char*) b.data(), (int) b.size());
    CHECK(tf != NULL && tb != NULL && hf != NULL, "agree", "a file of %llu bytes with a tag of %u: a reader returns NULL", (unsigned long long) f.file_size, f.t.total);
    check_frames(view_tag(tf, "agree"), view_tag(tb, "agree"), "agree", "a huge file compared with a buffer");
    CHECK(tf->padding_size == tb->padding_size && tf->header->tag_size == tb->header->tag_size && hf->tag_size == tf->header->tag_size, "agree", "file of %llu bytes: padding %d and %d, size %u and %u and %u", (unsigned long long) f.file_size, tf->padding_size, tb->padding_size, tf->header->tag_size, tb->header->tag_size, hf->tag_size);
    ID3v2_Tag_free(tf);
    ID3v2_Tag_free(tb);
    ID3v2_TagHeader_free(hf);
    unlink(path);
    count("huge_files_compared");
}
static inline void run_C14(Rng& r)
{
    if (r.chance(1, 2000)) sparse_agree(r);
    if (r.chance(1, 2)) agree_case(r, gen_hostile(r));
    else agree_case(r, gen_file(r, pick_size(r, 300)).bytes);
}

// ---- C15 -------------------------------------------------------------------------------------
static inline void check_sizes(const ID3v2_Tag* t, const Frames& model, const char* when, const OpLog& log)
{
    size_t i = 0;
    for (const ID3v2_FrameList* l = t->frames; l != NULL && l->frame != NULL; l = l->next, i++)
    {
        CHECK(i < model.size(), "sizes", "%s: too many frames; edits: %s", when, log.s);
        CHECK(l->frame->header->size == (int) model[i].payload_size(), "sizes", "%s: %s declares %d bytes, its content takes %u; edits: %s", when, model[i].id, l->frame->header->size, model[i].payload_size(), log.s);
    }
    u64 want = model_size(model) + (u64) t->padding_size;
    CHECK(t->padding_size >= 0, "sizes", "%s: padding %d", when, t->padding_size);
    CHECK(t->header->tag_size == want, "sizes", "%s: tag size %u, frames and padding take %llu (padding %d); edits: %s", when, t->header->tag_size, (unsigned long long) want, t->padding_size, log.s);
    count("size_checks");
}
// A save that is refused because the tag is too large for a file
static inline void refused_sizes(Rng& r)
{
    const char* path = scratch("song.mp3");
    Bytes audio = gen_audio(r, SMALL), data((size_t) r.range(134300000, 140000000));
    write_file(path, audio);
    ID3v2_Tag* t = ID3v2_Tag_new_empty();
    for (int i = 0; i < 2; i++)
    {
        ID3v2_ApicFrameInput in = {"\0\0", "image/x", "d", 3, (int) data.size(), (char*) data.data()};
        ID3v2_Tag_add_apic_frame(t, &in);
    }
    for (int i = 0; i < 3; i++)
    {
        u64 sum = 0;
        for (const ID3v2_FrameList* l = t->frames; l != NULL && l->frame != NULL; l = l->next) sum += (u64) l->frame->header->size + 10;
        CHECK(t->padding_size >= 0, "sizes", "padding %d", t->padding_size);
        CHECK(t->header->tag_size == sum + (u64) t->padding_size, "sizes", "after %d refused saves: tag size %u, frames and padding take %llu (padding %d)", i, t->header->tag_size, (unsigned long long) sum + (u64) t->padding_size, t->padding_size);
        if (i < 2) ID3v2_write_tag(path, t);
    }
    CHECK(must_read(path, "sizes") == audio, "sizes", "a save of a tag that is too large changed the file");
    ID3v2_Tag_free(t);
    count("refused_saves", 2);
}
static inline void run_C15(Rng& r)
{
    if (r.chance(1, 3000)) { refused_sizes(r); nontrivial(r.next()); return; }
    Size sz = pick_size(r, 400);
    OpLog log;
    OpMix mix;
    mix.size = sz;
    mix.deletes = (u32) r.range(2, 6);
    Subject s;
    const char* path = scratch("song.mp3");
    Bytes audio = gen_audio(r, SMALL);
    write_file(path, audio);
    if (r.chance(1, 3))
    {
        // saved by the library on an earlier occasion
        make_subject(r, s, sz == LARGE ? SMALL : sz, "sizes");
        ID3v2_write_tag(path, s.tag);
        s.release();
        s.tag = ID3v2_read_tag(path);
        CHECK(s.tag != NULL, "sizes", "a saved file is not read");
        check_sizes(s.tag, s.model, "after loading a saved file", log);
    }
    else
    {
        s.tag = r.chance(1, 2) ? ID3v2_Tag_new_empty() : ID3v2_Tag_new(NULL, 0);
        if (r.chance(1, 4)) s.tag->header->major_version = 4;
        check_sizes(s.tag, s.model, "new tag", log);
    }
    int n = r.range(1, 30);
    if (s.model.size() > 4000) n = std::min(n, 6);
    for (int i = 0; i < n; i++)
    {
        if (r.chance(1, 8))
        {
            do_save(r, path, s.tag);
            log.add("save");
            Bytes f = must_read(path, "sizes");
            Decoded d;
            CHECK(decode_strict(f, d), "sizes", "saved file: %s", d.error);
            CHECK(s.tag->header->tag_size == d.size, "sizes", "after a save the tag declares %u bytes in memory, %u in the file; edits: %s", s.tag->header->tag_size, d.size, log.s);
            CHECK(s.tag->padding_size == (int) d.padding, "sizes", "after a save padding is %d in memory, %u in the file", s.tag->padding_size, d.padding);
            check_sizes(s.tag, s.model, "after a save", log);
            count("sizes_compared_with_file");
            if (r.chance(1, 2))
            {
                s.release();
                s.tag = ID3v2_read_tag(path);
                CHECK(s.tag != NULL, "sizes", "a saved file is not read");
                log.add("reload");
                check_sizes(s.tag, s.model, "after reloading", log);
            }
        }
        random_edit(r, s.tag, s.model, mix, log);
        mix.size = sz == LARGE ? SMALL : sz;
        check_sizes(s.tag, s.model, "after an edit", log);
    }
    nontrivial(log.h);
    if (g_case % 397 == 3) sample("%d steps, %zu frames, tag size %u: %.200s", n, s.model.size(), s.tag->header->tag_size, log.s);
    s.release();
}

// ---- C18 -------------------------------------------------------------------------------------
static inline void run_C18(Rng& r)
{
    for (int rep = 0; rep < 20; rep++)
    {
        // plain bytes without NUL; a lone FF or FE is not a BOM
        bool huge = r.chance(1, 4000);
        u32 len = huge ? gen_len(r, LARGE) : r.chance(1, 300) ? 65535 + r.below(3) : gen_len(r, r.chance(1, 40) ? MEDIUM : SMALL);
        if (huge) { if (len > 6000000) len = 4194304 + len % 65536; count("huge_strings"); }
        Bytes iso = gen_iso(r, len);
        len = (u32) iso.size();
        if (len >= 1 && r.chance(1, 8)) iso[0] = r.chance(1, 2) ? 0xFF : 0xFE;
        if (len >= 2 && has_bom(iso)) iso[1] = r.chance(1, 2) ? iso[0] : 'a';
        put8(iso, 0);
        HeapCopy s(iso);
        int n = ID3v2_strlen(s), nt = ID3v2_strlent(s);
        CHECK(n == (int) len && nt == (int) len + 1, "strings", "lengths of an ISO string of %u bytes: %d and %d with terminator (%s)", len, n, nt, Hex(iso).s);
        char* u = ID3v2_to_unicode(s.p);
        CHECK(u != NULL && u != s.p, "strings", "conversion of an ISO string of %u bytes is not in fresh memory", len);
        Bytes want;
        put(want, "\xFF\xFE", 2);
        for (u32 i = 0; i < len; i++) { put8(want, iso[i]); put8(want, 0); }
        put(want, "\0\0", 2);
        CHECK(memcmp(s.p, iso.data(), iso.size()) == 0, "strings", "conversion changed its input");
        s.destroy(); // fresh memory does not depend on the input
        Bytes got;
        put(got, u, want.size());
        if (got != want) { size_t d = first_diff(got, want); fail("strings", "conversion of %s: differs at %zu: %s instead of %s", Hex(iso).s, d, Hex(got, d).s, Hex(want, d).s); }
        CHECK(ID3v2_strlen(u) == (int) want.size() - 2 && ID3v2_strlent(u) == (int) want.size(), "strings", "lengths of the converted string: %d, %d instead of %zu", ID3v2_strlen(u), ID3v2_strlent(u), want.size() - 2);
        CHECK(ID3v2_to_unicode(u) == u, "strings", "conversion of a converted string is not the string itself");
        free(u);
        count("iso_strings");

        u32 chars = huge && len < 2500000 ? len : len / 2;
        Bytes w = gen_utf16_bom(r, chars > 0 && r.chance(1, 2) ? chars - 1 : chars); // the size of interest with or without BOM
        terminate(w, 1);
        HeapCopy hw(w);
        n = ID3v2_strlen(hw);
        nt = ID3v2_strlent(hw);
        CHECK(n == (int) w.size() - 2 && nt == (int) w.size(), "strings", "lengths of a UTF-16 string of %zu bytes: %d and %d (%s)", w.size() - 2, n, nt, Hex(w).s);
        CHECK(ID3v2_to_unicode(hw.p) == hw.p, "strings", "a string with BOM is not returned as it is");
        CHECK(memcmp(hw.p, w.data(), w.size()) == 0, "strings", "a string with BOM was changed");
        count("utf16_strings");
        if (len > 0) nontrivial(hash_bytes(iso) ^ hash_bytes(w));
        if (rep == 0 && g_case % 397 == 3) sample("ISO string %s, UTF-16 string %s", Hex(iso).s, Hex(w).s);
    }
}

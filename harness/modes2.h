// Properties about resources, ownership, faults, the compatibility layer, threads and cost.
#pragma once
#include <fenv.h>
#include <locale.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include "modes.h"
#include <dirent.h>
#include <pthread.h>

// ---- C16 -------------------------------------------------------------------------------------
struct CompatNamed
{
    const char* id;
    void (*set)(char*, char, ID3v2_tag*);
    ID3v2_frame* (*get)(ID3v2_tag*);
};
static const CompatNamed COMPAT[] = {
    {"TIT2", tag_set_title, tag_get_title}, {"TPE1", tag_set_artist, tag_get_artist}, {"TALB", tag_set_album, tag_get_album},
    {"TPE2", tag_set_album_artist, tag_get_album_artist}, {"TCON", tag_set_genre, tag_get_genre}, {"TRCK", tag_set_track, tag_get_track},
    {"TYER", tag_set_year, tag_get_year}, {"TPOS", tag_set_disc_number, tag_get_disc_number}, {"TCOM", tag_set_composer, tag_get_composer}};

static inline void check_compat_frame(const ID3v2_frame* f, const VFrame& v, const char* when)
{
    CHECK(memcmp(f->frame_id, v.id, 4) == 0, "compat", "%s: frame %.4s instead of %s", when, f->frame_id, v.id);
    CHECK(memcmp(f->flags, v.flags, 2) == 0, "compat", "%s: flags of %s: %02x%02x instead of %02x%02x", when, v.id, (u8) f->flags[0], (u8) f->flags[1], v.flags[0], v.flags[1]);
    Bytes want, got;
    v.payload(want);
    CHECK(f->size == (int) want.size(), "compat", "%s: %s has size %d instead of %zu", when, v.id, f->size, want.size());
    put(got, f->data, want.size());
    if (got != want) { size_t d = first_diff(got, want); fail("compat", "%s: bytes of %s differ at %zu: %s instead of %s", when, v.id, d, Hex(got, d).s, Hex(want, d).s); }
}
static inline void check_compat(ID3v2_tag* t, const Frames& model, const char* when)
{
    size_t i = 0;
    for (ID3v2_frame_list* l = t->frames; l != NULL && l->frame != NULL; l = l->next, i++)
    {
        CHECK(i < model.size(), "compat", "%s: more than %zu frames", when, model.size());
        check_compat_frame(l->frame, model[i], when);
    }
    CHECK(i == model.size(), "compat", "%s: %zu frames instead of %zu", when, i, model.size());
    for (int k = 0; k < 9; k++)
    {
        ID3v2_frame* f = COMPAT[k].get(t);
        int m = model_find(model, COMPAT[k].id);
        CHECK((f != NULL) == (m >= 0), "compat", "%s: getter of %s returns %s", when, COMPAT[k].id, f ? "a frame" : "NULL");
        ID3v2_frame_text_content* c = parse_text_frame_content(f);
        CHECK((c != NULL) == (m >= 0), "compat", "%s: content of %s: %s", when, COMPAT[k].id, c ? "present" : "NULL");
        if (m < 0) continue;
        const VFrame& v = model[(size_t) m];
        check_compat_frame(f, v, when);
        Bytes got;
        CHECK(c->size == (int) v.text.size() && (u8) c->encoding == v.enc, "compat", "%s: content of %s: size %d encoding %d instead of %zu, %d", when, v.id, c->size, c->encoding, v.text.size(), v.enc);
        put(got, c->data, v.text.size());
        CHECK(got == v.text, "compat", "%s: text of %s differs at %zu", when, v.id, first_diff(got, v.text));
        free(c->data);
        free(c);
        count("compat_contents_compared");
    }
    {
        int m = model_find(model, "COMM");
        ID3v2_frame* f = tag_get_comment(t);
        ID3v2_frame_comment_content* c = parse_comment_frame_content(f);
        CHECK((f != NULL) == (m >= 0) && (c != NULL) == (m >= 0), "compat", "%s: comment getter or content", when);
        if (m >= 0)
        {
            const VFrame& v = model[(size_t) m];
            CHECK(memcmp(c->language, v.lang, 3) == 0, "compat", "%s: language %.3s instead of %.3s", when, c->language, v.lang);
            Bytes d = copy_string(c->short_description, v.enc), x;
            CHECK(d == v.desc, "compat", "%s: description of the comment differs", when);
            CHECK(c->text->size == (int) v.text.size() && (u8) c->text->encoding == v.enc, "compat", "%s: comment size %d encoding %d", when, c->text->size, c->text->encoding);
            put(x, c->text->data, v.text.size());
            CHECK(x == v.text, "compat", "%s: text of the comment differs", when);
            free(c->text);
            free(c);
            count("compat_contents_compared");
        }
    }
    {
        int m = model_find(model, "APIC");
        ID3v2_frame* f = tag_get_album_cover(t);
        ID3v2_frame_apic_content* c = parse_apic_frame_content(f);
        CHECK((f != NULL) == (m >= 0) && (c != NULL) == (m >= 0), "compat", "%s: picture getter or content", when);
        if (m >= 0)
        {
            const VFrame& v = model[(size_t) m];
            Bytes p;
            CHECK((u8) c->encoding == v.enc && (u8) c->picture_type == v.ptype && c->picture_size == (int) v.pic.size(), "compat", "%s: picture encoding %d type %d size %d instead of %d %d %zu", when, c->encoding, c->picture_type, c->picture_size, v.enc, v.ptype, v.pic.size());
            CHECK(copy_mime(c->mime_type) == v.mime, "compat", "%s: MIME type differs", when);
            CHECK(copy_string(c->description, v.enc) == v.desc, "compat", "%s: description of the picture differs", when);
            put(p, c->data, v.pic.size());
            CHECK(p == v.pic, "compat", "%s: picture differs at %zu", when, first_diff(p, v.pic));
            free(c);
            count("compat_contents_compared");
        }
    }
    // the core tag behind it tells the same
    check_frames(view_tag(t->tag, "compat"), model, "compat", when);
}
// The encoding given to the old setters says nothing that the string itself does not
static inline char encoding_argument(Rng& r, const VFrame& v)
{
    static const char others[] = {0, 1, 2, 3, -1, 'x'};
    return r.chance(1, 5) ? r.pick(others) : (char) v.enc;
}
static inline void compat_edit(Rng& r, ID3v2_tag* t, Frames& model, Size sz, OpLog& log)
{
    u32 k = r.below(14);
    VFrame v;
    if (k < 11 && r.chance(1, 8))
    {
        // What the getters hand out goes straight back into a setter
        std::vector<Piece> all;
        size_t i = 0;
        for (ID3v2_frame_list* l = t->frames; l != NULL && l->frame != NULL && i < model.size(); l = l->next, i++)
        {
            const VFrame& m = model[i];
            if (m.enc >= 2) continue;
            if (m.kind == TEXT) add_piece(all, r.chance(1, 2) ? l->frame->data + 1 : ((ID3v2_TextFrame*) l->frame->frame)->data->text, m.text);
            if (m.kind == COMM) add_piece(all, r.chance(1, 2) ? l->frame->data + 4 + m.desc.size() : ((ID3v2_CommentFrame*) l->frame->frame)->data->comment, m.text);
        }
        if (!all.empty())
        {
            Piece s = all[r.below((u32) all.size())];
            v.enc = s.bom;
            v.text = s.content;
            log.add("compat setter %u from inside the tag", k);
            count("inputs_inside_the_tag");
            if (k < 9)
            {
                v.kind = TEXT;
                memcpy(v.id, COMPAT[k].id, 5);
                COMPAT[k].set((char*) s.p, encoding_argument(r, v), t);
            }
            else
            {
                v.kind = COMM;
                memcpy(v.id, "COMM", 5);
                memcpy(v.lang, "eng", 3);
                if (v.enc) put(v.desc, "\xFF\xFE\0\0", 4); else put8(v.desc, 0);
                tag_set_comment((char*) s.p, encoding_argument(r, v), t);
            }
            model_set(model, v);
            return;
        }
    }
    if (k < 9)
    {
        v.kind = TEXT;
        memcpy(v.id, COMPAT[k].id, 5);
        v.text = gen_input(r, sz);
        v.enc = has_bom(v.text);
        HeapCopy s(v.text);
        log.add("tag_set %s(%zu)", v.id, v.text.size());
        COMPAT[k].set(s.p, encoding_argument(r, v), t);
    }
    else if (k < 11)
    {
        v.kind = COMM;
        memcpy(v.id, "COMM", 5);
        memcpy(v.lang, "eng", 3);
        v.text = gen_input(r, sz);
        v.enc = has_bom(v.text);
        if (v.enc) put(v.desc, "\xFF\xFE\0\0", 4); else put8(v.desc, 0);
        HeapCopy s(v.text);
        log.add("tag_set_comment(%zu)", v.text.size());
        tag_set_comment(s.p, encoding_argument(r, v), t);
    }
    else
    {
        v.kind = APIC;
        memcpy(v.id, "APIC", 5);
        v.enc = 1;
        v.ptype = 3;
        put(v.desc, "\xFF\xFE\0\0", 4);
        v.pic = gen_blob(r, std::max(1u, gen_len(r, sz)));
        if (k == 11)
        {
            static const char* const names[] = {"cover.png", "cover.jpg", "cover.jpeg", "a.b.png", "cover", "png", "cover.pnm", "cover.png.jpg", "cover.pngs"};
            u32 i = r.below(9);
            if (i == 0 || i == 3) put(v.mime, "image/png", 10); else put(v.mime, "image/jpeg", 11);
            const char* path = scratch(names[i]);
            write_file(path, v.pic);
            log.add("tag_set_album_cover(%s,%zu)", names[i], v.pic.size());
            tag_set_album_cover(path, t);
            unlink(path);
        }
        else if (k == 12 && r.chance(1, 3))
        {
            bool dir = r.chance(1, 2);
            log.add("tag_set_album_cover(%s)", dir ? "directory" : "missing");
            tag_set_album_cover(dir ? g_dir : scratch("no-such-cover.png"), t);
            return;
        }
        else
        {
            v.mime = gen_mime(r);
            put8(v.mime, 0);
            HeapCopy m(v.mime), p(v.pic);
            log.add("tag_set_album_cover_from_bytes(%zu)", v.pic.size());
            tag_set_album_cover_from_bytes(p.p, m.p, (int) v.pic.size(), t);
        }
    }
    model_set(model, v);
}
static inline void run_C16(Rng& r)
{
    Size sz = pick_size(r, 130);
    AnyFile f;
    do f = gen_file(r, sz); while (f.kind == 2);
    const char* path = scratch("song.mp3");
    write_file(path, f.bytes);
    Frames model;
    ID3v2_tag* t;
    bool conforming = f.kind != 1;
    if (f.tagged && r.chance(3, 4))
    {
        if (r.chance(1, 2)) t = load_tag(path);
        else { HeapCopy b(f.bytes); t = load_tag_with_buffer(b, (int) b.n); }
        CHECK(t != NULL, "compat", "the compatibility loader does not read a tagged file");
        ID3v2_Tag* core = ID3v2_read_tag(path);
        CHECK(core != NULL, "compat", "the core reader does not read a tagged file");
        model = view_tag(core, "compat");
        if (conforming) check_frames(model, f.tag.expected(), "compat", "core reader");
        CHECK(memcmp(t->tag_header->tag, "ID3", 3) == 0 && t->tag_header->major_version == core->header->major_version && t->tag_header->minor_version == core->header->minor_version && t->tag_header->flags == core->header->flags && t->tag_header->tag_size == (int) core->header->tag_size, "compat", "header of the compat tag");
        if (t->raw != NULL) CHECK(memcmp(t->raw, f.bytes.data(), std::min(f.bytes.size(), (size_t) core->header->tag_size + 10)) == 0, "compat", "the raw bytes of the compat tag differ");
        ID3v2_Tag_free(core);
        count("loaded");
    }
    else
    {
        if (!f.tagged) { ID3v2_tag* none = load_tag(path); CHECK(none == NULL, "compat", "a compat tag is loaded from a file without one"); }
        t = new_tag();
        CHECK(t != NULL, "compat", "no new compat tag");
        CHECK(memcmp(t->tag_header->tag, "ID3", 3) == 0 && t->tag_header->major_version == t->tag->header->major_version && t->tag_header->minor_version == t->tag->header->minor_version && t->tag_header->flags == t->tag->header->flags && t->tag_header->tag_size == (int) t->tag->header->tag_size && t->tag_header->extended_header_size == (int) t->tag->header->extended_header_size, "compat", "header of a new compat tag");
        count("new");
    }
    if (!conforming) { compat_walk(t, "compat"); }
    else check_compat(t, model, "at first");
    OpLog log;
    int n = r.range(0, 14);
    if (model.size() > 4000) n = std::min(n, 4);
    if (!conforming) n = 0;
    for (int i = 0; i < n; i++)
    {
        compat_edit(r, t, model, sz == LARGE && i > 0 ? SMALL : sz, log); // one huge frame per case
        char when[300];
        snprintf(when, sizeof when, "after ...%s", log.s + (log.n > 200 ? log.n - 200 : 0));
        check_compat(t, model, when);
        count("compat_edits");
    }
    // The same save through both interfaces
    const char* twin = scratch("twin.mp3");
    write_file(twin, f.bytes);
    ID3v2_Tag* core = NULL;
    set_tag(path, t);
    {
        ID3v2_Tag* back = ID3v2_read_tag(path);
        CHECK(back != NULL, "compat", "nothing read back after set_tag; %s", log.s);
        if (conforming) check_frames(view_tag(back, "compat"), model, "compat", "read back after set_tag");
        ID3v2_tag* cb = load_tag(path);
        CHECK(cb != NULL, "compat", "nothing loaded after set_tag");
        if (conforming) check_compat(cb, model, "loaded after set_tag");
        free_tag(cb);
        core = back;
    }
    Bytes saved = must_read(path, "compat");
    ID3v2_write_tag(twin, t->tag);
    CHECK(must_read(twin, "compat") == saved, "compat", "set_tag and ID3v2_write_tag leave different files");
    CHECK(audio_of(saved) == f.audio, "compat", "set_tag changed the audio");
    ID3v2_Tag_free(core);
    remove_tag(path);
    ID3v2_delete_tag(twin);
    Bytes a = must_read(path, "compat"), b = must_read(twin, "compat");
    CHECK(a == b && a == f.audio, "compat", "remove_tag leaves %zu bytes, ID3v2_delete_tag %zu, the audio has %zu", a.size(), b.size(), f.audio.size());
    if (conforming) check_compat(t, model, "after saving");
    free_tag(t);
    nontrivial(hash_bytes(f.bytes) ^ log.h);
    if (g_case % 197 == 3) sample("%zu frames after %d compat edits: %.300s", model.size(), n, log.s);
}

// ---- C11 -------------------------------------------------------------------------------------
// Very many tags, headers, lists, strings and parsed contents alive at the same time: none of them
// shares anything with another one.
struct Living
{
    int kind;
    ID3v2_Tag* tag;
    ID3v2_tag* compat;
    ID3v2_TagHeader* header;
    char* unicode;
    ID3v2_frame_text_content* text;
    ID3v2_frame_comment_content* comment;
    ID3v2_frame_apic_content* picture;
    ID3v2_FrameList* list;
    const char* inside; // of another object: what a comment or picture content points to
    u64 digest;
    u64 now(const char* key) const
    {
        if (kind < 3) return digest_tag(tag, key);
        if (kind == 3)
        {
            u32 v[5] = {(u8) header->major_version, (u8) header->minor_version, (u8) header->flags, header->tag_size, header->extended_header_size};
            return hash_bytes((const u8*) v, sizeof v, hash_bytes((const u8*) header->identifier, 3));
        }
        if (kind == 4 || kind == 8)
        {
            u64 h = digest_tag(compat->tag, key);
            size_t n = 0;
            for (ID3v2_frame_list* l = compat->frames; l != NULL && l->frame != NULL && n < 4000000; l = l->next, n++)
            {
                h = hash_bytes((const u8*) l->frame->frame_id, 4, h);
                h = hash_bytes((const u8*) l->frame->data, (size_t) l->frame->size, h);
            }
            if (text) { h = hash_bytes((const u8*) text->data, (size_t) text->size, mix(h ^ (u64) text->size ^ ((u64) (u8) text->encoding << 40))); }
            if (comment) { h = hash_bytes((const u8*) comment->text->data, (size_t) comment->text->size, hash_bytes((const u8*) comment->language, 3, mix(h ^ (u64) comment->text->size))); }
            if (picture) { h = hash_bytes((const u8*) picture->data, (size_t) picture->picture_size, mix(h ^ (u64) (u8) picture->picture_type ^ ((u64) picture->picture_size << 9))); }
            return h;
        }
        if (kind == 5) return hash_bytes((const u8*) unicode, (size_t) ID3v2_strlent(unicode));
        return hash_frames(view_list(list, key)) ^ digest_tag(tag, key);
    }
    void release()
    {
        if (list) ID3v2_FrameList_unlink(list);
        if (tag) ID3v2_Tag_free(tag);
        if (header) ID3v2_TagHeader_free(header);
        if (unicode) free(unicode);
        if (text) { free(text->data); free(text); }
        if (comment) { free(comment->text); free(comment); }
        if (picture) free(picture);
        if (compat) free_tag(compat);
    }
};
static inline void many_objects(Rng& r, const char* key)
{
    static const u32 sizes[] = {5, 9, 17, 33, 65, 129, 257, 300};
    u32 n = r.chance(1, 40) ? (u32) r.range(1025, 1400) : r.pick(sizes) + r.below(4), crowd = g_crowd;
    g_crowd = 0;
    int only = r.chance(1, 2) ? (int) r.below(8) : -1;
    std::vector<Living> all;
    const char* path = scratch("song.mp3");
    for (u32 i = 0; i < n; i++)
    {
        Living x;
        memset(&x, 0, sizeof x);
        x.kind = only >= 0 ? only : (int) r.below(8);
        GenTag t = gen_tag(r, SMALL);
        if (t.frames.size() > 12) t.frames.resize(12);
        Bytes e = t.encode();
        HeapCopy b(e);
        switch (x.kind)
        {
            case 0: x.tag = ID3v2_read_tag_from_buffer(b, (int) b.n); break;
            case 1: write_file(path, e); x.tag = ID3v2_read_tag(path); break;
            case 2:
            {
                x.tag = ID3v2_Tag_new_empty();
                Frames m;
                OpLog log;
                edits(r, x.tag, m, OpMix(), log, r.range(0, 5));
                break;
            }
            case 3:
                write_file(path, e);
                x.header = r.chance(1, 2) ? ID3v2_read_tag_header_from_buffer(b) : ID3v2_read_tag_header(path);
                break;
            case 4: case 7:
                x.kind = 4;
                write_file(path, e);
                x.compat = r.chance(1, 2) ? load_tag(path) : load_tag_with_buffer(b, (int) b.n);
                if (!x.compat) break;
                x.text = parse_text_frame_content(COMPAT[r.below(9)].get(x.compat));
                x.comment = parse_comment_frame_content(tag_get_comment(x.compat));
                x.picture = parse_apic_frame_content(tag_get_album_cover(x.compat));
                break;
            case 5:
            {
                Bytes w = gen_iso(r, 1 + r.below(60));
                put8(w, 0);
                if (has_bom(w)) w[0] = 'x';
                HeapCopy h(w);
                x.unicode = ID3v2_to_unicode((char*) (const char*) h);
                break;
            }
            default:
                x.kind = 6;
                x.tag = ID3v2_read_tag_from_buffer(b, (int) b.n);
                if (x.tag) x.list = t.frames.empty() ? ID3v2_Tag_get_comment_frames(x.tag) : ID3v2_Tag_get_frames(x.tag, t.frames[r.below((u32) t.frames.size())].v.id);
        }
        CHECK(x.tag || x.header || x.compat || x.unicode, key, "nothing returned for a conforming input (object %u of %u, of kind %d)", i, n, x.kind);
        if (x.kind < 2) check_frames(view_tag(x.tag, key), t.expected(), key, "a tag among many");
        if (x.header) CHECK(x.header->major_version == t.version && x.header->tag_size == t.size, key, "a header among many");
        x.digest = x.now(key);
        all.push_back(x);
    }
    g_crowd = crowd;
    for (u32 i = 0; i < n; i++) CHECK(all[i].now(key) == all[i].digest, key, "object %u of %u (of kind %d) is not what it was when it was made, before the others", i, n, all[i].kind);
    while (!all.empty())
    {
        size_t i = r.below((u32) all.size());
        CHECK(all[i].now(key) == all[i].digest, key, "of %u objects alive at once, one of kind %d is not what it was before others were freed", n, all[i].kind);
        all[i].release();
        all[i] = all.back();
        all.pop_back();
    }
    count("objects_alive_at_once_compared", n);
    count_max("most_objects_alive_at_once", n);
    nontrivial(r.next());
}
static inline void run_C11(Rng& r)
{
    if (r.chance(1, 60)) { many_objects(r, "ownership"); return; }
    // Several tags live at once; after each step all of them are compared with their models.
    const int N = 3;
    Subject s[N];
    OpLog log;
    OpMix mix;
    mix.alias = true;
    if (r.chance(1, 40)) mix.size = MEDIUM;
    const char* path = scratch("song.mp3");
    for (int i = 0; i < N; i++)
    {
        if (r.chance(1, 3))
        {
            GenTag t = gen_tag(r, SMALL);
            Bytes e = t.encode();
            write_file(path, e);
            s[i].tag = ID3v2_read_tag(path);
            s[i].model = t.expected();
            // the file goes away right after it was read
            write_file(path, Bytes(e.size(), 0xDD));
            unlink(path);
            CHECK(s[i].tag != NULL, "ownership", "a conforming file is not read");
        }
        else make_subject(r, s[i], SMALL, "ownership"); // its buffer is overwritten and freed
    }
    GenTag two = gen_tag(r, SMALL); // the same buffer read twice: two tags, nothing in common
    Bytes enc = two.encode();
    {
        HeapCopy b(enc);
        s[0].release();
        s[1].release();
        s[0].tag = ID3v2_read_tag_from_buffer(b, (int) b.n);
        s[1].tag = ID3v2_read_tag_from_buffer(b, (int) b.n);
        s[0].model = s[1].model = two.expected();
        CHECK(s[0].tag && s[1].tag, "ownership", "a conforming tag is not read");
    }
    // headers handed over are copies as well
    ID3v2_TagHeader* header;
    {
        HeapCopy b(enc);
        header = ID3v2_read_tag_header_from_buffer(b);
    }
    CHECK(header != NULL && header->tag_size == two.size && header->major_version == two.version, "ownership", "a header does not outlive its buffer");
    ID3v2_TagHeader_free(header);
    int n = r.range(4, 25);
    ID3v2_FrameList* held = NULL;
    for (int step = 0; step < n; step++)
    {
        Subject& x = s[r.below(N)];
        if (x.tag == NULL) continue;
        u32 k = r.below(12);
        if (k < 8) random_edit(r, x.tag, x.model, mix, log);
        else if (k < 10)
        {
            // lists of matches and their release
            char id[5];
            if (!x.model.empty() && r.chance(4, 5)) memcpy(id, x.model[r.below((u32) x.model.size())].id, 5); else gen_text_id(r, id);
            ID3v2_FrameList* a = ID3v2_Tag_get_frames(x.tag, id);
            ID3v2_FrameList* b = ID3v2_Tag_get_frames(x.tag, id);
            Frames before = view_list(b, "ownership");
            ID3v2_FrameList_unlink(a);
            check_frames(view_list(b, "ownership"), before, "ownership", "a list of matches after another one was unlinked");
            ID3v2_FrameList_unlink(b);
            ID3v2_FrameList_unlink(ID3v2_Tag_get_comment_frames(x.tag));
            ID3v2_FrameList_unlink(ID3v2_Tag_get_apic_frames(x.tag));
            count("lists_unlinked", 4);
        }
        else if (k == 10)
        {
            u64 before = digest_tag(x.tag, "ownership");
            check_getters(r, x.tag, x.model, "ownership");
            CHECK(digest_tag(x.tag, "ownership") == before, "ownership", "getters changed the tag");
        }
        else if (r.chance(1, 3))
        {
            if (held) { ID3v2_FrameList_unlink(held); held = NULL; }
            x.release(); // the others must not notice
            log.add("free one tag");
        }
        for (int i = 0; i < N; i++)
            if (s[i].tag)
            {
                char when[300];
                snprintf(when, sizeof when, "tag %d after ...%s", i, log.s + (log.n > 200 ? log.n - 200 : 0));
                check_frames(view_tag(s[i].tag, "ownership"), s[i].model, "ownership", when);
                count("snapshots_compared");
            }
    }
    for (int i = 0; i < N; i++) s[i].release();
    nontrivial(log.h);
    if (g_case % 397 == 3) sample("%d steps on %d tags: %.300s", n, N, log.s);
}

// ---- C22 -------------------------------------------------------------------------------------
static u64 g_uid;
static inline void number_frames(Frames& m)
{
    for (size_t i = 0; i < m.size(); i++) if (m[i].uid == 0) m[i].uid = ++g_uid;
}
static inline const VFrame* by_uid(const Frames& m, u64 uid)
{
    for (size_t i = 0; i < m.size(); i++) if (m[i].uid == uid) return &m[i];
    return NULL;
}
// A frame that a getter handed out, and the strings and blobs inside it
struct Handle
{
    u64 uid;
    const ID3v2_Frame* frame;
    std::vector<std::pair<const char*, Bytes> > inside;
    void part(const char* p, size_t n) { Bytes b; put(b, p, n); inside.push_back(std::make_pair(p, b)); }
    void take(const ID3v2_Frame* f, const VFrame& v)
    {
        uid = v.uid;
        frame = f;
        part(f->header->id, 4);
        if (v.kind == TEXT) part(((const ID3v2_TextFrame*) f)->data->text, v.text.size());
        else if (v.kind == COMM)
        {
            const ID3v2_CommentFrame* c = (const ID3v2_CommentFrame*) f;
            part(c->data->comment, v.text.size());
            part(c->data->short_description, v.desc.size());
            part(c->data->language, 3);
        }
        else if (v.kind == APIC)
        {
            const ID3v2_ApicFrame* a = (const ID3v2_ApicFrame*) f;
            part(a->data->mime_type, v.mime.size());
            part(a->data->description, v.desc.size());
            if (!v.pic.empty()) part(a->data->data, v.pic.size());
        }
        else if (!v.raw.empty()) part((const char*) f->data, v.raw.size());
    }
    void check(const VFrame& v, const char* when) const
    {
        Frames got(1), want(1, v);
        view_frame(frame, got[0], "handles");
        check_frames(got, want, "handles", when);
        for (size_t i = 0; i < inside.size(); i++)
            CHECK(memcmp(inside[i].first, inside[i].second.data(), inside[i].second.size()) == 0, "handles", "%s: part %zu of a %s frame that was handed out has changed", when, i, v.id);
    }
};
// A list of matches; some of its frames may be gone by now
struct HeldList
{
    ID3v2_FrameList* list;
    std::vector<u64> uids;
    std::vector<const ID3v2_Frame*> frames;
    void take(ID3v2_FrameList* l, const Frames& model, const char* id)
    {
        list = l;
        for (size_t i = 0; i < model.size(); i++) if (memcmp(model[i].id, id, 4) == 0) uids.push_back(model[i].uid);
        for (; l != NULL && l->frame != NULL; l = l->next) frames.push_back(l->frame);
        CHECK(frames.size() == uids.size(), "handles", "a list of %s has %zu frames instead of %zu", id, frames.size(), uids.size());
    }
    void check(const Frames& model, const char* when) const
    {
        size_t n = 0;
        for (const ID3v2_FrameList* l = list; l != NULL && l->frame != NULL; l = l->next, n++)
        {
            CHECK(n < frames.size(), "handles", "%s: a list of matches that was handed out has grown", when);
            CHECK(l->frame == frames[n], "handles", "%s: a list of matches that was handed out leads to another frame", when);
            const VFrame* v = by_uid(model, uids[n]);
            if (v == NULL) continue; // replaced or deleted
            Frames got(1), want(1, *v);
            view_frame(l->frame, got[0], "handles");
            check_frames(got, want, "handles", when);
            count("list_entries_compared");
        }
        CHECK(n == frames.size(), "handles", "%s: a list of matches that was handed out has lost frames", when);
    }
};
// What the old API hands out
struct CompatHandle
{
    u64 uid;
    const ID3v2_frame* frame;
    VFrame want;
    ID3v2_frame_text_content* text; // a copy of the caller's own
    ID3v2_frame_comment_content* comment;
    ID3v2_frame_apic_content* apic;
    Bytes text_bytes;
    CompatHandle() : uid(0), frame(NULL), text(NULL), comment(NULL), apic(NULL) {}
    void check_text(const char* when) const
    {
        if (text == NULL) return;
        CHECK(text->size == (int) text_bytes.size() && memcmp(text->data, text_bytes.data(), text_bytes.size()) == 0, "handles", "%s: a parsed text has changed", when);
        count("parsed_texts_compared");
    }
    void check(const Frames& model, const char* when) const
    {
        check_text(when);
        const VFrame* v = by_uid(model, uid);
        if (v == NULL) return;
        Bytes b;
        v->payload(b);
        CHECK(memcmp(frame->frame_id, v->id, 4) == 0 && frame->size == (int) b.size() && memcmp(frame->data, b.data(), b.size()) == 0, "handles", "%s: a %s frame handed out by the old API has changed", when, v->id);
        if (comment)
            CHECK(memcmp(comment->language, v->lang, 3) == 0 && copy_string(comment->short_description, v->enc) == v->desc && comment->text->size == (int) v->text.size() && memcmp(comment->text->data, v->text.data(), v->text.size()) == 0, "handles", "%s: a parsed comment has changed", when);
        if (apic)
            CHECK(copy_mime(apic->mime_type) == v->mime && copy_string(apic->description, v->enc) == v->desc && apic->picture_size == (int) v->pic.size() && (v->pic.empty() || memcmp(apic->data, v->pic.data(), v->pic.size()) == 0), "handles", "%s: a parsed picture has changed", when);
        count("old_api_handles_compared");
    }
    void release()
    {
        if (text) { free(text->data); free(text); }
        if (comment) { free(comment->text); free(comment); }
        free(apic);
        text = NULL;
        comment = NULL;
        apic = NULL;
    }
};
static inline void compat_handles(Rng& r)
{
    OpLog log;
    Frames model;
    ID3v2_tag* t;
    if (r.chance(2, 3))
    {
        GenTag g = gen_tag(r, SMALL);
        HeapCopy b(g.encode());
        t = load_tag_with_buffer(b, (int) b.n);
        model = g.expected();
    }
    else t = new_tag();
    CHECK(t != NULL, "handles", "no compat tag");
    number_frames(model);
    std::vector<CompatHandle> held;
    const char* path = scratch("song.mp3");
    int n = r.range(2, 25);
    for (int step = 0; step < n; step++)
    {
        u32 k = r.below(10);
        if (k < 4 && held.size() < 12)
        {
            CompatHandle h;
            ID3v2_frame* f;
            const char* id;
            u32 w = r.below(11);
            if (w < 9) { id = COMPAT[w].id; f = COMPAT[w].get(t); }
            else if (w == 9) { id = "COMM"; f = tag_get_comment(t); }
            else { id = "APIC"; f = tag_get_album_cover(t); }
            int m = model_find(model, id);
            CHECK((f != NULL) == (m >= 0), "handles", "getter of %s", id);
            if (m < 0) continue;
            h.uid = model[(size_t) m].uid;
            h.frame = f;
            if (r.chance(1, 2))
            {
                if (w < 9) { h.text = parse_text_frame_content(f); h.text_bytes = model[(size_t) m].text; }
                else if (w == 9) h.comment = parse_comment_frame_content(f);
                else h.apic = parse_apic_frame_content(f);
            }
            held.push_back(h);
            log.add("hold %s", id);
        }
        else if (k < 9) { compat_edit(r, t, model, SMALL, log); number_frames(model); }
        else
        {
            write_file(path, gen_blob(r, r.below(50)));
            set_tag(path, t);
            ID3v2_tag* other = load_tag(path);
            if (other) free_tag(other);
            if (r.chance(1, 2)) remove_tag(path);
            log.add("save, load, free");
        }
        char when[300];
        snprintf(when, sizeof when, "old API, after ...%s", log.s + (log.n > 200 ? log.n - 200 : 0));
        for (size_t i = 0; i < held.size(); i++) held[i].check(model, when);
    }
    free_tag(t);
    for (size_t i = 0; i < held.size(); i++)
    {
        held[i].check_text("old API, after free_tag");
        held[i].release();
    }
    if (!held.empty()) nontrivial(log.h ^ hash_frames(model));
}
static inline void run_C22(Rng& r)
{
    g_uid = 0;
    if (r.chance(1, 100)) { many_objects(r, "handles"); return; }
    if (r.chance(1, 4)) { compat_handles(r); return; }
    Subject s;
    make_subject(r, s, r.chance(1, 100) ? MEDIUM : SMALL, "handles");
    number_frames(s.model);
    OpLog log;
    OpMix mix;
    mix.alias = true;
    mix.deletes = (u32) r.range(2, 6);
    std::vector<Handle> held;
    std::vector<HeldList> lists;
    const char* path = scratch("song.mp3");
    int n = r.range(2, 40);
    for (int step = 0; step < n; step++)
    {
        u32 k = r.below(20);
        if (k < 6)
        {
            // hold on to what a getter returns
            char id[5];
            if (s.model.empty() || r.chance(1, 10)) gen_text_id(r, id); else memcpy(id, s.model[r.below((u32) s.model.size())].id, 5);
            int m = model_find(s.model, id);
            if (k < 3 || (m >= 0 && k < 4))
            {
                ID3v2_Frame* f;
                if (k == 3)
                {
                    m = (int) r.below((u32) s.model.size());
                    ID3v2_FrameList* l = s.tag->frames;
                    for (int i = 0; i < m; i++) l = l->next;
                    f = l->frame;
                }
                else f = memcmp(id, "COMM", 4) == 0 ? (ID3v2_Frame*) ID3v2_Tag_get_comment_frame(s.tag) : memcmp(id, "APIC", 4) == 0 ? (ID3v2_Frame*) ID3v2_Tag_get_album_cover_frame(s.tag) : ID3v2_Tag_get_frame(s.tag, id);
                CHECK((f != NULL) == (m >= 0), "handles", "getter of %s", id);
                if (m >= 0 && held.size() < 20)
                {
                    held.push_back(Handle());
                    held.back().take(f, s.model[(size_t) m]);
                    log.add("hold %s", id);
                }
            }
            else if (lists.size() < 6)
            {
                lists.push_back(HeldList());
                lists.back().take(memcmp(id, "COMM", 4) == 0 ? ID3v2_Tag_get_comment_frames(s.tag) : memcmp(id, "APIC", 4) == 0 ? ID3v2_Tag_get_apic_frames(s.tag) : ID3v2_Tag_get_frames(s.tag, id), s.model, id);
                log.add("hold the list of %s", id);
            }
        }
        else if (k == 6 && !lists.empty())
        {
            size_t i = r.below((u32) lists.size());
            ID3v2_FrameList_unlink(lists[i].list);
            lists.erase(lists.begin() + (long) i);
            log.add("unlink");
        }
        else if (k == 7)
        {
            // the tag is saved, and what is in the file is read, edited and freed
            write_file(path, gen_blob(r, r.below(50)));
            ID3v2_write_tag(path, s.tag);
            ID3v2_Tag* other = ID3v2_read_tag(path);
            if (other) { Frames m = view_tag(other, "handles"); edits(r, other, m, OpMix(), log, 3); ID3v2_Tag_free(other); }
            if (r.chance(1, 2)) ID3v2_delete_tag(path);
            log.add("save");
            count("saves_while_frames_are_held");
        }
        else random_edit(r, s.tag, s.model, mix, log);
        number_frames(s.model);
        char when[300];
        snprintf(when, sizeof when, "after ...%s", log.s + (log.n > 200 ? log.n - 200 : 0));
        for (size_t i = 0; i < held.size();)
        {
            const VFrame* v = by_uid(s.model, held[i].uid);
            if (v == NULL) { held.erase(held.begin() + (long) i); count("handles_given_up"); continue; }
            held[i].check(*v, when);
            count("handles_compared");
            i++;
        }
        for (size_t i = 0; i < lists.size(); i++) lists[i].check(s.model, when);
    }
    // lists may be released after the tag
    bool before = r.chance(1, 2);
    if (before) s.release();
    for (size_t i = 0; i < lists.size(); i++) { ID3v2_FrameList_unlink(lists[i].list); if (before) count("lists_released_after_the_tag"); }
    s.release();
    nontrivial(log.h ^ hash_frames(s.model));
    if (g_case % 397 == 3) sample("%d steps, %zu frames and %zu lists held at the end: %.300s", n, held.size(), lists.size(), log.s);
}

// ---- C10 -------------------------------------------------------------------------------------
static inline int open_fds()
{
    int n = 0;
    DIR* d = opendir("/proc/self/fd");
    if (!d) harness_error("/proc/self/fd");
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
// A history with matching frees. Deterministic, so that it can be run twice.
static inline u64 resource_history(Rng r, OpLog& log, int& kind)
{
    kind = r.chance(1, 1200) ? 10 : (int) r.below(10);
    Size sz = r.chance(1, 300) ? LARGE : r.chance(1, 10) ? MEDIUM : SMALL;
    const char* path = scratch("song.mp3");
    bool faulty = r.chance(1, 3);
    AnyFile f = gen_file(r, SMALL);
    write_file(path, f.bytes);
    u64 h = hash_bytes(f.bytes);
#define ARM() do { if (faulty) { static const int errs[] = {EIO, ENOSPC, EMFILE, EACCES}; faults_arm(path, (int) r.below(r.chance(1, 2) ? 12 : 40), r.pick(errs), (int) r.below(2)); } } while (0)
#define DISARM() faults_disarm()
    switch (kind)
    {
        case 0: case 1: // edits, getters, save, reload
        {
            Subject s;
            make_subject(r, s, sz, "resources");
            OpMix mix;
            mix.alias = true;
            mix.size = sz;
            edits(r, s.tag, s.model, mix, log, edit_count(r));
            check_getters(r, s.tag, s.model, "resources");
            ARM();
            ID3v2_write_tag(path, s.tag);
            DISARM();
            ID3v2_Tag* t = ID3v2_read_tag(path);
            if (t) ID3v2_Tag_free(t);
            s.release();
            break;
        }
        case 2: // hostile bytes
        {
            Bytes b = gen_hostile(r);
            h ^= hash_bytes(b);
            hostile_case(r, b, "resources");
            break;
        }
        case 3: // compat
        {
            ID3v2_tag* t = NULL;
            if (f.tagged && r.chance(1, 2)) t = load_tag(path);
            if (t == NULL) t = new_tag();
            Frames model = view_tag(t->tag, "resources");
            int n = r.range(0, 12);
            for (int i = 0; i < n; i++) compat_edit(r, t, model, i == 0 ? sz : SMALL, log);
            compat_walk(t, "resources");
            ARM();
            set_tag(path, t);
            DISARM();
            free_tag(t);
            ARM();
            remove_tag(path);
            DISARM();
            break;
        }
        case 4: // nothing to read
        {
            Bytes b = gen_untagged(r);
            write_file(path, b);
            const char* p = r.chance(1, 2) ? path : r.chance(1, 2) ? scratch("no-such-file") : g_dir;
            ARM();
            ID3v2_Tag* t = ID3v2_read_tag(p);
            ID3v2_TagHeader* th = ID3v2_read_tag_header(p);
            ID3v2_tag* c = load_tag(p);
            ID3v2_delete_tag(p);
            remove_tag(p);
            DISARM();
            CHECK(!t && !th && !c, "resources", "a tag where there is none");
            HeapCopy hb(b);
            CHECK(!ID3v2_read_tag_from_buffer(hb, (int) hb.n) && !load_tag_with_buffer(hb, (int) hb.n), "resources", "a tag where there is none");
            if (b.size() >= 10) CHECK(!ID3v2_read_tag_header_from_buffer(hb), "resources", "a header where there is none");
            ID3v2_Tag* e = ID3v2_Tag_new_empty();
            ID3v2_write_tag(scratch("no-such-file"), e);
            ID3v2_Tag_free(e);
            break;
        }
        case 5: // reading under faults
        {
            ARM();
            ID3v2_Tag* t = ID3v2_read_tag(path);
            ID3v2_TagHeader* th = ID3v2_read_tag_header(path);
            ID3v2_tag* c = load_tag(path);
            DISARM();
            if (t) ID3v2_Tag_free(t);
            if (th) ID3v2_TagHeader_free(th);
            if (c) free_tag(c);
            break;
        }
        case 6: // delete
            ARM();
            ID3v2_delete_tag(path);
            DISARM();
            break;
        case 8: // strings
            for (int i = 0; i < 6; i++)
            {
                Bytes b = r.chance(1, 3) ? gen_utf16_bom(r, gen_len(r, SMALL)) : gen_iso(r, gen_len(r, SMALL));
                put8(b, 0);
                put8(b, 0);
                h ^= hash_bytes(b);
                HeapCopy s(b);
                char *in = (char*) (const char*) s, *u = ID3v2_to_unicode(in);
                int n = ID3v2_strlen(u), m = ID3v2_strlent(s);
                h ^= mix((u64) n << 32 | (u32) m);
                if (u != in) free(u);
            }
            break;
        case 9: // a cover from a file that cannot be read properly
        {
            ID3v2_tag* t = new_tag();
            const char* cover = scratch(r.chance(1, 2) ? "cover.png" : "cover");
            Bytes b = gen_blob(r, gen_len(r, MEDIUM));
            write_file(cover, b);
            h ^= hash_bytes(b);
            static const int errs[] = {EIO, ENOSPC, EMFILE, EACCES};
            faults_arm(cover, (int) r.below(r.chance(1, 2) ? 5 : 12), r.pick(errs), (int) r.below(2));
            tag_set_album_cover(r.chance(1, 10) ? g_dir : r.chance(1, 10) ? scratch("no-such-file") : cover, t);
            faults_disarm();
            compat_walk(t, "resources");
            free_tag(t);
            break;
        }
        case 10: // a tag that is too large for a file
        {
            ID3v2_tag* t = f.tagged && r.chance(1, 2) ? load_tag(path) : NULL;
            if (t == NULL) t = new_tag();
            Bytes data((size_t) r.range(134300000, 140000000));
            data[3] = 3;
            for (int i = 0; i < 2; i++)
            {
                ID3v2_ApicFrameInput in = {"\0\0", "image/x", "d", 3, (int) data.size(), (char*) data.data()};
                ID3v2_Tag_add_apic_frame(t->tag, &in);
            }
            if (r.chance(1, 2)) ID3v2_write_tag(path, t->tag); else set_tag(path, t);
            free_tag(t);
            break;
        }
        default: // everything replaced and deleted again
        {
            Subject s;
            make_subject(r, s, SMALL, "resources");
            OpMix mix;
            mix.deletes = 6;
            edits(r, s.tag, s.model, mix, log, r.range(10, 40));
            while (!s.model.empty() && s.model.size() < 4000)
            {
                char id[5];
                memcpy(id, s.model.back().id, 5);
                ID3v2_Tag_delete_frame(s.tag, id);
                model_delete(s.model, id);
            }
            s.release();
        }
    }
    return h;
}
static inline void run_C10(Rng& r)
{
    static bool installed;
    if (!installed) { faults_install(); installed = true; }
    u64 seed = r.next();
    int kind;
    u64 h;
    {
        OpLog log;
        resource_history(Rng(seed), log, kind); // libc and the harness settle down
    }
    OpLog log;
    int fds = open_fds();
    ledger_start();
    h = resource_history(Rng(seed), log, kind);
    ledger_stop();
    int fds2 = open_fds();
    CHECK(!g_have_ledger || g_ledger.live == 0, "resources", "history of kind %d leaves %ld blocks (%ld bytes) allocated; edits: %s", kind, g_ledger.live, g_ledger.live_bytes, log.s);
    CHECK(fds == fds2, "resources", "history of kind %d: %d open files before, %d after; edits: %s", kind, fds, fds2, log.s);
    count("allocations_tracked", g_ledger.blocks);
    count("bytes_tracked", g_ledger.bytes);
    static const char* const names[] = {"histories_edit", "histories_edit", "histories_hostile", "histories_compat", "histories_no_tag", "histories_read_faults", "histories_delete", "histories_delete_all", "histories_strings", "histories_covers", "histories_too_large"};
    count(names[kind]);
    if (g_fail_hits) count("histories_with_injected_fault");
    g_fail_hits = 0;
    nontrivial(h ^ log.h ^ (u64) kind);
    if (g_case % 397 == 3) sample("history of kind %d: %llu allocations, all released; %.200s", kind, (unsigned long long) g_ledger.blocks, log.s);
}

// ---- C12 -------------------------------------------------------------------------------------
static inline void run_C12(Rng& r)
{
    static bool installed;
    if (!installed) { faults_install(); installed = true; }
    const char* path = scratch("song.mp3");
    AnyFile f;
    Size sz = r.chance(1, 6) ? MEDIUM : SMALL;
    bool save = r.chance(1, 2), old_api = r.chance(1, 4);
    do f = gen_file(r, sz); while (!save && !f.tagged);
    Subject s;
    OpLog log;
    if (save)
    {
        make_subject(r, s, SMALL, "faults");
        edits(r, s.tag, s.model, OpMix(), log, r.range(0, 8));
    }
    int version = save ? s.tag->header->major_version : 0;
    Bytes tag_image; // of the tag, to load a fresh copy for every run
    Bytes fresh;
    {
        // without faults: what the complete new content is, and which calls are made
        write_file(path, f.bytes);
        OldTag* old = save && old_api ? new OldTag(s.tag) : NULL;
        faults_arm(path, -1, 0, 0);
        if (old) set_tag(path, &old->t); else if (save) ID3v2_write_tag(path, s.tag); else if (old_api) remove_tag(path); else ID3v2_delete_tag(path);
        faults_disarm();
        delete old;
        fresh = must_read(path, "faults:none");
        if (save)
        {
            CHECK(audio_of(fresh) == f.audio, "faults:none", "without any fault, the audio is not intact");
            Decoded d;
            CHECK(decode_strict(fresh, d) && d.version == version && d.frames.size() == s.model.size(), "faults:none", "without any fault, the new content is not complete: %s", d.error);
        }
        else CHECK(fresh == f.audio, "faults:none", "without any fault, the tag is not deleted");
    }
    const int total = g_nevents;
    CHECK(total > 0 && total < 20000, "HARNESS", "%d system calls seen", total);
    static SysEvent plan[20000];
    memcpy(plan, g_events, sizeof(SysEvent) * (size_t) total);
    count("system_calls_seen", (u64) total);
    Frames model = s.model;
    bool dense = total <= 60;
    for (int k = 0; k < total; k++)
    {
        // long runs of reads or writes: all of the first and last ones, some in between
        if (!dense && k > 25 && k < total - 25 && !r.chance(30, (u32) total)) continue;
        for (int mode = 0; mode < 3; mode++)
        {
            const char* what = sys_name(plan[k].nr);
            if (mode == 2 && plan[k].nr != SYS_read && plan[k].nr != SYS_write) continue;
            int err = what[0] == 'w' ? (r.chance(1, 2) ? ENOSPC : EIO) : what[0] == 'o' ? (r.chance(1, 3) ? EACCES : r.chance(1, 2) ? EMFILE : ENOSPC) : EIO;
            write_file(path, f.bytes);
            OldTag* old = save && old_api ? new OldTag(s.tag) : NULL;
            faults_arm(path, k, err, mode);
            if (old) set_tag(path, &old->t); else if (save) ID3v2_write_tag(path, s.tag); else if (old_api) remove_tag(path); else ID3v2_delete_tag(path);
            faults_disarm();
            delete old;
            Bytes after;
            bool there = read_file(path, after);
            if (g_fail_hits == 0) // other calls than in the first run
            {
                count("faults_that_did_not_happen");
                CHECK(there && after == fresh, "faults:none", "without any fault, %s leaves %zu bytes once and %zu bytes another time", save ? "a save" : "a deletion", fresh.size(), after.size());
                continue;
            }
            if (mode == 2) // nothing failed, it only took more calls
            {
                count("short_transfers");
                CHECK(there && after == fresh, "faults:short", "%s with a short %s on the %s file: %zu bytes instead of %zu", save ? "save" : "delete", what, role_name(plan[k].role), after.size(), fresh.size());
                continue;
            }
            char key[120];
            snprintf(key, sizeof key, "%s:%s(%s):%s", save ? "save" : "delete", what, role_name(plan[k].role), plan[k].after_truncate ? "copy-back" : "before-truncation");
            count("faults_injected");
            char name[60];
            snprintf(name, sizeof name, "fault_%s_%s", what, role_name(plan[k].role));
            count(name);
            if (there && after == f.bytes) count("old_content_kept");
            else if (there && after == fresh) count("new_content_complete");
            else
                finding(key, "%s with a failing %s on the %s file (call %d of %d, errno %d, %s): the file has %zu bytes, neither the old content (%zu bytes) nor the complete new content (%zu bytes)", save ? "save" : "delete", what, role_name(plan[k].role), k, total, err, mode ? "and all later ones" : "once", after.size(), f.bytes.size(), fresh.size());
            if (save) check_frames(view_tag(s.tag, "faults:memory"), model, "faults:memory", "frames in memory after a failed save");
            nontrivial(mix((u64) plan[k].nr * 7 + (u64) plan[k].role) ^ mix((u64) k) ^ mix((u64) mode + 1) ^ hash_bytes(f.bytes));
        }
    }
    if (old_api) count("enumerated_by_the_old_api");
    count(save ? "saves_enumerated" : "deletes_enumerated");
    if (g_case % 37 == 3) sample("%s of a file of %zu bytes: %d system calls, each failed alone and with its successors", save ? "save" : "delete", f.bytes.size(), total);
    s.release();
}

// A cover from a file that may only be read, in pieces
static inline void run_C16R(Rng& r)
{
    static bool installed;
    if (!installed) { faults_install(); installed = true; }
    const char* path = scratch(r.chance(1, 2) ? "cover.png" : "cover.jpg");
    Bytes pic = gen_blob(r, std::max(1u, gen_len(r, r.chance(1, 8) ? MEDIUM : SMALL)));
    write_file(path, pic);
    g_short_reads = r.chance(1, 2);
    static const int errs[] = {EACCES, EROFS, EPERM, ETXTBSY};
    ID3v2_tag* t = new_tag();
    faults_arm(path, -1, r.pick(errs), 4);
    tag_set_album_cover(path, t);
    faults_disarm();
    ID3v2_ApicFrame* f = ID3v2_Tag_get_album_cover_frame(t->tag);
    CHECK(f != NULL && f->data->picture_size == (int) pic.size() && memcmp(f->data->data, pic.data(), pic.size()) == 0, "compat", "a cover from a read-only file of %zu bytes is not set", pic.size());
    free_tag(t);
    unlink(path);
    count("read_only_covers");
    count("short_reads", (u64) g_short_hits);
    nontrivial(hash_bytes(pic));
}
// ---- C07, files that may only be read, in pieces -----------------------------------------------
static inline void run_C07R(Rng& r)
{
    static bool installed;
    if (!installed) { faults_install(); installed = true; }
    GenTag t = gen_tag(r, r.chance(1, 30) ? LARGE : r.chance(1, 5) ? MEDIUM : SMALL);
    Bytes file = t.encode();
    put(file, gen_audio(r, SMALL));
    Frames want = t.expected();
    const char* path = scratch("readonly.mp3");
    write_file(path, file);
    g_short_reads = r.chance(1, 2);
    static const int errs[] = {EACCES, EROFS, EPERM, ETXTBSY};
    int err = r.pick(errs);
    faults_arm(path, -1, err, 4);
    ID3v2_Tag* tag = ID3v2_read_tag(path);
    ID3v2_TagHeader* h = ID3v2_read_tag_header(path);
    ID3v2_tag* c = load_tag(path);
    faults_disarm();
    check_loaded(tag, t, want, "decode", g_short_reads ? "from a read-only file that arrives in pieces" : "from a read-only file");
    CHECK(h != NULL && (u8) h->major_version == t.version && h->tag_size == t.size, "decode", "the header of a read-only file");
    CHECK(c != NULL, "decode", "load_tag on a read-only file");
    size_t n = 0;
    for (ID3v2_frame_list* l = c->frames; l != NULL && l->frame != NULL; l = l->next) n++;
    CHECK(n == want.size(), "decode", "load_tag finds %zu frames instead of %zu in a read-only file", n, want.size());
    ID3v2_Tag_free(tag);
    ID3v2_TagHeader_free(h);
    free_tag(c);
    count("read_only_files");
    count("short_reads", (u64) g_short_hits);
    if (!want.empty()) nontrivial(hash_bytes(file));
}

// ---- C08, files that cannot be opened ---------------------------------------------------------
static inline void run_C08F(Rng& r)
{
    static bool installed;
    if (!installed) { faults_install(); installed = true; }
    AnyFile f = gen_file(r, SMALL);
    const char* path = scratch("locked.mp3");
    write_file(path, f.bytes);
    Subject s;
    make_subject(r, s, SMALL, "no-tag");
    OpLog log;
    edits(r, s.tag, s.model, OpMix(), log, r.range(0, 4));
    ID3v2_tag* c = new_tag();
    static const int errs[] = {EACCES, EPERM, EIO, EMFILE, ENFILE, ENOENT, ELOOP, EISDIR};
    int err = r.pick(errs);
    OldTag old(s.tag);
    faults_arm(path, -1, err, 3);
    all_readers_null(path, "a file that cannot be opened");
    ID3v2_delete_tag(path);
    remove_tag(path);
    ID3v2_write_tag(path, NULL);
    ID3v2_write_tag(path, s.tag);
    set_tag(path, c);
    set_tag(path, &old.t);
    faults_disarm();
    free_tag(c);
    count("opens_refused", g_fail_hits);
    CHECK(must_read(path, "no-tag") == f.bytes, "no-tag", "a file that could not be opened (errno %d) has changed", err);
    check_frames(view_tag(s.tag, "no-tag"), s.model, "no-tag", "after saving to a file that cannot be opened");
    s.release();
    count("locked_files");
    nontrivial(hash_bytes(f.bytes) ^ mix((u64) err) ^ log.h);
}

// ---- C20 -------------------------------------------------------------------------------------
struct Entry
{
    std::string name, link;
    struct stat st;
    Bytes content;
};
static inline void snapshot(const std::string& dir, std::vector<Entry>& out)
{
    DIR* d = opendir(dir.c_str());
    if (!d) harness_error("opendir");
    std::vector<std::string> names;
    while (struct dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
    closedir(d);
    std::sort(names.begin(), names.end());
    for (size_t i = 0; i < names.size(); i++)
    {
        Entry e;
        e.name = dir + "/" + names[i];
        if (lstat(e.name.c_str(), &e.st) != 0) harness_error("lstat");
        if (S_ISLNK(e.st.st_mode)) { char b[600]; ssize_t n = readlink(e.name.c_str(), b, sizeof b); e.link.assign(b, n > 0 ? (size_t) n : 0); }
        if (S_ISREG(e.st.st_mode) && !read_file(e.name.c_str(), e.content)) harness_error("read_file");
        out.push_back(e);
        if (S_ISDIR(e.st.st_mode)) snapshot(e.name, out);
    }
}
static inline void remove_tree(const std::string& dir)
{
    if (dir.compare(0, strlen(g_dir), g_dir) != 0) harness_error("remove_tree");
    DIR* d = opendir(dir.c_str());
    if (!d) return;
    std::vector<std::string> names;
    while (struct dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
    closedir(d);
    for (size_t i = 0; i < names.size(); i++)
    {
        std::string p = dir + "/" + names[i];
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) remove_tree(p); else unlink(p.c_str());
    }
    rmdir(dir.c_str());
}
// The whole tree around the file is compared before and after each operation
static inline void run_C20(Rng& r)
{
    static bool installed;
    if (!installed) { faults_install(); installed = true; }
    g_spare_unlink = true;
    const std::string root = scratch("tree"), album = root + "/album";
    remove_tree(root);
    if (mkdir(root.c_str(), 0755) || mkdir(album.c_str(), 0755) || mkdir((root + "/other dir").c_str(), 0700)) harness_error("mkdir");
    AnyFile f = gen_file(r, SMALL);
    static const char* const songs[] = {"song.mp3", "song", "a b.mp3", "s\xC3\xB6ng.MP3", "song.mp3.tmp", "-x.mp3", "%s%n.mp3", "..mp3", "tag.bin"};
    std::string song = r.pick(songs);
    Bytes extra;
    if (r.chance(1, 6) && dict_string(r, extra)) // a name that the sources mention
    {
        std::string e(extra.begin(), extra.end());
        if (e.find('/') == std::string::npos && e != "." && e != ".." && e.size() < 100) song = r.chance(1, 2) ? e : r.chance(1, 2) ? "song" + e : e + "song";
    }
    if (r.chance(1, 12)) { song.assign((size_t) r.range(90, 255), 'n'); for (size_t i = 0; i < song.size(); i += 7) song[i] = (char) ('a' + r.below(26)); count("long_names"); }
    const std::string full = album + "/" + song;
    write_file(full.c_str(), f.bytes);
    // neighbours whose names a careless implementation could choose for itself
    static const char* const tails[] = {".tmp", ".bak", "~", ".new", ".old", ".temp", ".orig", "2"};
    for (size_t i = 0; i < 8; i++) if (r.chance(1, 3) && song.size() < 250) write_file((full + tails[i]).c_str(), gen_blob(r, r.below(60)));
    static const char* const names[] = {"tmp", "temp", "temp.mp3", "tag.tmp", "cover.jpg", ".song.mp3.swp", "id3v2.tmp"};
    for (size_t i = 0; i < 7; i++) if (song != names[i] && r.chance(1, 4)) write_file((album + "/" + names[i]).c_str(), gen_blob(r, r.below(60)));
    { AnyFile g = gen_file(r, SMALL); write_file((root + "/other dir/" + song).c_str(), g.bytes); if (r.chance(1, 2)) write_file((root + "/" + song).c_str(), g.bytes); }
    bool hard = r.chance(1, 3), soft = r.chance(1, 3);
    if (hard && link(full.c_str(), (root + "/hard link").c_str())) harness_error("link");
    if (soft && symlink(("album/" + song).c_str(), (root + "/soft link").c_str())) harness_error("symlink");
    if (symlink("album", (root + "/linked dir").c_str())) harness_error("symlink");
    static const mode_t modes[] = {0644, 0600, 0444, 0755, 0640, 0666, 0400, 0777};
    if (chmod(full.c_str(), r.pick(modes))) harness_error("chmod");
    if (r.chance(1, 3)) { if (chown(full.c_str(), 4321, 1234)) errno = 0; }
    struct timespec times[2] = {{1000000000 + (time_t) r.below(700000000), (long) r.below(1000000000)}, {1000000000 + (time_t) r.below(700000000), (long) r.below(1000000000)}};
    if (utimensat(AT_FDCWD, full.c_str(), times, 0)) harness_error("utimensat");
    // ways to name it
    std::string path = full;
    const char* cwd = NULL;
    switch (r.below(7))
    {
        case 0: cwd = album.c_str(); path = song; break;
        case 1: cwd = root.c_str(); path = "album/" + song; break;
        case 2: cwd = album.c_str(); path = "../album/./" + song; break;
        case 3: path = root + "/linked dir/" + song; break;
        case 4: if (hard) path = root + "/hard link"; break;
        case 5: if (soft) path = root + "/soft link"; break;
        default: break;
    }
    if (r.chance(1, 12)) // longer than any buffer for names, up to what the system takes
    {
        static const size_t lengths[] = {255, 256, 257, 260, 511, 512, 1023, 1024, 1025, 2048, 4094, 4095};
        size_t at = path.rfind('/') == std::string::npos ? 0 : path.rfind('/') + 1, length = r.pick(lengths);
        std::string more;
        while (path.size() + more.size() + 2 <= length) more += "./";
        if (path.size() + more.size() < length && !more.empty()) more.insert(1, "/");
        path.insert(at, more);
        count("long_paths");
    }
    if (chdir(cwd ? cwd : g_dir)) harness_error("chdir");
    std::vector<Entry> before, after;
    snapshot(root, before);
    u32 op = r.below(10);
    bool faulty = r.chance(1, 4);
    OpLog log;
    Subject s;
    ID3v2_tag* compat = NULL;
    Bytes expected = f.bytes;
    bool changes = false;
    if (op < 4)
    {
        if (r.chance(1, 6)) { compat = new_tag(); Frames m; for (int i = 0; i < 3; i++) compat_edit(r, compat, m, SMALL, log); }
        else { make_subject(r, s, SMALL, "files"); edits(r, s.tag, s.model, OpMix(), log, r.range(0, 6)); }
        changes = true;
    }
    else if (op < 7) changes = f.tagged;
    snapshot(root, after); // compat_edit uses files of its own outside of the tree
    static const int errs[] = {EIO, ENOSPC, EMFILE, EACCES};
    faults_arm(path.c_str(), faulty ? (int) r.below(r.chance(1, 2) ? 12 : 40) : -1, r.pick(errs), (int) r.below(2));
    const char* what;
    if (op < 4) { what = "a save"; if (compat) set_tag(path.c_str(), compat); else ID3v2_write_tag(path.c_str(), s.tag); }
    else if (op < 7) { what = "a deletion"; if (r.chance(1, 3)) remove_tag(path.c_str()); else ID3v2_delete_tag(path.c_str()); }
    else
    {
        what = "reading";
        ID3v2_Tag* t = ID3v2_read_tag(path.c_str());
        ID3v2_TagHeader* h = ID3v2_read_tag_header(path.c_str());
        ID3v2_tag* c = load_tag(path.c_str());
        if (c) tag_set_album_cover(path.c_str(), c);
        faults_disarm();
        if (t) ID3v2_Tag_free(t);
        if (h) ID3v2_TagHeader_free(h);
        if (c) free_tag(c);
    }
    faults_disarm();
    int hits = g_fail_hits;
    after.clear();
    snapshot(root, after);
    // what was created under any name must be gone
    for (int i = 0; i < g_nmade; i++)
    {
        struct stat st;
        if (lstat(g_made[i], &st) != 0 || S_ISCHR(st.st_mode)) continue;
        bool known = false; // a file of the tree: judged below
        for (size_t j = 0; j < before.size(); j++) known = known || (before[j].st.st_ino == st.st_ino && before[j].st.st_dev == st.st_dev);
        CHECK(known, "files:left", "%s left %s behind", what, g_made[i]);
    }
    for (size_t i = 0; i < after.size(); i++)
    {
        bool known = false;
        for (size_t j = 0; j < before.size(); j++) known = known || before[j].name == after[i].name;
        CHECK(known, "files:left", "%s created %s%s", what, after[i].name.c_str() + root.size(), hits ? " after a fault" : "");
    }
    Bytes target;
    for (size_t i = 0; i < before.size(); i++)
    {
        const Entry& b = before[i];
        const char* n = b.name.c_str() + root.size();
        const Entry* a = NULL;
        for (size_t j = 0; j < after.size(); j++) if (after[j].name == b.name) a = &after[j];
        CHECK(a != NULL, "files:gone", "%s removed %s", what, n);
        CHECK(a->st.st_mode == b.st.st_mode && a->st.st_uid == b.st.st_uid && a->st.st_gid == b.st.st_gid, "files:mode", "%s changed %s: mode %o to %o, owner %u to %u", what, n, b.st.st_mode, a->st.st_mode, b.st.st_uid, a->st.st_uid);
        CHECK(a->link == b.link, "files:link", "%s changed where %s points to", what, n);
        bool is_target = b.name == full || (hard && b.name == root + "/hard link");
        if (is_target) CHECK(a->st.st_nlink == b.st.st_nlink, "files:link", "%s: %s has %d links instead of %d", what, n, (int) a->st.st_nlink, (int) b.st.st_nlink);
        if (b.name == full) target = a->content;
        if (is_target && changes) continue;
        CHECK(a->content == b.content, "files:content", "%s changed the content of %s%s", what, n, hits ? " after a fault" : "");
        if (S_ISREG(b.st.st_mode)) CHECK((is_target && op < 7) || (a->st.st_mtim.tv_sec == b.st.st_mtim.tv_sec && a->st.st_mtim.tv_nsec == b.st.st_mtim.tv_nsec), "files:content", "%s wrote to %s or changed its time", what, n);
        count("neighbours_compared");
    }
    if (hard)
    {
        Bytes other = must_read((root + "/hard link").c_str(), "files:link");
        CHECK(other == target, "files:link", "%s: the other name of the file has another content", what);
    }
    if (changes && !hits)
    {
        // it took effect, under whatever name the file was given
        if (op < 4) CHECK(audio_of(target) == f.audio && target.size() > 10 && memcmp(target.data(), "ID3", 3) == 0 && target != f.audio, "files:effect", "the file named %s is not saved", path.c_str());
        else CHECK(target == f.audio, "files:effect", "the tag of the file named %s is not deleted", path.c_str());
        count("effects_seen");
    }
    if (hits) count("under_faults");
    count(op < 4 ? "saves" : op < 7 ? "deletions" : "reads");
    if (hard) count("hard_links");
    if (soft) count("symbolic_links");
    if (cwd) count("relative_paths");
    if (compat) free_tag(compat);
    if (s.tag) s.release();
    if (chdir(g_dir)) harness_error("chdir");
    nontrivial(hash_bytes(f.bytes) ^ log.h ^ mix(op) ^ hash_bytes(path.data(), path.size()));
    if (g_case % 397 == 3) sample("%s of %s among %zu files and links", what, path.c_str() + (cwd ? 0 : strlen(g_dir)), before.size());
    remove_tree(root);
}

// ---- C19 -------------------------------------------------------------------------------------
static inline Bytes gen_expensive(Rng& r)
{
    Bytes b;
    u32 k = r.below(10);
    if (k < 3) // few bytes, huge claims
    {
        put(b, "ID3", 3); put8(b, (u32) r.range(3, 4)); put8(b, 0); put8(b, r.chance(1, 2) ? 0 : 0x40);
        if (r.chance(1, 2)) putsync(b, 0x0FFFFFFF - r.below(100)); else put32(b, r.chance(1, 2) ? 0xFFFFFFFF : (u32) r.next());
        int n = r.range(0, 3);
        for (int i = 0; i < n; i++)
        {
            static const char* const ids[] = {"TIT2", "COMM", "APIC", "PRIV"};
            put(b, r.pick(ids), 4);
            static const u32 sizes[] = {0x7FFFFFFF, 0xFFFFFFFF, 0x0FFFFFFF, 0x10000000, 0x7F7F7F7F, 0x80000000, 3};
            put32(b, r.pick(sizes));
            put(b, "\0\0", 2);
            put(b, gen_blob(r, r.below(40)));
        }
        return b;
    }
    if (k < 8) // many tiny frames
    {
        u32 n = r.chance(1, 25) ? 20000 + r.below(10000) : 300 + r.below(3000);
        int version = r.range(3, 4);
        Bytes body;
        u32 which = r.below(7), size = r.below(4);
        for (u32 i = 0; i < n; i++)
        {
            static const char* const ids[] = {"TIT2", "COMM", "APIC", "PRIV", "TXXX"};
            char own[5] = {(char) (which == 5 ? 'T' : 'X'), (char) ('A' + i / 676 % 26), (char) ('A' + i / 26 % 26), (char) ('A' + i % 26), 0};
            put(body, which > 4 ? own : ids[which == 4 ? i % 5 : which], 4); // or all of them different
            put32(body, size);
            put(body, "\0\0", 2);
            body.resize(body.size() + size, 0);
        }
        put(b, "ID3", 3); put8(b, (u32) version); put8(b, 0); put8(b, 0);
        putsync(b, r.chance(1, 4) ? 0x0FFFFFFF : (u32) body.size());
        put(b, body);
        return b;
    }
    if (k == 8) // one big frame full of terminators, or long runs without any
    {
        GenTag t = gen_tag(r, SMALL);
        t.ext.clear(); t.flags = 0;
        t.frames.clear();
        GenFrame g;
        static const char* const ids[] = {"TIT2", "COMM", "APIC", "PRIV"};
        memcpy(g.v.id, r.pick(ids), 5);
        g.payload = Bytes(50000 + r.below(250000), r.chance(1, 2) ? 0 : 'a');
        g.payload[0] = (u8) r.below(4);
        t.frames.push_back(g);
        return t.encode();
    }
    return gen_hostile(r);
}
template <class F> static inline void measure(const Bytes& b, const char* what, F f)
{
    // Generous constants: a cost of the declared sizes or a quadratic one exceeds them at once
    const u64 max_bytes = 256 * 1024 + 100 * (u64) b.size(), max_steps = 200000 + 200 * (u64) b.size();
    g_step_limit = 0;
    steps_reset();
    ledger_start();
    g_step_limit = max_steps;
    f();
    g_step_limit = 0;
    ledger_stop();
    u64 steps = steps_now();
    CHECK(g_ledger.bytes <= max_bytes, "cost", "%s requests %llu bytes of memory for %zu bytes of input", what, (unsigned long long) g_ledger.bytes, b.size());
    CHECK(steps <= max_steps, "cost", "%s executes %llu blocks for %zu bytes of input", what, (unsigned long long) steps, b.size());
    if (b.size() >= 2000)
    {
        count_max("max_bytes_per_input_byte_x100", g_ledger.bytes * 100 / b.size());
        count_max("max_blocks_per_input_byte_x100", steps * 100 / b.size());
    }
    else
    {
        count_max("max_bytes_small_inputs", g_ledger.bytes);
        count_max("max_blocks_small_inputs", steps);
    }
    count("reads_measured");
}
// Each edit of a tag: linear in the tag and what it is given
static inline void costly_edits(Rng& r, ID3v2_Tag* t, const Bytes& b)
{
    Bytes str = gen_input(r, SMALL, 0);
    if (r.chance(1, 4)) str = Bytes(r.chance(1, 8) ? 200000 : 3000 + r.below(10000), 'x'), str.push_back(0);
    HeapCopy s(str);
    Bytes all = b;
    all.resize(b.size() + str.size());
    for (int i = 0; i < 4; i++)
    {
        switch (r.below(8))
        {
            case 0: measure(all, "ID3v2_Tag_set_title", [&] { ID3v2_Tag_set_title(t, s.p); }); break;
            case 1: measure(all, "ID3v2_Tag_set_comment", [&] { ID3v2_Tag_set_comment(t, "eng", s.p); }); break;
            case 2: measure(all, "ID3v2_Tag_set_album_cover", [&] { ID3v2_Tag_set_album_cover(t, "image/png", (int) s.n, s.p); }); break;
            case 3: measure(all, "ID3v2_Tag_delete_title", [&] { ID3v2_Tag_delete_title(t); }); break;
            case 4: measure(all, "ID3v2_Tag_delete_comment_frame", [&] { ID3v2_Tag_delete_comment_frame(t, (int) r.below(40000)); }); break;
            case 5: measure(all, "ID3v2_Tag_delete_apic_frame", [&] { ID3v2_Tag_delete_apic_frame(t, (int) r.below(40000)); }); break;
            case 6: measure(all, "ID3v2_Tag_delete_frame", [&] { ID3v2_Tag_delete_frame(t, "PRIV"); }); break;
            default: measure(all, "ID3v2_Tag_get_composer_frame", [&] { ID3v2_Tag_get_composer_frame(t); });
        }
        count("edits_measured");
    }
}
// The same through the old API
static inline void costly_old_edits(Rng& r, ID3v2_tag* t, const Bytes& b, const char* path)
{
    Bytes str = gen_input(r, SMALL, 0);
    if (r.chance(1, 4)) str = Bytes(r.chance(1, 8) ? 200000 : 3000 + r.below(10000), 'x'), str.push_back(0);
    HeapCopy s(str);
    Bytes all = b;
    all.resize(b.size() + 2 * str.size() + 4096);
    for (int i = 0; i < 3; i++)
    {
        ID3v2_frame* f = NULL;
        ID3v2_frame_text_content* x = NULL;
        ID3v2_frame_comment_content* y = NULL;
        ID3v2_frame_apic_content* z = NULL;
        switch (r.below(8))
        {
            case 0: measure(all, "tag_set_title", [&] { tag_set_title(s.p, 0, t); }); break;
            case 1: measure(all, "tag_set_comment", [&] { tag_set_comment(s.p, 0, t); }); break;
            case 2: { char mime[] = "image/png"; measure(all, "tag_set_album_cover_from_bytes", [&] { tag_set_album_cover_from_bytes(s.p, mime, (int) s.n, t); }); break; }
            case 3: measure(all, "tag_get_composer", [&] { f = tag_get_composer(t); }); break;
            case 4:
                measure(all, "parse_text_frame_content", [&] { f = tag_get_title(t); x = parse_text_frame_content(f); });
                if (x) { free(x->data); free(x); }
                break;
            case 5:
                measure(all, "parse_comment_frame_content", [&] { f = tag_get_comment(t); y = parse_comment_frame_content(f); });
                if (y) { free(y->text); free(y); }
                break;
            case 6:
                measure(all, "parse_apic_frame_content", [&] { f = tag_get_album_cover(t); z = parse_apic_frame_content(f); });
                free(z);
                break;
            default:
                all.resize(all.size() + str.size() * 6);
                measure(all, "set_tag", [&] { set_tag(path, t); });
                if (r.chance(1, 2)) measure(all, "remove_tag", [&] { remove_tag(path); });
        }
        count("old_edits_measured");
    }
}
// Converting and measuring strings
static inline void costly_strings(Rng& r)
{
    u32 n = r.chance(1, 3) ? r.below(100) : r.chance(1, 8) ? 200000 + r.below(300000) : 2000 + r.below(20000);
    Bytes b(n, 0);
    for (u32 i = 0; i < n; i++) b[i] = (u8) r.range(1, 0xFD); // no BOM
    b.push_back(0);
    HeapCopy s(b);
    char* u = NULL;
    measure(b, "ID3v2_to_unicode", [&] { u = ID3v2_to_unicode(s.p); });
    volatile int len;
    if (r.chance(1, 2)) for (int i = 0; i < (int) (2 * n); i++) if (u[i] == 0) u[i] = 'x'; // no zero byte before the end
    measure(b, "ID3v2_strlen", [&] { len = ID3v2_strlen(u); });
    measure(b, "ID3v2_strlent", [&] { len = ID3v2_strlent(u); });
    measure(b, "ID3v2_strlen", [&] { len = ID3v2_strlen(s.p); });
    free(u);
    count("strings_measured");
}
static inline void run_C19(Rng& r)
{
    if (r.chance(1, 4)) costly_strings(r);
    Bytes b = gen_expensive(r);
    const char* path = scratch("song.mp3");
    write_file(path, b);
    HeapCopy h(b);
    ID3v2_Tag* t = NULL;
    measure(b, "ID3v2_read_tag_from_buffer", [&] { t = ID3v2_read_tag_from_buffer(h, (int) h.n); });
    if (t)
    {
        count("frames_read", view_tag(t, "cost").size());
        ID3v2_FrameList* l = NULL;
        static const char* const ids[] = {"COMM", "APIC", "TIT2", "PRIV", "TXXX"};
        for (int i = 0; i < 5; i++)
        {
            measure(b, "listing the frames of a kind", [&] { l = i == 0 ? ID3v2_Tag_get_comment_frames(t) : i == 1 ? ID3v2_Tag_get_apic_frames(t) : ID3v2_Tag_get_frames(t, ids[i]); });
            measure(b, "ID3v2_FrameList_unlink", [&] { ID3v2_FrameList_unlink(l); });
            count("lists_measured");
        }
        measure(b, "ID3v2_Tag_free", [&] { ID3v2_Tag_free(t); });
    }
    measure(b, "ID3v2_read_tag", [&] { t = ID3v2_read_tag(path); });
    ID3v2_TagHeader* th = NULL;
    measure(b, "ID3v2_read_tag_header", [&] { th = ID3v2_read_tag_header(path); });
    if (th) ID3v2_TagHeader_free(th);
    ID3v2_tag* c = NULL;
    measure(b, "load_tag_with_buffer", [&] { c = load_tag_with_buffer(h, (int) h.n); });
    if (c) free_tag(c);
    measure(b, "load_tag", [&] { c = load_tag(path); });
    if (c && r.chance(1, 2)) { measure(b, "free_tag", [&] { free_tag(c); }); c = NULL; }
    if (c)
    {
        costly_old_edits(r, c, b, path);
        write_file(path, b);
        Bytes all = b;
        all.resize(b.size() + 1000000);
        measure(all, "free_tag", [&] { free_tag(c); });
    }
    if (t)
    {
        measure(b, "ID3v2_write_tag", [&] { ID3v2_write_tag(path, t); });
        measure(b, "ID3v2_delete_tag", [&] { ID3v2_delete_tag(path); });
        count("saves_measured");
        costly_edits(r, t, b);
        ID3v2_Tag_free(t);
    }
    count_max("largest_input", b.size());
    nontrivial(hash_bytes(b));
    if (g_case % 97 == 3) sample("%zu bytes: %s", b.size(), Hex(b).s);
}

// ---- C17 -------------------------------------------------------------------------------------
extern thread_local bool t_quiet;
struct Shared
{
    ID3v2_Tag* tag;
    ID3v2_tag* compat;
    Frames model;
    Bytes bytes;
    char path[600];
    u64 expected;
};
// What one thread does on its own; the result depends on nothing but the seed
static inline u64 private_work(u64 seed, const char* dir_name)
{
    Rng r(seed);
    char path[700], twin[720];
    snprintf(path, sizeof path, "%s/%s.mp3", g_dir, dir_name);
    snprintf(twin, sizeof twin, "%s/%s-twin.mp3", g_dir, dir_name);
    u64 h = seed;
    for (int i = 0; i < 6; i++)
    {
        AnyFile f = gen_file(r, SMALL);
        write_file(path, f.bytes);
        write_file(twin, f.bytes);
        Subject s;
        make_subject(r, s, SMALL, "threads");
        OpLog log;
        int n = r.range(1, 12);
        for (int k = 0; k < n; k++) random_edit(r, s.tag, s.model, OpMix(), log);
        check_frames(view_tag(s.tag, "threads"), s.model, "threads", "tag of one thread");
        ID3v2_write_tag(path, s.tag);
        Bytes after = must_read(path, "threads");
        CHECK(audio_of(after) == f.audio, "threads", "audio of a file used by one thread only");
        h = hash_bytes(after, h);
        ID3v2_Tag* t = ID3v2_read_tag(path);
        CHECK(t != NULL, "threads", "file of one thread is not read back");
        check_frames(view_tag(t, "threads"), s.model, "threads", "read back by one thread");
        h ^= digest_tag(t, "threads");
        ID3v2_Tag_free(t);
        ID3v2_tag* c = load_tag(path);
        CHECK(c != NULL, "threads", "file of one thread is not loaded");
        char title[] = "some title";
        tag_set_title(title, 0, c);
        set_tag(twin, c);
        Bytes tw = must_read(twin, "threads");
        h = hash_bytes(tw, h);
        CHECK(audio_of(tw) == f.audio, "threads", "audio of a file used by one thread only (compat)");
        free_tag(c);
        Bytes hostile = gen_hostile(r);
        HeapCopy hb(hostile);
        ID3v2_Tag* ht = ID3v2_read_tag_from_buffer(hb, (int) hb.n);
        h ^= digest_tag(ht, "threads");
        if (ht) ID3v2_Tag_free(ht);
        HeapCopy str(gen_input(r, SMALL, 0));
        char* u = ID3v2_to_unicode(str.p);
        h = hash_bytes(u, (size_t) ID3v2_strlent(u), h);
        if (u != str.p) free(u);
        if (r.chance(1, 2)) ID3v2_delete_tag(path); else remove_tag(path);
        Bytes left = must_read(path, "threads");
        CHECK(left == f.audio, "threads", "deletion by one thread");
        s.release();
    }
    unlink(path);
    unlink(twin);
    return h;
}
static inline u64 shared_work(const Shared& s, u64 seed)
{
    Rng r(seed);
    u64 h = 0;
    for (int i = 0; i < 4; i++)
    {
        check_getters(r, s.tag, s.model, "threads-shared");
        check_frames(view_tag(s.tag, "threads-shared"), s.model, "threads-shared", "shared tag");
        ID3v2_Tag* t = ID3v2_read_tag(s.path);
        CHECK(t != NULL, "threads-shared", "shared file is not read");
        h ^= digest_tag(t, "threads-shared");
        CHECK(digest_tag(t, "threads-shared") == s.expected, "threads-shared", "shared file read differently");
        ID3v2_Tag_free(t);
        ID3v2_Tag* b = ID3v2_read_tag_from_buffer((const char*) s.bytes.data(), (int) s.bytes.size());
        CHECK(b != NULL && digest_tag(b, "threads-shared") == s.expected, "threads-shared", "shared buffer read differently");
        ID3v2_Tag_free(b);
        ID3v2_TagHeader* th = ID3v2_read_tag_header(s.path);
        CHECK(th != NULL && th->tag_size == s.tag->header->tag_size, "threads-shared", "header of the shared file");
        ID3v2_TagHeader_free(th);
        compat_walk(s.compat, "threads-shared");
    }
    return h;
}
struct ThreadArg
{
    int index;
    u64 seed;
    u64 result;
    const Shared* shared;
    pthread_barrier_t* barrier;
    u32 order;
};
static void* thread_main(void* p)
{
    ThreadArg* a = (ThreadArg*) p;
    t_quiet = true;
    char name[40];
    snprintf(name, sizeof name, "thread-%d", a->index);
    pthread_barrier_wait(a->barrier);
    if (a->order & 1) { a->result = private_work(a->seed, name); shared_work(*a->shared, a->seed); }
    else { shared_work(*a->shared, a->seed); a->result = private_work(a->seed, name); }
    return NULL;
}
static inline void run_C17(Rng& r)
{
    const int N = r.chance(1, 3) ? 8 : r.range(2, 6);
    Shared sh;
    GenTag t = gen_tag(r, SMALL);
    sh.bytes = t.encode();
    put(sh.bytes, gen_audio(r, SMALL));
    path_in(sh.path, sizeof sh.path, "shared.mp3");
    write_file(sh.path, sh.bytes);
    sh.tag = ID3v2_read_tag(sh.path);
    sh.compat = load_tag(sh.path);
    CHECK(sh.tag && sh.compat, "threads", "shared file is not read");
    sh.model = t.expected();
    sh.expected = digest_tag(sh.tag, "threads");
    ThreadArg a[8];
    u64 alone[8];
    bool same_seed = r.chance(1, 4); // everybody does the same at the same time
    u64 common = r.next();
    for (int i = 0; i < N; i++)
    {
        u64 seed = same_seed ? common : r.next();
        t_quiet = true;
        alone[i] = private_work(seed, "alone");
        t_quiet = false;
        a[i] = ThreadArg{i, seed, 0, &sh, NULL, (u32) r.below(2)};
    }
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, NULL, (unsigned) N);
    pthread_t th[8];
    for (int i = 0; i < N; i++) { a[i].barrier = &bar; if (pthread_create(&th[i], NULL, thread_main, &a[i]) != 0) harness_error("pthread_create"); }
    for (int i = 0; i < N; i++) pthread_join(th[i], NULL);
    pthread_barrier_destroy(&bar);
    for (int i = 0; i < N; i++) CHECK(a[i].result == alone[i], "threads", "thread %d of %d obtained other results than alone", i, N);
    CHECK(digest_tag(sh.tag, "threads") == sh.expected, "threads", "the shared tag was changed by readers");
    ID3v2_Tag_free(sh.tag);
    free_tag(sh.compat);
    count("threads_run", (u64) N);
    count("results_compared_with_single_threaded", (u64) N);
    nontrivial(common ^ (u64) N);
    if (g_case % 17 == 3) sample("%d threads, %s seeds, shared tag with %zu frames", N, same_seed ? "equal" : "different", sh.model.size());
}

// ---- C21 -------------------------------------------------------------------------------------
extern int g_saved_stderr;
extern "C" void __sanitizer_set_report_fd(void*) __attribute__((weak));
extern char** environ;
struct ProcessState
{
    char cwd[700];
    mode_t mask;
    uid_t uids[4];
    char locales[6][80];
    u64 env, actions, limits, timers, signals;
    off_t input;
    int threads, priority, rounding;
};
static inline int thread_count()
{
    int n = 0;
    DIR* d = opendir("/proc/self/task");
    if (!d) harness_error("/proc/self/task");
    while (readdir(d)) n++;
    closedir(d);
    return n - 2;
}
static inline void process_state(ProcessState& p)
{
    memset(&p, 0, sizeof p);
    if (!getcwd(p.cwd, sizeof p.cwd)) strcpy(p.cwd, "?");
    p.mask = umask(0);
    umask(p.mask);
    p.uids[0] = getuid(); p.uids[1] = geteuid(); p.uids[2] = getgid(); p.uids[3] = getegid();
    static const int categories[] = {LC_CTYPE, LC_NUMERIC, LC_TIME, LC_COLLATE, LC_MONETARY, LC_MESSAGES};
    for (int i = 0; i < 6; i++) snprintf(p.locales[i], sizeof p.locales[i], "%s", setlocale(categories[i], NULL));
    for (char** e = environ; e && *e; e++) p.env = mix(p.env ^ hash_bytes(*e, strlen(*e)));
    for (int i = 1; i < 65; i++)
    {
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        if (sigaction(i, NULL, &sa) == 0) p.actions = mix(p.actions ^ (u64) (uintptr_t) sa.sa_sigaction ^ ((u64) sa.sa_flags << 32) ^ (u64) sigismember(&sa.sa_mask, SIGINT));
    }
    sigset_t set;
    sigemptyset(&set);
    sigprocmask(SIG_SETMASK, NULL, &set);
    for (int i = 1; i < 65; i++) p.signals = p.signals << 1 | (u64) (sigismember(&set, i) == 1);
    for (int i = 0; i < 16; i++)
    {
        struct rlimit l;
        if (getrlimit((__rlimit_resource_t) i, &l) == 0) p.limits = mix(p.limits ^ l.rlim_cur ^ mix(l.rlim_max));
    }
    for (int i = 0; i < 3; i++)
    {
        struct itimerval t;
        if (getitimer((__itimer_which_t) i, &t) == 0 && (t.it_value.tv_sec || t.it_value.tv_usec || t.it_interval.tv_sec || t.it_interval.tv_usec)) p.timers |= 1u << i;
    }
    p.input = lseek(0, 0, SEEK_CUR);
    p.threads = thread_count();
    p.priority = getpriority(PRIO_PROCESS, 0);
    p.rounding = fegetround();
}
static inline void run_C21(Rng& r)
{
    static bool installed;
    static int out;
    if (!installed)
    {
        // standard streams of our own: output is caught, input has content and a position
        const char* in = scratch("stdin");
        Bytes b;
        for (int i = 0; i < 5000; i++) put8(b, (u32) i * 7);
        write_file(in, b);
        g_saved_stderr = fcntl(2, F_DUPFD, 200);
        out = open(scratch("stdout"), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
        if (out < 0 || g_saved_stderr < 0) harness_error("standard streams");
        fflush(NULL);
        if (!freopen(in, "rb", stdin)) harness_error("freopen");
        if (dup2(out, 1) < 0 || dup2(out, 2) < 0) harness_error("dup2");
        if (__sanitizer_set_report_fd) __sanitizer_set_report_fd((void*) (intptr_t) g_saved_stderr);
        if (mkdir(scratch("elsewhere"), 0755)) harness_error("mkdir");
        faults_install();
        installed = true;
    }
    static const mode_t masks[] = {022, 077, 0, 027};
    umask(r.pick(masks));
    if (chdir(r.chance(1, 2) ? g_dir : scratch("elsewhere"))) harness_error("chdir");
    if (r.chance(1, 2)) setenv("TMPDIR", g_dir, 1); else unsetenv("TMPDIR");
    u32 seed = (u32) r.next();
    srand(seed);
    int want_rand[3];
    for (int i = 0; i < 3; i++) want_rand[i] = rand();
    srand(seed);
    char list[] = "first,second,third";
    strtok(list, ",");
    const char* own_path = scratch("own");
    write_file(own_path, Bytes{'a', 'b', 'c', 'd', 'e', 'f'});
    FILE* own = fopen(own_path, "r+b");
    if (!own || fgetc(own) != 'a') harness_error("own file");
    const char* unwritten_path = scratch("unwritten");
    FILE* unwritten = fopen(unwritten_path, "wb");
    if (!unwritten || fputs("not yet", unwritten) < 0) harness_error("own file");
    struct itimerval hour = {{0, 0}, {3600, 0}}, none = {{0, 0}, {0, 0}};
    bool timer = r.chance(1, 2);
    if (timer) setitimer(ITIMER_REAL, &hour, NULL);
    errno = 0;
    ProcessState before, after;
    process_state(before);
    OpLog log;
    int kind;
    u64 h = resource_history(Rng(r.next()), log, kind);
    process_state(after);
    fflush(stdout);
    fflush(stderr);
    char text[200];
    ssize_t n = pread(out, text, sizeof text - 1, 0);
    if (n > 0) text[n] = 0;
    CHECK(n == 0, "process", "a history of kind %d printed: %s", kind, text);
#define SAME(field, what) CHECK(memcmp(&before.field, &after.field, sizeof before.field) == 0, "process", "a history of kind %d changed the " what, kind)
    SAME(cwd, "working directory");
    SAME(mask, "file mode mask");
    SAME(uids, "user or group");
    SAME(locales, "locale");
    SAME(env, "environment");
    SAME(actions, "handling of a signal");
    SAME(signals, "signal mask");
    SAME(limits, "resource limits");
    SAME(timers, "timers");
    SAME(input, "position of standard input");
    SAME(threads, "number of threads");
    SAME(priority, "priority");
    SAME(rounding, "rounding mode");
#undef SAME
    int status;
    errno = 0;
    CHECK(waitpid(-1, &status, WNOHANG) == -1 && errno == ECHILD, "process", "a history of kind %d started another process", kind);
    for (int i = 0; i < 3; i++) CHECK(rand() == want_rand[i], "process", "a history of kind %d disturbed the caller's sequence of random numbers", kind);
    const char* second = strtok(NULL, ",");
    CHECK(second != NULL && strcmp(second, "second") == 0, "process", "a history of kind %d disturbed the caller's strtok", kind);
    if (timer) setitimer(ITIMER_REAL, &none, NULL);
    CHECK(must_read(unwritten_path, "process").empty(), "process", "a history of kind %d flushed a file that the caller has open", kind);
    CHECK(fputs(" at all", unwritten) >= 0 && must_read(unwritten_path, "process").empty() && fclose(unwritten) == 0 && must_read(unwritten_path, "process").size() == 14, "process", "a history of kind %d disturbed a file that the caller is writing", kind);
    CHECK(fgetc(own) == 'b' && ftell(own) == 2 && fclose(own) == 0, "process", "a history of kind %d disturbed a file that the caller has open", kind);
    static const char* const names[] = {"histories_edit", "histories_edit", "histories_hostile", "histories_compat", "histories_no_tag", "histories_read_faults", "histories_delete", "histories_delete_all", "histories_strings", "histories_covers", "histories_too_large"};
    count(names[kind]);
    count("process_states_compared");
    if (g_fail_hits) count("histories_with_injected_fault");
    g_fail_hits = 0;
    nontrivial(h ^ log.h ^ (u64) kind);
    if (g_case % 397 == 3) sample("history of kind %d, %u edits: process unchanged", kind, log.ops);
}

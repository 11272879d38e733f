// Random API calls and the reference model: an ordered list of frames.
#pragma once
#include "view.h"
#include <limits.h>

struct OpLog // the last operations, for messages
{
    char s[700];
    size_t n;
    u64 h;
    u32 ops;
    OpLog() : n(0), h(77), ops(0) { s[0] = 0; }
    void add(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        char t[96];
        va_list a;
        va_start(a, fmt);
        vsnprintf(t, sizeof t, fmt, a);
        va_end(a);
        h = hash_bytes(t, strlen(t), h);
        ops++;
        size_t k = strlen(t);
        if (n + k + 2 >= sizeof s) { memmove(s, s + sizeof s / 2, n - sizeof s / 2 + 1); n -= sizeof s / 2; }
        memcpy(s + n, t, k);
        n += k;
        s[n++] = ';';
        s[n] = 0;
    }
};

struct NamedText
{
    const char* id;
    void (*set)(ID3v2_Tag*, const char*);
    ID3v2_TextFrame* (*get)(ID3v2_Tag*);
    void (*del)(ID3v2_Tag*);
};
static const NamedText NAMED[] = {
    {"TPE1", ID3v2_Tag_set_artist, ID3v2_Tag_get_artist_frame, ID3v2_Tag_delete_artist},
    {"TALB", ID3v2_Tag_set_album, ID3v2_Tag_get_album_frame, ID3v2_Tag_delete_album},
    {"TIT2", ID3v2_Tag_set_title, ID3v2_Tag_get_title_frame, ID3v2_Tag_delete_title},
    {"TRCK", ID3v2_Tag_set_track, ID3v2_Tag_get_track_frame, ID3v2_Tag_delete_track},
    {"TPE2", ID3v2_Tag_set_album_artist, ID3v2_Tag_get_album_artist_frame, ID3v2_Tag_delete_album_artist},
    {"TCON", ID3v2_Tag_set_genre, ID3v2_Tag_get_genre_frame, ID3v2_Tag_delete_genre},
    {"TYER", ID3v2_Tag_set_year, ID3v2_Tag_get_year_frame, ID3v2_Tag_delete_year},
    {"TPOS", ID3v2_Tag_set_disc_number, ID3v2_Tag_get_disc_number_frame, ID3v2_Tag_delete_disc_number},
    {"TCOM", ID3v2_Tag_set_composer, ID3v2_Tag_get_composer_frame, ID3v2_Tag_delete_composer},
};

// ---- model -----------------------------------------------------------------------------------
static inline int model_find(const Frames& f, const char* id, int nth = 0)
{
    for (size_t i = 0; i < f.size(); i++)
        if (memcmp(f[i].id, id, 4) == 0 && nth-- == 0) return (int) i;
    return -1;
}
static inline int model_count(const Frames& f, const char* id)
{
    int n = 0;
    for (size_t i = 0; i < f.size(); i++) n += memcmp(f[i].id, id, 4) == 0;
    return n;
}
static inline void model_set(Frames& f, const VFrame& v)
{
    int i = model_find(f, v.id);
    if (i < 0) f.push_back(v);
    else f[(size_t) i] = v;
}
static inline void model_delete(Frames& f, const char* id, int nth = 0)
{
    if (nth < 0) return;
    int i = model_find(f, id, nth);
    if (i >= 0) f.erase(f.begin() + i);
}
static inline u64 model_size(const Frames& f)
{
    u64 n = 0;
    for (size_t i = 0; i < f.size(); i++) n += 10 + f[i].payload_size();
    return n;
}

// ---- inputs ----------------------------------------------------------------------------------
// A string as the setters take it: terminated, ISO or UTF-16 with BOM
static inline Bytes gen_input(Rng& r, Size sz, int enc = -1)
{
    if (enc < 0) enc = (int) r.below(2);
    Bytes b = gen_string(r, enc, gen_len(r, sz));
    terminate(b, enc);
    return b;
}
static inline Bytes gen_flags(Rng& r)
{
    Bytes b(3, 0);
    if (r.chance(1, 2)) { b[0] = r.byte(); b[1] = r.byte(); }
    return b;
}
static inline Bytes gen_lang(Rng& r)
{
    Bytes b;
    if (r.chance(1, 12) && dict_string(r, b) && b.size() == 3) { put8(b, 0); return b; }
    b.clear();
    switch (r.below(8))
    {
        case 0: put(b, "XXX", 4); break;
        case 1: put(b, "\0\0\0", 4); break;
        case 2: for (int i = 0; i < 3; i++) put8(b, r.byte()); put8(b, 0); break;
        default: for (int i = 0; i < 3; i++) put8(b, (u32) r.range('a', 'z')); put8(b, 0);
    }
    return b;
}
// An id of the list, as a caller can ask for it: ids of broken frames may not even be strings
static inline bool pick_id(Rng& r, const Frames& model, char* id)
{
    if (model.empty()) return false;
    memcpy(id, model[r.below((u32) model.size())].id, 5);
    for (int i = 0; i < 4; i++) if (!((id[i] >= 'A' && id[i] <= 'Z') || (id[i] >= '0' && id[i] <= '9'))) return false;
    return true;
}
// The same id with a letter in the other case is another id
static inline void other_case(Rng& r, char* id)
{
    u32 i = r.below(4);
    if (id[i] >= 'A' && id[i] <= 'Z') id[i] = (char) (id[i] | 0x20);
}
static inline Bytes id_input(const char* id)
{
    Bytes b;
    put(b, id, 5);
    return b;
}
// Few ids, so that histories collide
static const char* const OP_IDS[] = {"TIT2", "TPE1", "TALB", "TRCK", "TXXX", "TSSE", "TDRC", "TZ9Z", "TYER", "TCOM"};

struct OpMix
{
    Size size;
    bool mixed;      // comments whose description and text have different encodings
    bool alias;      // inputs that point into the tag itself
    u32 deletes;     // out of 10
    OpMix() : size(SMALL), mixed(false), alias(false), deletes(4) {}
};

// A string of the tag, as a C string: the API reads it up to its first terminator
struct Piece
{
    const char* p;
    Bytes content; // with the terminator
    bool bom;
};
static inline void add_piece(std::vector<Piece>& all, const char* p, const Bytes& value)
{
    Piece x;
    x.p = p;
    x.bom = has_bom(value);
    bool ended = false;
    for (size_t q = 0; !ended && q + x.bom < value.size(); q += 1 + x.bom)
    {
        ended = !value[q] && (!x.bom || !value[q + 1]);
        put(x.content, value.data() + q, 1 + x.bom);
    }
    if (ended && value.size() < 4000000) all.push_back(x); // the tag must still fit into a file
}
// Gives parts of the tag as input to a setter of the same tag, which may well replace the frame
// they belong to. False if the tag has no suitable part.
static inline bool alias_edit(Rng& r, ID3v2_Tag* tag, Frames& model, OpLog& log)
{
    std::vector<Piece> all, iso;
    std::vector<std::pair<const char*, Bytes> > blobs;
    std::vector<const char*> langs, flags, ids;
    size_t i = 0;
    for (ID3v2_FrameList* l = tag->frames; l != NULL && l->frame != NULL && i < model.size(); l = l->next, i++)
    {
        const VFrame& m = model[i];
        flags.push_back(l->frame->header->flags);
        if (m.kind == TEXT) ids.push_back(l->frame->header->id);
        if (m.kind == COMM) langs.push_back(((ID3v2_CommentFrame*) l->frame)->data->language);
        if (m.kind == APIC) blobs.push_back(std::make_pair((const char*) ((ID3v2_ApicFrame*) l->frame)->data->data, m.pic));
        if (m.enc >= 2) continue;
        if (m.kind == TEXT) add_piece(all, ((ID3v2_TextFrame*) l->frame)->data->text, m.text);
        if (m.kind == COMM)
        {
            add_piece(all, ((ID3v2_CommentFrame*) l->frame)->data->short_description, m.desc);
            add_piece(all, ((ID3v2_CommentFrame*) l->frame)->data->comment, m.text);
        }
        if (m.kind == APIC)
        {
            add_piece(all, ((ID3v2_ApicFrame*) l->frame)->data->description, m.desc);
            add_piece(all, ((ID3v2_ApicFrame*) l->frame)->data->mime_type, m.mime);
        }
    }
    if (all.empty()) return false;
    for (size_t j = 0; j < all.size(); j++) if (!all[j].bom) iso.push_back(all[j]);
    Piece s = all[r.below((u32) all.size())];
    VFrame v;
    v.enc = s.bom;
    static const char no_flags[2] = {0, 0};
    const char* fl = !flags.empty() && r.chance(1, 2) ? flags[r.below((u32) flags.size())] : no_flags;
    u32 k = r.below(6);
    if (k < 2)
    {
        v.kind = TEXT;
        v.text = s.content;
        if (k == 0 && r.chance(1, 2))
        {
            const NamedText& n = NAMED[r.below(9)];
            memcpy(v.id, n.id, 5);
            log.add("set %s from inside the tag", n.id);
            n.set(tag, s.p);
        }
        else
        {
            char own[5] = {0};
            const char* id = own;
            memcpy(own, r.pick(OP_IDS), 4);
            if (!ids.empty() && r.chance(2, 3)) { id = ids[r.below((u32) ids.size())]; if (r.chance(1, 2)) { memcpy(own, id, 4); id = own; } }
            memcpy(v.id, id, 4);
            memcpy(v.flags, fl, 2);
            ID3v2_TextFrameInput in = {id, fl, s.p};
            log.add("set_text_frame(%s) from inside the tag", v.id);
            ID3v2_Tag_set_text_frame(tag, &in);
        }
        model_set(model, v);
    }
    else if (k < 4)
    {
        v.kind = COMM;
        memcpy(v.id, "COMM", 5);
        const char* lang = !langs.empty() && r.chance(2, 3) ? langs[r.below((u32) langs.size())] : "eng";
        memcpy(v.lang, lang, 3);
        v.text = s.content;
        if (s.bom) put(v.desc, "\xFF\xFE\0\0", 4); else put8(v.desc, 0);
        if (r.chance(1, 3))
        {
            log.add("set_comment from inside the tag");
            ID3v2_Tag_set_comment(tag, lang, s.p);
            model_set(model, v);
        }
        else
        {
            memcpy(v.flags, fl, 2);
            Piece d = all[r.below((u32) all.size())];
            if (d.bom != s.bom || r.chance(1, 3)) d = s;
            v.desc = d.content;
            bool add = r.chance(1, 3);
            ID3v2_CommentFrameInput in = {fl, lang, d.p, s.p};
            log.add("%s_comment_frame from inside the tag", add ? "add" : "set");
            if (add) ID3v2_Tag_add_comment_frame(tag, &in); else ID3v2_Tag_set_comment_frame(tag, &in);
            if (add) model.push_back(v); else model_set(model, v);
        }
    }
    else
    {
        v.kind = APIC;
        memcpy(v.id, "APIC", 5);
        const char* mime = "image/png";
        put(v.mime, mime, 10);
        if (!iso.empty() && r.chance(2, 3)) { const Piece& m = iso[r.below((u32) iso.size())]; mime = m.p; v.mime = m.content; }
        const char* pic = "\x89PNG";
        put(v.pic, pic, 4);
        if (!blobs.empty() && r.chance(2, 3)) { u32 j = r.below((u32) blobs.size()); pic = blobs[j].first; v.pic = blobs[j].second; }
        if (r.chance(1, 3))
        {
            v.enc = 1;
            v.ptype = 3;
            put(v.desc, "\xFF\xFE\0\0", 4);
            log.add("set_album_cover from inside the tag");
            ID3v2_Tag_set_album_cover(tag, mime, (int) v.pic.size(), pic);
            model_set(model, v);
        }
        else
        {
            v.ptype = (u8) r.below(0x15);
            v.desc = s.content;
            memcpy(v.flags, fl, 2);
            bool add = r.chance(1, 3);
            ID3v2_ApicFrameInput in = {fl, mime, s.p, (char) v.ptype, (int) v.pic.size(), pic};
            log.add("%s_apic_frame from inside the tag", add ? "add" : "set");
            if (add) ID3v2_Tag_add_apic_frame(tag, &in); else ID3v2_Tag_set_apic_frame(tag, &in);
            if (add) model.push_back(v); else model_set(model, v);
        }
    }
    count("inputs_inside_the_tag");
    return true;
}

// Performs one random edit on the tag and on the model. All inputs live in exactly sized heap
// blocks that are overwritten and freed as soon as the call returns.
static inline void random_edit(Rng& r, ID3v2_Tag* tag, Frames& model, const OpMix& mix, OpLog& log)
{
    Size sz = mix.size;
    if (sz == SMALL && r.chance(1, 1500) && model.size() < 4000) // very many frames
    {
        static const u32 many[] = {100, 127, 128, 255, 256, 257, 300, 512, 1000, 1023, 1024, 1025};
        u32 n = r.chance(1, 2) ? r.pick(many) : dict_len(r, 1200);
        bool comm = r.chance(1, 2);
        log.add("add %u %s frames", n, comm ? "COMM" : "APIC");
        for (u32 i = 0; i < n; i++)
        {
            VFrame v;
            char t[16];
            put(comm ? v.text : v.pic, t, (size_t) snprintf(t, sizeof t, "%u", i) + 1);
            v.kind = comm ? COMM : APIC;
            memcpy(v.id, comm ? "COMM" : "APIC", 5);
            put8(v.desc, 0);
            if (comm)
            {
                memcpy(v.lang, "eng", 3);
                ID3v2_CommentFrameInput in = {"\0\0", "eng", "", t};
                ID3v2_Tag_add_comment_frame(tag, &in);
            }
            else
            {
                put8(v.mime, 0);
                v.ptype = (u8) i;
                ID3v2_ApicFrameInput in = {"\0\0", "", "", (char) i, (int) v.pic.size(), t};
                ID3v2_Tag_add_apic_frame(tag, &in);
            }
            model.push_back(v);
        }
        count("bursts_of_frames");
        return;
    }
    bool crowd = model.size() > 4000 && r.chance(1, 2);
    if (!crowd && !r.chance(mix.deletes, 10))
    {
        u32 k = r.below(20);
        if (mix.alias && !model.empty() && r.chance(1, 3) && alias_edit(r, tag, model, log)) return;
        VFrame v;
        if (k < 7)
        {
            const NamedText& n = NAMED[r.below(9)];
            v.kind = TEXT;
            memcpy(v.id, n.id, 5);
            v.text = gen_input(r, sz);
            v.enc = has_bom(v.text);
            HeapCopy t(v.text);
            log.add("set %s(%zu)", n.id, v.text.size());
            n.set(tag, t);
            model_set(model, v);
        }
        else if (k < 11)
        {
            v.kind = TEXT;
            if (r.chance(3, 4)) memcpy(v.id, r.pick(OP_IDS), 5); else gen_text_id(r, v.id);
            v.text = gen_input(r, sz);
            v.enc = has_bom(v.text);
            Bytes fl = gen_flags(r);
            memcpy(v.flags, fl.data(), 2);
            HeapCopy id(id_input(v.id)), flags(fl), t(v.text);
            log.add("set_text_frame(%s,%zu)", v.id, v.text.size());
            {
                ID3v2_TextFrameInput in = {id, flags, t};
                ID3v2_Tag_set_text_frame(tag, &in);
                memset((void*) &in, 0xDD, sizeof in);
            }
            model_set(model, v);
        }
        else if (k < 15)
        {
            v.kind = COMM;
            memcpy(v.id, "COMM", 5);
            v.text = gen_input(r, sz);
            v.enc = has_bom(v.text);
            Bytes fl = gen_flags(r), la = gen_lang(r);
            if (k == 11)
            {
                memcpy(v.lang, la.data(), 3);
                if (v.enc) put(v.desc, "\xFF\xFE\0\0", 4);
                else put8(v.desc, 0);
                HeapCopy lang(la), t(v.text);
                log.add("set_comment(%zu)", v.text.size());
                ID3v2_Tag_set_comment(tag, lang, t);
                model_set(model, v);
                return;
            }
            int desc_enc = mix.mixed && r.chance(1, 8) ? 1 - v.enc : v.enc;
            v.desc = gen_string(r, desc_enc, gen_desc_len(r));
            terminate(v.desc, desc_enc);
            memcpy(v.lang, la.data(), 3);
            memcpy(v.flags, fl.data(), 2);
            HeapCopy flags(fl), lang(la), d(v.desc), t(v.text);
            ID3v2_CommentFrameInput in = {flags, lang, d, t};
            bool add = r.chance(2, 3);
            log.add("%s_comment_frame(%zu,%zu)", add ? "add" : "set", v.desc.size(), v.text.size());
            if (add) ID3v2_Tag_add_comment_frame(tag, &in); else ID3v2_Tag_set_comment_frame(tag, &in);
            memset((void*) &in, 0xDD, sizeof in);
            if (add) model.push_back(v); else model_set(model, v);
        }
        else
        {
            v.kind = APIC;
            memcpy(v.id, "APIC", 5);
            v.mime = gen_mime(r);
            put8(v.mime, 0);
            v.pic = gen_blob(r, gen_len(r, sz));
            if (k == 15)
            {
                v.enc = 1;
                v.ptype = 3;
                put(v.desc, "\xFF\xFE\0\0", 4);
                HeapCopy m(v.mime), p(v.pic);
                log.add("set_album_cover(%zu)", v.pic.size());
                ID3v2_Tag_set_album_cover(tag, m, (int) v.pic.size(), p);
                model_set(model, v);
                return;
            }
            v.ptype = r.chance(3, 4) ? (u8) r.below(0x15) : r.byte();
            v.enc = (u8) r.below(2);
            v.desc = gen_string(r, v.enc, gen_desc_len(r));
            terminate(v.desc, v.enc);
            Bytes fl = gen_flags(r);
            memcpy(v.flags, fl.data(), 2);
            HeapCopy flags(fl), m(v.mime), d(v.desc), p(v.pic);
            ID3v2_ApicFrameInput in = {flags, m, d, (char) v.ptype, (int) v.pic.size(), p};
            bool add = r.chance(2, 3);
            log.add("%s_apic_frame(%zu,%zu,%zu)", add ? "add" : "set", v.mime.size(), v.desc.size(), v.pic.size());
            if (add) ID3v2_Tag_add_apic_frame(tag, &in); else ID3v2_Tag_set_apic_frame(tag, &in);
            memset((void*) &in, 0xDD, sizeof in);
            if (add) model.push_back(v); else model_set(model, v);
        }
        return;
    }
    u32 k = crowd ? 11 : r.below(12);
    if (k < 3)
    {
        const NamedText& n = NAMED[r.below(9)];
        log.add("delete %s", n.id);
        n.del(tag);
        model_delete(model, n.id);
    }
    else if (k < 7)
    {
        char id[5];
        if (r.chance(2, 3) && pick_id(r, model, id)) {}
        else if (r.chance(1, 2)) gen_text_id(r, id);
        else gen_raw_id(r, id);
        if (r.chance(1, 10)) other_case(r, id);
        log.add("delete_frame(%s)", id);
        HeapCopy i(id_input(id));
        // the id may well be the one in the header of the frame that goes away
        ID3v2_Frame* f = mix.alias && r.chance(1, 3) ? ID3v2_Tag_get_frame(tag, i) : NULL;
        ID3v2_Tag_delete_frame(tag, f != NULL ? f->header->id : (const char*) i);
        model_delete(model, id);
    }
    else if (k == 7)
    {
        log.add("delete_comment");
        ID3v2_Tag_delete_comment(tag);
        model_delete(model, "COMM");
    }
    else if (k == 8)
    {
        log.add("delete_album_cover");
        ID3v2_Tag_delete_album_cover(tag);
        model_delete(model, "APIC");
    }
    else
    {
        bool comm = crowd ? model_count(model, "COMM") > 4000 : r.chance(1, 2);
        const char* id = comm ? "COMM" : "APIC";
        int n = model_count(model, id);
        int i = r.chance(1, 12) ? (r.chance(1, 2) ? INT_MAX : INT_MIN) : r.chance(1, 8) ? r.range(-2, n + 2) : n > 4000 && r.chance(1, 2) ? n - 1 - r.range(0, 5) : r.range(0, n > 0 ? n - 1 : 0);
        log.add("delete_%s_frame(%d of %d)", comm ? "comment" : "apic", i, n);
        if (comm) ID3v2_Tag_delete_comment_frame(tag, i); else ID3v2_Tag_delete_apic_frame(tag, i);
        model_delete(model, id, i);
    }
}

// ---- comparisons -----------------------------------------------------------------------------
static inline void check_one(const ID3v2_Frame* got, const Frames& model, const char* id, const char* what, const char* key)
{
    int i = model_find(model, id);
    if (i < 0) { CHECK(got == NULL, key, "%s returns a frame, but there is no %s", what, id); return; }
    CHECK(got != NULL, key, "%s returns no frame, but there is a %s", what, id);
    Frames a(1), b(1);
    view_frame(got, a[0], key);
    b[0] = model[(size_t) i];
    check_frames(a, b, key, what);
}
static inline void check_matches(ID3v2_FrameList* got, const Frames& model, const char* id, const char* what, const char* key)
{
    Frames want;
    for (size_t i = 0; i < model.size(); i++) if (memcmp(model[i].id, id, 4) == 0) want.push_back(model[i]);
    check_frames(view_list(got, key), want, key, what);
    ID3v2_FrameList_unlink(got);
}
// Every getter against the model
static inline void check_getters(Rng& r, ID3v2_Tag* tag, const Frames& model, const char* key)
{
    for (int i = 0; i < 9; i++) check_one((ID3v2_Frame*) NAMED[i].get(tag), model, NAMED[i].id, NAMED[i].id, key);
    check_one((ID3v2_Frame*) ID3v2_Tag_get_comment_frame(tag), model, "COMM", "get_comment_frame", key);
    check_one((ID3v2_Frame*) ID3v2_Tag_get_album_cover_frame(tag), model, "APIC", "get_album_cover_frame", key);
    check_matches(ID3v2_Tag_get_comment_frames(tag), model, "COMM", "get_comment_frames", key);
    check_matches(ID3v2_Tag_get_apic_frames(tag), model, "APIC", "get_apic_frames", key);
    for (int i = 0; i < 3; i++)
    {
        char id[5];
        if (r.chance(3, 4) && pick_id(r, model, id)) {}
        else if (r.chance(1, 2)) gen_text_id(r, id);
        else gen_raw_id(r, id);
        if (r.chance(1, 10)) other_case(r, id);
        HeapCopy hid(id_input(id));
        check_one(ID3v2_Tag_get_frame(tag, hid), model, id, "get_frame", key);
        check_matches(ID3v2_Tag_get_frames(tag, hid), model, id, "get_frames", key);
    }
    count("getter_results_compared", 19);
}

// ---- sources of tags and files ---------------------------------------------------------------
static inline int file_kinds() { return 5; }
// A file to save to or to delete from: 0 no tag, 1.. some tag; the audio after it
struct AnyFile
{
    Bytes bytes, audio;
    GenTag tag;
    bool tagged;
    int kind;
};
static inline AnyFile gen_file(Rng& r, Size sz)
{
    AnyFile f;
    f.kind = (int) r.below(6);
    f.audio = gen_audio(r, sz);
    f.tagged = f.kind > 0;
    if (f.kind == 0) { f.bytes = f.audio; return f; }
    f.tag = gen_tag(r, sz);
    f.bytes = f.tag.encode();
    if (r.chance(1, 12)) // a second tag is part of what follows the first one
    {
        GenTag second = gen_tag(r, SMALL);
        Bytes b = second.encode();
        put(b, f.audio);
        f.audio = b;
    }
    if (f.kind == 1 && f.bytes.size() > 10) // nonsense inside a tag of a proper size
    {
        size_t to = 10 + f.tag.size;
        for (int i = 0; i < 8; i++) f.bytes[10 + r.below((u32) to - 10 ? (u32) to - 10 : 1)] = r.byte();
    }
    else if (f.kind == 2 && r.chance(1, 2)) // declares more than the file has
    {
        f.audio.clear();
        f.bytes.resize(10 + r.below((u32) f.bytes.size() - 9));
        Bytes s;
        putsync(s, r.chance(1, 8) ? 0x0FFFFFFF : (u32) f.bytes.size() - 10 + 1 + r.below(5000));
        memcpy(&f.bytes[6], s.data(), 4);
        return f;
    }
    put(f.bytes, f.audio);
    return f;
}

// A tag in memory together with its model: new or loaded, of either version
struct Subject
{
    ID3v2_Tag* tag;
    Frames model;
    GenTag source;
    bool loaded;
    Subject() : tag(NULL), loaded(false) {}
    void release() { if (tag) { ID3v2_Tag_free(tag); tag = NULL; } }
};
static inline void make_subject(Rng& r, Subject& s, Size sz, const char* key)
{
    if (r.chance(1, 2))
    {
        s.loaded = true;
        s.source = gen_tag(r, sz);
        HeapCopy b(s.source.encode());
        s.tag = ID3v2_read_tag_from_buffer(b, (int) b.n);
        CHECK(s.tag != NULL, key, "a conforming tag is not read");
        s.model = s.source.expected();
        return;
    }
    if (r.chance(1, 2)) s.tag = ID3v2_Tag_new_empty();
    else if (r.chance(1, 2)) s.tag = ID3v2_Tag_new(NULL, 0);
    else
    {
        Bytes h;
        put(h, "ID3", 3); put8(h, (u32) r.range(3, 4)); put8(h, 0); put8(h, 0); put32(h, 0);
        HeapCopy b(h);
        ID3v2_TagHeader* header = ID3v2_read_tag_header_from_buffer(b);
        CHECK(header != NULL, key, "a conforming header is not read");
        s.tag = ID3v2_Tag_new(header, 0);
    }
    CHECK(s.tag != NULL && s.tag->header != NULL, key, "no new tag");
    if (r.chance(1, 4)) s.tag->header->major_version = (char) r.range(3, 4);
}

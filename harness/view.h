// Reads everything a tag exposes, through the public structures.
#pragma once
#include "gen.h"
extern "C" {
#include "id3v2lib.h"
#include "id3v2lib.compat.h"
}
#include "stale.h"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define INIT_CHECK(p, n) __msan_check_mem_is_initialized(p, n)
#endif
#endif
#ifndef INIT_CHECK
#define INIT_CHECK(p, n) ((void) 0)
#endif

static inline bool has_bom(const char* s)
{
    return ((u8) s[0] == 0xFF && (u8) s[1] == 0xFE) || ((u8) s[0] == 0xFE && (u8) s[1] == 0xFF);
}
static inline bool has_bom(const Bytes& b) { return b.size() >= 2 && has_bom((const char*) b.data()); }

// Whether the library gave this byte a value: tells an empty string of one byte from one of two
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" int __asan_address_is_poisoned(void const volatile*);
static inline bool has_value(const char* p) { return !__asan_address_is_poisoned(p); }
#elif !__has_feature(memory_sanitizer) && !__has_feature(thread_sanitizer)
static inline bool has_value(const char*) { return true; } // nothing hostile is read in this build
#else
extern "C" int __sanitizer_get_ownership(const volatile void*);
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
static inline bool has_value(const char* p) { return !__sanitizer_get_ownership(p - 1) || __sanitizer_get_allocated_size(p - 1) > 1; }
#endif
#endif
// A terminated string of the given encoding, terminator included
static inline Bytes copy_string(const char* s, int enc)
{
    Bytes b;
    bool w = enc == 2 || (enc == 1 && s[0] == 0 && has_value(s + 1) && s[1] == 0) || ((u8) s[0] == 0xFF && (u8) s[1] == 0xFE) || ((u8) s[0] == 0xFE && (u8) s[1] == 0xFF);
    size_t n = 0;
    if (w) { while (s[n] != 0 || s[n + 1] != 0) n += 2; n += 2; }
    else n = strlen(s) + 1;
    put(b, s, n);
    return b;
}
static inline Bytes copy_mime(const char* s)
{
    Bytes b;
    put(b, s, strlen(s) + 1);
    return b;
}

static inline void view_frame(const ID3v2_Frame* f, VFrame& v, const char* key)
{
    CHECK(f != NULL, key, "no frame");
    INIT_CHECK(f, sizeof *f);
    CHECK(f->header != NULL, key, "a frame has no header");
    INIT_CHECK(f->header, 8);
    INIT_CHECK(f->header->flags, 2);
    memcpy(v.id, f->header->id, 4);
    v.id[4] = 0;
    memcpy(v.flags, f->header->flags, 2);
    v.kind = kind_of(v.id);
    CHECK(f->header->size >= 0, key, "frame %s has size %d", v.id, f->header->size);
    if (v.kind == TEXT)
    {
        const ID3v2_TextFrame* t = (const ID3v2_TextFrame*) f;
        CHECK(t->data != NULL && t->data->text != NULL, key, "text frame %s has no data", v.id);
        INIT_CHECK(&t->data->size, 5);
        CHECK(t->data->size >= 0, key, "text frame %s has text size %d", v.id, t->data->size);
        v.enc = (u8) t->data->encoding;
        INIT_CHECK(t->data->text, (size_t) t->data->size);
        put(v.text, t->data->text, (size_t) t->data->size);
    }
    else if (v.kind == COMM)
    {
        const ID3v2_CommentFrame* t = (const ID3v2_CommentFrame*) f;
        CHECK(t->data != NULL && t->data->comment != NULL && t->data->short_description != NULL, key, "comment frame without data");
        INIT_CHECK(&t->data->size, 8);
        CHECK(t->data->size >= 0, key, "comment has text size %d", t->data->size);
        v.enc = (u8) t->data->encoding;
        memcpy(v.lang, t->data->language, 3);
        v.desc = copy_string(t->data->short_description, v.enc);
        INIT_CHECK(v.desc.data(), v.desc.size());
        INIT_CHECK(t->data->comment, (size_t) t->data->size);
        put(v.text, t->data->comment, (size_t) t->data->size);
    }
    else if (v.kind == APIC)
    {
        const ID3v2_ApicFrame* t = (const ID3v2_ApicFrame*) f;
        CHECK(t->data != NULL && t->data->mime_type != NULL && t->data->description != NULL, key, "picture frame without data");
        INIT_CHECK(&t->data->picture_size, sizeof t->data->picture_size);
        INIT_CHECK(&t->data->encoding, 1);
        INIT_CHECK(&t->data->picture_type, 1);
        CHECK(t->data->picture_size >= 0, key, "picture has size %d", t->data->picture_size);
        v.enc = (u8) t->data->encoding;
        v.ptype = (u8) t->data->picture_type;
        v.mime = copy_mime(t->data->mime_type);
        v.desc = copy_string(t->data->description, v.enc);
        INIT_CHECK(v.mime.data(), v.mime.size());
        INIT_CHECK(v.desc.data(), v.desc.size());
        if (t->data->picture_size > 0)
        {
            CHECK(t->data->data != NULL, key, "picture of %d bytes without data", t->data->picture_size);
            INIT_CHECK(t->data->data, (size_t) t->data->picture_size);
            put(v.pic, t->data->data, (size_t) t->data->picture_size);
        }
    }
    else if (f->header->size > 0)
    {
        CHECK(f->data != NULL, key, "frame %s of %d bytes without data", v.id, f->header->size);
        INIT_CHECK(f->data, (size_t) f->header->size);
        put(v.raw, f->data, (size_t) f->header->size);
    }
}

// The frames of a list, in order. An empty list is NULL or a single node without frame.
static inline Frames view_list(const ID3v2_FrameList* list, const char* key)
{
    Frames out;
    if (list != NULL && list->frame == NULL && list->next == NULL) return out;
    size_t n = 0;
    for (const ID3v2_FrameList* l = list; l != NULL; l = l->next)
    {
        CHECK(l->frame != NULL, key, "node %zu of a list has no frame", n);
        CHECK(n < 4000000, key, "a list of frames does not end");
        CHECK(l->start == list, key, "node %zu of a list does not lead back to its first node", n);
        out.push_back(VFrame());
        view_frame(l->frame, out.back(), key);
        n++;
    }
    return out;
}
static inline Frames view_tag(const ID3v2_Tag* t, const char* key)
{
    CHECK(t->header != NULL, key, "a tag has no header");
    INIT_CHECK(t->header->identifier, 3);
    INIT_CHECK(&t->header->major_version, 1);
    INIT_CHECK(&t->header->minor_version, 1);
    INIT_CHECK(&t->header->flags, 1);
    INIT_CHECK(&t->header->tag_size, sizeof t->header->tag_size);
    INIT_CHECK(&t->header->extended_header_size, sizeof t->header->extended_header_size);
    INIT_CHECK(&t->padding_size, sizeof t->padding_size);
    return view_list(t->frames, key);
}
static inline u64 digest_tag(const ID3v2_Tag* t, const char* key)
{
    if (t == NULL) return 0x6e756c6c;
    u64 h = hash_frames(view_tag(t, key));
    u8 m[3] = {(u8) t->header->major_version, (u8) t->header->minor_version, (u8) t->header->flags};
    h = hash_bytes(m, 3, h);
    u32 s[2] = {t->header->tag_size, (u32) t->padding_size};
    return hash_bytes(s, sizeof s, h);
}

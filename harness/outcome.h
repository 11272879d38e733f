// Properties about what the outcome of a call may depend on: not on the state of the process, not on
// how the library was compiled.
#pragma once
#include <fenv.h>
#include "modes2.h"
#include <dirent.h>
#include <locale.h>
#include <pthread.h>

// ---- the outcome of a history ------------------------------------------------------------------
struct Outcome
{
    std::vector<u64> steps;
    std::vector<const char*> names;
    OpLog log;
    int kind;
    u64 input;
    u32 frames, bytes;
    Outcome() : kind(0), input(0), frames(0), bytes(0) {}
    void add(const char* name, u64 h) { steps.push_back(h); names.push_back(name); }
    u64 total() const { u64 h = 1; for (size_t i = 0; i < steps.size(); i++) h = mix(h ^ steps[i]); return h; }
};
// All that the fields of a tag say, also of one from hostile bytes: strings only where they are surely terminated
static inline u64 outcome_string(const char* s, int enc)
{
    if (s == NULL) return 3;
    if (s[0] == 0 && enc != 0 && enc != 3) return 5;
    Bytes b = copy_string(s, enc);
    return hash_bytes(b);
}
static inline u64 outcome_tag(Outcome& o, const ID3v2_Tag* t)
{
    if (t == NULL) return 0x6e756c6c;
    u64 h = 7;
    const ID3v2_TagHeader* th = t->header;
    u8 m[6] = {(u8) th->identifier[0], (u8) th->identifier[1], (u8) th->identifier[2], (u8) th->major_version, (u8) th->minor_version, (u8) th->flags};
    u32 n[3] = {(u32) th->tag_size, (u32) th->extended_header_size, (u32) t->padding_size};
    h = hash_bytes(n, sizeof n, hash_bytes(m, sizeof m, h));
    for (const ID3v2_FrameList* l = t->frames; l != NULL && l->frame != NULL; l = l->next)
    {
        const ID3v2_Frame* f = l->frame;
        o.frames++;
        h = hash_bytes(f->header->id, 4, h);
        h = hash_bytes(f->header->flags, 2, h);
        h = mix(h ^ (u32) f->header->size);
        char id[5] = {f->header->id[0], f->header->id[1], f->header->id[2], f->header->id[3], 0};
        Kind k = kind_of(id);
        if (k == TEXT)
        {
            const ID3v2_TextFrameData* d = ((const ID3v2_TextFrame*) f)->data;
            h = mix(h ^ (u8) d->encoding ^ (u64) (u32) d->size << 8);
            h = hash_bytes(d->text, (size_t) std::max(0, d->size), h);
        }
        else if (k == COMM)
        {
            const ID3v2_CommentFrameData* d = ((const ID3v2_CommentFrame*) f)->data;
            h = mix(h ^ (u8) d->encoding ^ (u64) (u32) d->size << 8);
            h = hash_bytes(d->language, 3, h) ^ outcome_string(d->short_description, (u8) d->encoding);
            h = hash_bytes(d->comment, (size_t) std::max(0, d->size), h);
        }
        else if (k == APIC)
        {
            const ID3v2_ApicFrameData* d = ((const ID3v2_ApicFrame*) f)->data;
            h = mix(h ^ (u8) d->encoding ^ (u64) (u8) d->picture_type << 8 ^ (u64) (u32) d->picture_size << 16);
            h = h ^ hash_bytes(d->mime_type, strlen(d->mime_type)) ^ mix(outcome_string(d->description, (u8) d->encoding));
            if (d->picture_size > 0) h = hash_bytes(d->data, (size_t) d->picture_size, h);
        }
        else if (f->header->size > 0) h = hash_bytes(f->data, (size_t) f->header->size, h);
    }
    return h;
}
static inline u64 outcome_compat(Outcome& o, ID3v2_tag* t)
{
    if (t == NULL) return 0x6e756c6c;
    u64 h = 11;
    h = mix(h ^ (u32) t->tag_header->tag_size ^ (u64) (u8) t->tag_header->major_version << 32 ^ (u64) (u8) t->tag_header->flags << 40);
    for (ID3v2_frame_list* l = t->frames; l != NULL && l->frame != NULL; l = l->next)
    {
        o.frames++;
        h = hash_bytes(l->frame->frame_id, 4, h);
        h = hash_bytes(l->frame->flags, 2, h);
        h = hash_bytes(l->frame->data, (size_t) l->frame->size, h);
    }
    ID3v2_frame* text[] = {tag_get_title(t), tag_get_artist(t), tag_get_album(t), tag_get_album_artist(t), tag_get_genre(t), tag_get_track(t), tag_get_year(t), tag_get_disc_number(t), tag_get_composer(t)};
    for (int i = 0; i < 9; i++)
    {
        ID3v2_frame_text_content* c = parse_text_frame_content(text[i]);
        h = mix(h ^ (c != NULL));
        if (c == NULL) continue;
        h = mix(h ^ (u8) c->encoding);
        h = hash_bytes(c->data, (size_t) c->size, h);
        free(c->data);
        free(c);
    }
    ID3v2_frame_comment_content* c = parse_comment_frame_content(tag_get_comment(t));
    h = mix(h ^ (c != NULL));
    if (c != NULL)
    {
        h = mix(h ^ (u8) c->text->encoding ^ outcome_string(c->short_description, (u8) c->text->encoding));
        h = hash_bytes(c->language, 3, h);
        h = hash_bytes(c->text->data, (size_t) c->text->size, h);
        free(c->text);
        free(c);
    }
    ID3v2_frame_apic_content* a = parse_apic_frame_content(tag_get_album_cover(t));
    h = mix(h ^ (a != NULL));
    if (a != NULL)
    {
        h = mix(h ^ (u8) a->encoding ^ (u64) (u8) a->picture_type << 8 ^ outcome_string(a->description, (u8) a->encoding) ^ hash_bytes(a->mime_type, strlen(a->mime_type)));
        h = hash_bytes(a->data, (size_t) a->picture_size, h);
        free(a);
    }
    return h;
}
static inline u64 outcome_file(Outcome& o, const char* path, bool existed = true)
{
    Bytes b;
    struct stat st;
    if (!read_file(path, b)) return 13;
    if (stat(path, &st) != 0) harness_error("stat");
    o.bytes += (u32) b.size();
    return mix(hash_bytes(b) ^ (existed ? st.st_mode : 0)); // the mode of a new file is up to the umask
}
// The names in the scratch directory
static inline u64 outcome_names()
{
    u64 h = 0;
    DIR* d = opendir(g_dir);
    if (!d) harness_error("opendir");
    while (struct dirent* e = readdir(d)) h += hash_bytes(e->d_name, strlen(e->d_name)); // in any order
    closedir(d);
    return h;
}
static inline u64 outcome_header(ID3v2_TagHeader* h)
{
    if (h == NULL) return 0x6e756c6c;
    u32 n[5] = {(u8) h->major_version, (u8) h->minor_version, (u8) h->flags, (u32) h->tag_size, (u32) h->extended_header_size};
    u64 x = hash_bytes(n, sizeof n);
    ID3v2_TagHeader_free(h);
    return x;
}
// Bytes at an address with a chosen alignment
struct Placed
{
    char *base, *p;
    size_t n;
    Placed(const Bytes& b, u32 offset) : base((char*) malloc(b.size() + offset + 1)), p(base + offset), n(b.size()) { memset(base, 0x5A, n + offset + 1); if (n) memcpy(p, b.data(), n); }
    Placed(const Placed&) = delete;
    ~Placed() { free(base); }
};
static inline void outcome_reads(Outcome& o, Rng& r, const Bytes& b, const char* path, u32 offset)
{
    Placed in(b, offset);
    if (b.size() >= 10) o.add("header read from a buffer", outcome_header(ID3v2_read_tag_header_from_buffer(in.p)));
    ID3v2_Tag* t = ID3v2_read_tag_from_buffer(in.p, (int) in.n);
    o.add("tag read from a buffer", outcome_tag(o, t));
    ID3v2_tag* c = load_tag_with_buffer(in.p, (int) in.n);
    o.add("compat tag read from a buffer", outcome_compat(o, c));
    if (c) free_tag(c);
    o.add("header read from a file", outcome_header(ID3v2_read_tag_header(path)));
    ID3v2_Tag* u = ID3v2_read_tag(path);
    o.add("tag read from a file", outcome_tag(o, u));
    c = load_tag(path);
    o.add("compat tag read from a file", outcome_compat(o, c));
    if (c) free_tag(c);
    o.add("file after reading", outcome_file(o, path));
    if (t)
    {
        // getters
        u64 h = 0;
        for (int i = 0; i < 9; i++)
        {
            ID3v2_TextFrame* f = NAMED[i].get(t);
            h = mix(h ^ (f ? hash_bytes(f->data->text, (size_t) f->data->size) : 1));
        }
        ID3v2_FrameList* l[2] = {ID3v2_Tag_get_comment_frames(t), ID3v2_Tag_get_apic_frames(t)};
        for (int i = 0; i < 2; i++)
        {
            u32 n = 0;
            for (ID3v2_FrameList* e = l[i]; e && e->frame; e = e->next) n++;
            h = mix(h ^ n);
            ID3v2_FrameList_unlink(l[i]);
        }
        o.add("getters", h);
        ID3v2_Tag_free(t);
    }
    if (u)
    {
        // what is made of it when it is edited and saved again
        if (r.chance(1, 2)) { HeapCopy s(gen_input(r, SMALL)); ID3v2_Tag_set_title(u, s); }
        if (r.chance(1, 4)) ID3v2_Tag_delete_album_cover(u);
        ID3v2_write_tag(path, u);
        o.add("file saved", outcome_file(o, path));
        ID3v2_Tag_free(u);
    }
}
// Runs a history that is determined by the seed and reports all that it leads to
static inline void outcome_history(u64 seed, u32 offset, Outcome& o)
{
    Rng r(seed);
    g_len_budget = 200000000;
    o.kind = (int) r.below(8);
    Size sz = r.chance(1, 600) ? LARGE : r.chance(1, 15) ? MEDIUM : SMALL;
    const char* path = scratch("song.mp3");
    AnyFile f = gen_file(r, sz == LARGE ? SMALL : sz);
    write_file(path, f.bytes);
    const u64 names = outcome_names();
    if (chmod(path, 0644)) harness_error("chmod");
    o.input = hash_bytes(f.bytes);
    switch (o.kind)
    {
        case 0: case 1: case 2: // edits, save, reload, delete
        {
            Subject s;
            make_subject(r, s, sz, "outcome");
            o.add("subject", outcome_tag(o, s.tag));
            int n = edit_count(r);
            OpMix mix;
            mix.size = sz;
            mix.alias = r.chance(1, 2);
            for (int i = 0; i < n; i++)
            {
                random_edit(r, s.tag, s.model, mix, o.log);
                if (mix.size == LARGE) mix.size = SMALL;
                o.add("tag after an edit", outcome_tag(o, s.tag));
            }
            check_frames(view_tag(s.tag, "outcome"), s.model, "outcome", "tag in memory");
            check_getters(r, s.tag, s.model, "outcome");
            ID3v2_write_tag(path, s.tag);
            o.add("file saved", outcome_file(o, path));
            o.add("names after saving", outcome_names() - names);
            ID3v2_Tag* t = ID3v2_read_tag(path);
            o.add("tag read back", outcome_tag(o, t));
            if (t) ID3v2_Tag_free(t);
            s.release();
            break;
        }
        case 3: case 4: // any file or bytes
        {
            Bytes b = f.bytes;
            if (o.kind == 4) { b = gen_hostile(r); write_file(path, b); o.input = hash_bytes(b); }
            outcome_reads(o, r, b, path, offset);
            break;
        }
        case 5: // compat
        {
            ID3v2_tag* t = r.chance(1, 2) && f.kind > 2 ? load_tag(path) : NULL;
            if (t == NULL) t = new_tag();
            Frames model = view_tag(t->tag, "outcome");
            int n = r.range(0, 14);
            for (int i = 0; i < n; i++)
            {
                compat_edit(r, t, model, i == 0 ? sz : SMALL, o.log);
                o.add("compat tag after an edit", outcome_compat(o, t));
            }
            check_compat(t, model, "outcome");
            set_tag(path, t);
            o.add("file saved", outcome_file(o, path));
            free_tag(t);
            break;
        }
        case 6: // nothing there
        {
            Bytes b = gen_untagged(r);
            write_file(path, b);
            o.input = hash_bytes(b);
            outcome_reads(o, r, b, path, offset);
            const char* nowhere[2] = {scratch("no-such-file"), g_dir};
            for (int i = 0; i < 2; i++)
            {
                ID3v2_Tag* t = ID3v2_read_tag(nowhere[i]);
                o.add("tag read from nowhere", t != NULL);
                if (t) ID3v2_Tag_free(t);
                o.add("header read from nowhere", outcome_header(ID3v2_read_tag_header(nowhere[i])));
                ID3v2_delete_tag(nowhere[i]);
            }
            ID3v2_Tag* e = ID3v2_Tag_new_empty();
            ID3v2_write_tag(scratch("no-such-file"), e);
            o.add("saved to a new file", outcome_file(o, scratch("no-such-file"), false));
            unlink(scratch("no-such-file"));
            ID3v2_Tag_free(e);
            break;
        }
        default: // strings
        {
            for (int i = 0; i < 12; i++)
            {
                Bytes b = r.chance(1, 3) ? gen_utf16_bom(r, gen_len(r, SMALL)) : gen_iso(r, gen_len(r, SMALL));
                terminate(b, 1);
                o.input ^= hash_bytes(b);
                Placed s(b, offset);
                o.add("strlen", (u64) ID3v2_strlen(s.p));
                o.add("strlent", (u64) ID3v2_strlent(s.p));
                char* u = ID3v2_to_unicode(s.p);
                o.add("to_unicode", hash_bytes(u, (size_t) ID3v2_strlent(u)));
                if (u != s.p) free(u);
            }
        }
    }
    if (r.chance(1, 2)) ID3v2_delete_tag(path); else remove_tag(path);
    o.add("file after deletion", outcome_file(o, path));
    o.add("names in the end", outcome_names() - names);
    unlink(path);
}

// ---- C23 -------------------------------------------------------------------------------------
extern int g_stale_errno;
extern u8 g_fill;
extern u64 g_world; // other answers to the library's questions for the time, the process and the user, unless 0
static inline __attribute__((noinline, no_sanitize("address", "memory", "thread"))) void dirty_stack(int pattern)
{
    volatile u8 a[60000];
    for (size_t i = 0; i < sizeof a; i++) a[i] = (u8) pattern;
}
struct OnThread { u64 seed; u32 offset; Outcome* o; int pattern; };
static void* outcome_thread(void* p)
{
    OnThread* a = (OnThread*) p;
    t_quiet = true;
    dirty_stack(a->pattern);
    outcome_history(a->seed, a->offset, *a->o);
    return NULL;
}
static inline void run_C23(Rng& r)
{
    static bool installed;
    static std::vector<const char*> locales;
    if (!installed)
    {
        installed = true;
        g_saved_stderr = fcntl(2, F_DUPFD, 200);
        if (g_saved_stderr < 0) harness_error("standard streams");
        if (__sanitizer_set_report_fd) __sanitizer_set_report_fd((void*) (intptr_t) g_saved_stderr);
        static const char* const names[] = {"C.UTF-8", "tr_TR.ISO-8859-9", "en_US.ISO-8859-1", "ja_JP.EUC-JP"};
        for (size_t i = 0; i < 4; i++) if (setlocale(LC_ALL, names[i])) locales.push_back(names[i]);
        setlocale(LC_ALL, "C");
        if (mkdir(scratch("elsewhere"), 0755)) harness_error("mkdir");
        faults_install();
    }
    u64 seed = r.next();
    u32 want = 1 + r.below((1 << 13) - 1);
    if (r.chance(1, 3)) want = 1u << r.below(13); // only one thing is different
    t_quiet = true;
    Outcome a, b;
    g_fill = 0;
    outcome_history(seed, 0, a);

    // what the process did in the meantime
    if (want & 1)
    {
        OpLog log;
        int kind, n = r.range(1, 3);
        for (int i = 0; i < n; i++) resource_history(Rng(r.next()), log, kind);
        g_fail_hits = 0;
        unlink(scratch("song.mp3"));
        unlink(scratch("cover.png"));
        unlink(scratch("cover"));
    }
    // another state of the process
    static const int errors[] = {ENOMEM, EINTR, ENOENT, EIO, ERANGE, EILSEQ, ENOTTY, EINVAL, ENOSPC, EAGAIN};
    if (want & 2) g_stale_errno = r.pick(errors);
    const char* loc = "C";
    if ((want & 4) && !locales.empty()) { loc = locales[r.below((u32) locales.size())]; if (!setlocale(LC_ALL, loc)) harness_error("setlocale"); }
    char tmpdir[700];
    snprintf(tmpdir, sizeof tmpdir, "TMPDIR=%s", r.chance(1, 2) ? g_dir : "/no/such/directory");
    static char e0[] = "LANG=tr_TR.UTF-8", e1[] = "LC_ALL=ja_JP.EUC-JP", e2[] = "TZ=Asia/Kathmandu", e3[] = "POSIXLY_CORRECT=1", e4[] = "HOME=/no/such/home";
    char* env[] = {tmpdir, e0, e1, e2, e3, e4, NULL};
    char** old_env = environ;
    if (want & 8) environ = r.chance(1, 4) ? env + 6 : env;
    mode_t old_mask = umask(022);
    umask(old_mask);
    if (want & 16) { static const mode_t masks[] = {0, 077, 0777, 027}; umask(r.pick(masks)); }
    char cwd[700];
    if (!getcwd(cwd, sizeof cwd)) harness_error("getcwd");
    if (want & 32) { if (chdir(r.chance(1, 2) ? scratch("elsewhere") : g_dir)) harness_error("chdir"); }
    int kept[3] = {-1, -1, -1}; // standard streams, while they are closed
    u32 closed = want & 64 ? 1 + r.below(7) : 0;
    for (int i = 0; i < 3; i++) if (closed >> i & 1) { kept[i] = fcntl(i, F_DUPFD_CLOEXEC, 210); if (kept[i] >= 0) close(i); }
    std::vector<int> used;
    if (want & 128) { int n = r.range(30, 700), fd = open("/dev/null", O_RDONLY); while (fd >= 0 && fd < n && (used.push_back(fd), true)) fd = dup(fd); if (fd >= 0 && fd >= n) used.push_back(fd); }
    if (want & 256) srand((u32) r.next());
    u32 offset = want & 512 ? 1 + r.below(15) : 0;
    g_fill = want & 1024 ? (u8) (1 + r.below(255)) : 0;
    static const int roundings[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    if (want & 4096) { g_world = 1 + r.next() / 2; fesetround(r.pick(roundings)); }
    if (want & 2048)
    {
        OnThread t = {seed, offset, &b, (int) r.below(256)};
        pthread_attr_t at;
        pthread_t th;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 1 << 20);
        if (pthread_create(&th, &at, outcome_thread, &t) != 0) harness_error("pthread_create");
        pthread_join(th, NULL);
        pthread_attr_destroy(&at);
    }
    else
    {
        dirty_stack((int) r.below(256));
        outcome_history(seed, offset, b);
    }
    // and back
    g_world = 0;
    fesetround(FE_TONEAREST);
    g_fill = 0;
    for (size_t i = 0; i < used.size(); i++) close(used[i]);
    for (int i = 0; i < 3; i++) if (kept[i] >= 0) { if (dup2(kept[i], i) < 0) harness_error("dup2"); close(kept[i]); }
    if (chdir(cwd)) harness_error("chdir");
    umask(old_mask);
    environ = old_env;
    setlocale(LC_ALL, "C");
    g_stale_errno = 0;
    t_quiet = false;

    static const char* const what[] = {"earlier calls", "errno", "locale", "environment", "umask", "directory", "closed streams", "open descriptors", "random seed", "alignment", "memory", "thread", "time, process and user"};
    char list[240];
    size_t k = 0;
    list[0] = 0;
    for (int i = 0; i < 13; i++) if (want >> i & 1) k += (size_t) snprintf(list + k, sizeof list - k, "%s%s", k ? ", " : "", what[i]);
    for (size_t i = 0; i < a.steps.size() && i < b.steps.size(); i++)
        CHECK(a.steps[i] == b.steps[i], "outcome", "history of kind %d: step %zu (%s) has another outcome in another state of the process (%s; locale %s); edits: %s", a.kind, i, a.names[i], list, loc, a.log.s);
    CHECK(a.steps.size() == b.steps.size(), "outcome", "history of kind %d: %zu steps, then %zu in another state of the process (%s)", a.kind, a.steps.size(), b.steps.size(), list);
    static const char* const counters[] = {"after_other_calls", "with_stale_errno", "in_other_locales", "in_other_environments", "with_other_umasks", "in_other_directories",
                                           "with_closed_streams", "with_many_descriptors", "with_other_random_seeds", "misaligned_inputs", "with_other_memory_contents", "on_threads_with_small_stacks", "at_another_time"};
    for (int i = 0; i < 13; i++) if ((want >> i & 1) && (i != 2 || !locales.empty())) count(counters[i]);
    count("outcomes_compared", a.steps.size());
    count("frames_in_outcomes", a.frames);
    count("file_bytes_in_outcomes", a.bytes);
    nontrivial(a.input ^ a.log.h ^ mix(want));
    if (g_case % 397 == 3) sample("history of kind %d with %zu outcomes, twice; second time with other: %s", a.kind, a.steps.size(), list);
}

// ---- C24 -------------------------------------------------------------------------------------
// One hash per case; the driver compares those of differently built libraries
static inline void run_C24(Rng& r)
{
    static bool installed;
    if (!installed) { installed = true; if (mkdir(scratch("elsewhere"), 0755)) harness_error("mkdir"); }
    u64 seed = r.next();
    Outcome a;
    t_quiet = true;
    outcome_history(seed, r.below(2), a);
    t_quiet = false;
    count("outcomes_compared", a.steps.size());
    count("frames_in_outcomes", a.frames);
    count("file_bytes_in_outcomes", a.bytes);
    static const char* const kinds[] = {"histories_edit", "histories_edit", "histories_edit", "histories_file", "histories_hostile", "histories_compat", "histories_no_tag", "histories_strings"};
    count(kinds[a.kind]);
    nontrivial(a.total());
    if (g_outcomes) { printf("OUTCOME case=%llu kind=%d input=%016llx", (unsigned long long) g_case, a.kind, (unsigned long long) a.input); for (size_t i = 0; i < a.steps.size(); i++) printf(" [%s]=%016llx", a.names[i], (unsigned long long) a.steps[i]); printf(" edits: %s\n", a.log.s); }
    if (g_case % 397 == 3) sample("history of kind %d with %zu outcomes: %.200s", a.kind, a.steps.size(), a.log.s);
}

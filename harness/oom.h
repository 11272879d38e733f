// What happens when an allocation fails: in a child process, so that it may end there.
#pragma once
#include "outcome.h"
#include <sys/mman.h>
#include <sys/wait.h>

// Set by the redirected allocator of the "oom" variant
extern bool g_oom_on, g_oom_all;
extern long g_oom_at, g_oom_seen;
extern bool g_oom_hit;
extern size_t g_oom_size;

struct OomReport { u32 verdict; long seen; size_t size; bool hit; char text[600]; };
static OomReport* g_oom_report;
enum OomVerdict { OOM_ENDED, OOM_RETURNED, OOM_WRONG };

static inline void oom_arm(long at, bool all) { g_oom_at = at; g_oom_all = all; g_oom_seen = 0; g_oom_hit = false; g_oom_size = 0; g_oom_on = true; }
static inline void oom_disarm() { g_oom_on = false; g_oom_report->seen = g_oom_seen; g_oom_report->hit = g_oom_hit; g_oom_report->size = g_oom_size; }
#define OOM_CHECK(cond, ...) do { if (!(cond)) { g_oom_report->verdict = OOM_WRONG; snprintf(g_oom_report->text, sizeof g_oom_report->text, __VA_ARGS__); return; } } while (0)

static inline bool same_frames(const Frames& a, const Frames& b)
{
    return a.size() == b.size() && hash_frames(a) == hash_frames(b);
}
// Whether the tag can be walked, without ending the process, and says one of two things
static inline const char* oom_tag(const ID3v2_Tag* t, const Frames& a, const Frames& b)
{
    if (t->header == NULL) return "a tag without header";
    for (const ID3v2_FrameList* l = t->frames; l != NULL; l = l->next)
    {
        const ID3v2_Frame* f = l->frame;
        if (f == NULL) { if (l == t->frames && l->next == NULL) break; return "a node without frame"; }
        if (f->header == NULL) return "a frame without header";
        char id[5] = {f->header->id[0], f->header->id[1], f->header->id[2], f->header->id[3], 0};
        Kind k = kind_of(id);
        if (k == TEXT && (!((const ID3v2_TextFrame*) f)->data || !((const ID3v2_TextFrame*) f)->data->text)) return "a text frame without text";
        if (k == COMM && (!((const ID3v2_CommentFrame*) f)->data || !((const ID3v2_CommentFrame*) f)->data->comment || !((const ID3v2_CommentFrame*) f)->data->short_description)) return "a comment without text or description";
        if (k == APIC)
        {
            const ID3v2_ApicFrameData* d = ((const ID3v2_ApicFrame*) f)->data;
            if (!d || !d->mime_type || !d->description || (d->picture_size > 0 && !d->data)) return "a picture without content";
        }
        if (k == RAW && f->header->size > 0 && !f->data) return "a frame without content";
    }
    Frames v = view_tag(t, "memory");
    if (same_frames(v, a) || same_frames(v, b)) return NULL;
    return "other frames than before the call, and other than it should have now";
}
struct OomCase
{
    int kind;
    u64 seed;
    const char* path;
    Bytes before;      // of the file
    Bytes after;       // of the file, when nothing fails
    Subject s;
    ID3v2_tag* compat;
    Frames model, edited;
    Bytes bytes;
    u64 expected;
};
static const char* const OOM_KINDS[] = {"save", "old_api_save", "delete", "read_file", "read_buffer", "old_api_read", "edit", "old_api_edit", "header", "matches", "old_api_contents", "string"};

// The operation, in the child. at < 0: nothing fails.
static inline void oom_operation(OomCase& c, long at, bool all)
{
    g_oom_report->verdict = OOM_ENDED;
    Rng r(c.seed);
    OpLog log;
    OpMix mix;
    mix.size = MEDIUM; // SMALL makes very many frames in one edit now and then
    switch (c.kind)
    {
        case 0:
        {
            oom_arm(at, all);
            ID3v2_write_tag(c.path, c.s.tag);
            oom_disarm();
            const char* wrong = oom_tag(c.s.tag, c.model, c.model);
            OOM_CHECK(!wrong, "the tag in memory after saving: %s", wrong);
            break;
        }
        case 1:
            oom_arm(at, all);
            set_tag(c.path, c.compat);
            oom_disarm();
            break;
        case 2:
            oom_arm(at, all);
            if (c.seed & 1) ID3v2_delete_tag(c.path); else remove_tag(c.path);
            oom_disarm();
            break;
        case 3: case 4:
        {
            oom_arm(at, all);
            ID3v2_Tag* t = c.kind == 3 ? ID3v2_read_tag(c.path) : ID3v2_read_tag_from_buffer((const char*) c.bytes.data(), (int) c.bytes.size());
            oom_disarm();
            if (t == NULL) break;
            const char* wrong = oom_tag(t, c.model, c.model);
            OOM_CHECK(!wrong, "a tag is returned, but it is not the whole tag: %s", wrong);
            ID3v2_Tag_free(t);
            break;
        }
        case 5:
        {
            oom_arm(at, all);
            ID3v2_tag* t = c.seed & 1 ? load_tag(c.path) : load_tag_with_buffer((const char*) c.bytes.data(), (int) c.bytes.size());
            oom_disarm();
            if (t == NULL) break;
            OOM_CHECK(t->tag != NULL, "a tag is returned, but there is none in it");
            const char* wrong = oom_tag(t->tag, c.model, c.model);
            OOM_CHECK(!wrong, "a tag is returned, but it is not the whole tag: %s", wrong);
            size_t n = 0;
            for (ID3v2_frame_list* l = t->frames; l && l->frame; l = l->next) { OOM_CHECK(l->frame->size == 0 || l->frame->data != NULL, "a frame without content"); n++; }
            OOM_CHECK(n == c.model.size(), "%zu of %zu frames", n, c.model.size());
            free_tag(t);
            break;
        }
        case 6:
        {
            Frames after = c.model;
            oom_arm(at, all);
            random_edit(r, c.s.tag, after, mix, log);
            oom_disarm();
            const char* wrong = oom_tag(c.s.tag, c.model, after);
            OOM_CHECK(!wrong, "%s: %s", log.s, wrong);
            break;
        }
        case 7:
        {
            Frames after = c.model;
            oom_arm(at, all);
            compat_edit(r, c.compat, after, SMALL, log);
            oom_disarm();
            const char* wrong = oom_tag(c.compat->tag, c.model, after);
            OOM_CHECK(!wrong, "%s: %s", log.s, wrong);
            break;
        }
        case 8:
        {
            oom_arm(at, all);
            ID3v2_TagHeader* h = c.seed & 1 ? ID3v2_read_tag_header(c.path) : ID3v2_read_tag_header_from_buffer((const char*) c.bytes.data());
            oom_disarm();
            if (h == NULL) break;
            OOM_CHECK(outcome_header(h) == c.expected, "a header is returned, but not that of the file");
            break;
        }
        case 9:
        {
            const char* id = c.seed & 1 ? "COMM" : "APIC";
            oom_arm(at, all);
            ID3v2_FrameList* l = c.seed & 2 ? ID3v2_Tag_get_frames(c.s.tag, id) : c.seed & 1 ? ID3v2_Tag_get_comment_frames(c.s.tag) : ID3v2_Tag_get_apic_frames(c.s.tag);
            oom_disarm();
            if (l == NULL) break;
            int n = 0;
            for (ID3v2_FrameList* e = l; e && e->frame; e = e->next) n++;
            OOM_CHECK(n == model_count(c.model, id), "a list is returned, but it has %d of %d frames", n, model_count(c.model, id));
            ID3v2_FrameList_unlink(l);
            break;
        }
        case 10:
        {
            ID3v2_frame *title = tag_get_title(c.compat), *comment = tag_get_comment(c.compat), *cover = tag_get_album_cover(c.compat);
            oom_arm(at, all);
            ID3v2_frame_text_content* a = parse_text_frame_content(title);
            ID3v2_frame_comment_content* b = parse_comment_frame_content(comment);
            ID3v2_frame_apic_content* p = parse_apic_frame_content(cover);
            oom_disarm();
            int m;
            if (a && (m = model_find(c.model, "TIT2")) >= 0) OOM_CHECK(a->size == (int) c.model[(size_t) m].text.size() && (a->size == 0 || (a->data && memcmp(a->data, c.model[(size_t) m].text.data(), (size_t) a->size) == 0)), "a text is returned, but not that of the frame");
            if (b && (m = model_find(c.model, "COMM")) >= 0) OOM_CHECK(b->text && b->text->data && b->short_description && b->language && b->text->size == (int) c.model[(size_t) m].text.size(), "a comment is returned, but not that of the frame");
            if (p && (m = model_find(c.model, "APIC")) >= 0) OOM_CHECK(p->picture_size == (int) c.model[(size_t) m].pic.size() && p->mime_type && p->description && (p->picture_size == 0 || p->data), "a picture is returned, but not that of the frame");
            break;
        }
        default:
        {
            HeapCopy s(c.bytes);
            oom_arm(at, all);
            char* u = ID3v2_to_unicode(s.p);
            oom_disarm();
            if (u == NULL) break;
            OOM_CHECK(hash_bytes(u, (size_t) ID3v2_strlent(u)) == c.expected, "a string is returned, but it is another one");
        }
    }
    g_oom_report->verdict = OOM_RETURNED;
}
static inline bool oom_fork(OomCase& c, long at, bool all)
{
    memset(g_oom_report, 0, sizeof *g_oom_report);
    fflush(NULL);
    pid_t pid = fork();
    if (pid < 0) harness_error("fork");
    if (pid == 0)
    {
        int null = open("/dev/null", O_WRONLY);
        if (null >= 0) dup2(null, 2); // perror
        t_quiet = true;
        g_finished = true;
        struct rlimit none = {0, 0};
        setrlimit(RLIMIT_CORE, &none);
        alarm(60);
        oom_operation(c, at, all);
        _exit(0);
    }
    int status;
    while (waitpid(pid, &status, 0) < 0) if (errno != EINTR) harness_error("waitpid");
    if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGKILL)) harness_error("a child was killed");
    CHECK(!(WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM), "memory", "%s hangs when allocation %ld fails", OOM_KINDS[c.kind], at);
    return WIFEXITED(status) && WEXITSTATUS(status) == 0;
}
static inline void run_C25(Rng& r)
{
    static bool installed;
    if (!installed)
    {
        installed = true;
        g_oom_report = (OomReport*) mmap(NULL, sizeof(OomReport), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (g_oom_report == MAP_FAILED) harness_error("mmap");
    }
    OomCase c;
    c.kind = (int) r.below(14);
    if (c.kind >= 12) c.kind -= 12; // saves more often
    c.seed = r.next();
    c.path = scratch("song.mp3");
    c.compat = NULL;
    c.expected = 0;
    AnyFile f = gen_file(r, c.kind <= 2 ? pick_size(r, 60) : SMALL);
    bool conforming = c.kind >= 3 && c.kind <= 5;
    if (conforming || c.kind == 8) // a file that is read back as it was written
    {
        GenTag t = gen_tag(r, pick_size(r, 0));
        f.bytes = t.encode();
        c.bytes = f.bytes;
        put(f.bytes, f.audio);
        c.model = t.expected();
        c.edited = c.model;
        write_file(c.path, f.bytes);
        if (c.kind == 8) c.expected = outcome_header(ID3v2_read_tag_header(c.path));
    }
    else
    {
        make_subject(r, c.s, SMALL, "memory");
        OpLog log;
        OpMix mix;
        for (int i = r.range(0, 6); i > 0; i--) random_edit(r, c.s.tag, c.s.model, mix, log);
        c.model = c.s.model;
        if (c.kind == 1 || c.kind == 7 || c.kind == 10)
        {
            c.compat = new_tag();
            c.model = Frames();
            for (int i = r.range(0, 8); i > 0; i--) compat_edit(r, c.compat, c.model, SMALL, log);
        }
        if (c.kind == 11)
        {
            c.bytes = r.chance(1, 4) ? gen_utf16_bom(r, gen_len(r, SMALL)) : gen_iso(r, gen_len(r, SMALL));
            terminate(c.bytes, 1);
            HeapCopy s(c.bytes);
            char* u = ID3v2_to_unicode(s.p);
            c.expected = hash_bytes(u, (size_t) ID3v2_strlent(u));
            if (u != s.p) free(u);
        }
    }
    c.before = f.bytes;
    t_quiet = true;
    u64 names = 0, ended = 0, returned = 0, kept = 0, complete = 0, none = 0;
    // without a failure
    write_file(c.path, c.before);
    CHECK(oom_fork(c, -1, false) && g_oom_report->verdict == OOM_RETURNED, "memory", "%s: %s", OOM_KINDS[c.kind], g_oom_report->verdict == OOM_WRONG ? g_oom_report->text : "the process ends");
    long total = g_oom_report->seen;
    CHECK(read_file(c.path, c.after), "memory", "the file is gone");
    names = outcome_names();
    // each of them fails
    long step = 1;
    for (long at = 0; at < total; at += step)
    {
        if (at == 40 && total > 80) step = 1 + (total - 80) / 20; // of a long run, a sample in the middle
        if (at > 40 && at >= total - 30) step = 1;
        for (int all = 0; all < 2; all++)
        {
            write_file(c.path, c.before);
            bool exited = oom_fork(c, at, all);
            OomReport& o = *g_oom_report;
            // Recorded, not repaired: the string is of one character, its terminator
            bool empty = c.kind >= 3 && c.kind <= 5 && all == 0 && o.size <= 8 && (strstr(o.text, "without text") || strstr(o.text, "picture without content"));
            if (o.verdict == OOM_WRONG && empty) { finding("read:empty-string", "%s: when allocation %ld of %ld (%zu bytes) fails: %s", OOM_KINDS[c.kind], at, total, o.size, o.text); continue; }
            CHECK(o.verdict != OOM_WRONG, "memory", "%s: when allocation %ld of %ld (%zu bytes) fails%s: %s", OOM_KINDS[c.kind], at, total, o.size, all ? " and all later ones" : "", o.text);
            if (o.verdict == OOM_RETURNED && exited) returned++; else ended++;
            Bytes now;
            CHECK(read_file(c.path, now), "memory", "%s: the file is gone when allocation %ld of %ld fails", OOM_KINDS[c.kind], at, total);
            bool old = now == c.before, done = now == c.after;
            CHECK(old || done, "memory", "%s: when allocation %ld of %ld fails%s (%s), the file of %zu bytes, which would have got %zu, has %zu: neither its old nor its new content", OOM_KINDS[c.kind], at, total,
                  all ? " and all later ones" : "", o.verdict == OOM_RETURNED ? "the call returns" : "the process ends", c.before.size(), c.after.size(), now.size());
            CHECK(c.kind == 7 || outcome_names() == names, "memory", "%s: other files in the directory when allocation %ld of %ld fails", OOM_KINDS[c.kind], at, total);
            if (c.kind <= 2) { if (old) kept++; else complete++; }
            else none++;
        }
    }
    t_quiet = false;
    c.s.release();
    if (c.compat) free_tag(c.compat);
    unlink(c.path);
    char name[60];
    snprintf(name, sizeof name, "operations_%s", OOM_KINDS[c.kind]);
    count(name);
    count("allocations_failed", ended + returned);
    count("process_ended", ended);
    count("call_returned", returned);
    count("old_content_kept", kept);
    count("new_content_complete", complete);
    count("results_checked", none);
    if (total > 0) nontrivial(hash_bytes(c.before) ^ mix(c.seed) ^ (u64) c.kind);
    if (g_case % 97 == 3) sample("%s with %ld allocations: each fails, %llu times the call returns, %llu times the process ends", OOM_KINDS[c.kind], total, (unsigned long long) returned, (unsigned long long) ended);
}

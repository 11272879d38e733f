From 56d3610abf76cf73489b8b0ddea7f8645a53a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:20 +0000
Subject: [PATCH 01/40] fix: don't read past the end of an empty string when
 looking for a BOM

string_has_bom compared two bytes of strings that may be one byte long.
---
 src/modules/utils.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/modules/utils.c b/src/modules/utils.c
index 3986782..5085cd7 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -152,10 +152,9 @@ bool string_has_bom(const char* string)
         return false;
     }
 
-    if (memcmp("\xFF\xFE", string, 2) == 0 || memcmp("\xFE\xFF", string, 2) == 0)
-    {
-        return true;
-    }
+    // Look at the second byte only after the first one matches: an empty string has no second byte
+    if (string[0] == '\xFF') return string[1] == '\xFE';
+    if (string[0] == '\xFE') return string[1] == '\xFF';
 
     return false;
 }
-- 
2.43.0


From 04e14bc98e9fb7d7ca13f5a3cdf6020de03e281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:20 +0000
Subject: [PATCH 02/40] fix: avoid signed overflow when encoding syncsafe
 integers

((mask + 1) << 8) - 1 overflows an int on the last iteration, for every value.
---
 src/modules/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/utils.c b/src/modules/utils.c
index 5085cd7..1bc499f 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -110,7 +110,7 @@ char* itob(int integer)
 
 int syncint_encode(int value)
 {
-    int out, mask = 0x7F;
+    unsigned int out, mask = 0x7F;
 
     while (mask ^ 0x7FFFFFFF)
     {
-- 
2.43.0


From e5794b0f1fb6ffff7c9cfcfc94cf1447ba57ba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:08 +0000
Subject: [PATCH 03/40] fix: reject buffers too short to hold a tag header

The identifier and the header fields were read past the end of the buffer,
and a negative size was passed on to calloc and memcpy.
---
 src/id3v2lib.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index b245bad..f796f30 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -73,6 +73,8 @@ ID3v2_Tag* ID3v2_read_tag(const char* file_name)
 
 ID3v2_Tag* ID3v2_read_tag_from_buffer(const char* tag_buffer, const int buffer_length)
 {
+    if (tag_buffer == NULL || buffer_length < ID3v2_TAG_HEADER_LENGTH) return NULL;
+
     CharStream* tag_cs = CharStream_from_buffer(tag_buffer, buffer_length);
     ID3v2_Tag* tag = Tag_parse(tag_cs);
     CharStream_free(tag_cs);
-- 
2.43.0


From 1575fb65fd5274e37ae211d6472999edcfb43a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:08 +0000
Subject: [PATCH 04/40] fix: don't report an uninitialised extended header size

When only the ten header bytes are available, as in ID3v2_read_tag_header,
nothing is read into raw_eh_size.
---
 src/modules/tag_header.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index 8ecc1f0..fb8166e 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -73,7 +73,7 @@ ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
     if ((flags & (1 << 6)) == (1 << 6))
     {
         // An extended header exists, retrieve its size
-        char raw_eh_size[ID3v2_EXTENDED_HEADER_SIZE_LENGTH];
+        char raw_eh_size[ID3v2_EXTENDED_HEADER_SIZE_LENGTH] = { 0 };
         CharStream_read(header_cs, raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH);
         extended_header_size = syncint_decode(btoi(raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH));
     }
-- 
2.43.0


From a7913a8be9f3c170138418d49a541066a3722a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:08 +0000
Subject: [PATCH 05/40] fix: only parse the bytes that were read from a
 truncated file

ID3v2_read_tag parsed uninitialised memory when the file ends before the
declared end of the tag, and allocated the declared size (up to 512 MB)
whatever the size of the file.
---
 src/id3v2lib.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index f796f30..f89c712 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -49,7 +49,21 @@ ID3v2_Tag* ID3v2_read_tag(const char* file_name)
     if (tag_header == NULL) return NULL;
 
     FILE* file = fopen(file_name, "rb");
+
+    if (file == NULL)
+    {
+        ID3v2_TagHeader_free(tag_header);
+        return NULL;
+    }
+
     int buffer_length = tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH;
+
+    // Don't trust the declared size, the file may be shorter than that
+    fseek(file, 0L, SEEK_END);
+    const long file_size = ftell(file);
+    fseek(file, 0L, SEEK_SET);
+    if (file_size < buffer_length) buffer_length = file_size < 0 ? 0 : (int) file_size;
+
     char* tag_buffer = (char*) malloc((buffer_length) * sizeof(char));
 
     if (tag_buffer == NULL)
@@ -60,10 +74,10 @@ ID3v2_Tag* ID3v2_read_tag(const char* file_name)
         return NULL;
     }
 
-    fread(tag_buffer, buffer_length, 1, file);
+    const int bytes_read = fread(tag_buffer, sizeof(char), buffer_length, file);
     fclose(file);
 
-    ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(tag_buffer, buffer_length);
+    ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(tag_buffer, bytes_read);
 
     free(tag_buffer);
     ID3v2_TagHeader_free(tag_header);
-- 
2.43.0


From 26ef68c1fff397b0f262a188d8988096635e6f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:08 +0000
Subject: [PATCH 06/40] fix: stop parsing at the end of the tag

The loop compared an offset that includes the tag header with a size that
doesn't, so it stopped 10 bytes early, and with a buffer that goes on after
the tag the audio was counted as padding or could be read as frame data.
---
 src/modules/tag.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 5350666..4c8acde 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -48,6 +48,9 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
 
     ID3v2_Tag* tag = ID3v2_Tag_new(header, 0);
 
+    // Whatever follows the tag in the stream isn't part of it
+    tag_cs->size = clamp_int(header->tag_size + ID3v2_TAG_HEADER_LENGTH, 0, tag_cs->size);
+
     if (header->extended_header_size > 0)
     {
         // An extended header exists, skip it
@@ -55,7 +58,7 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
     }
 
     ID3v2_Frame* current_frame;
-    while (tag_cs->cursor < tag->header->tag_size)
+    while (tag_cs->cursor < tag_cs->size)
     {
         current_frame = Frame_parse(tag_cs, tag->header->major_version);
         if (current_frame == NULL) break;
-- 
2.43.0


From 5d4df0357d752cbf4f0bda7a78ab3ba54b8f5783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:08 +0000
Subject: [PATCH 07/40] fix: skip the extended header from where it starts

The size of the extended header was used as an absolute offset into the tag.
---
 src/modules/tag.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 4c8acde..e12715b 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -53,8 +53,10 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
 
     if (header->extended_header_size > 0)
     {
-        // An extended header exists, skip it
-        CharStream_seek(tag_cs, header->extended_header_size, SEEK_SET);
+        // An extended header exists, skip it. Its size has already been read, it's included in
+        // the size itself in v2.4 but not in v2.3
+        const int already_read = header->major_version == 4 ? ID3v2_EXTENDED_HEADER_SIZE_LENGTH : 0;
+        CharStream_seek(tag_cs, (int) header->extended_header_size - already_read, SEEK_CUR);
     }
 
     ID3v2_Frame* current_frame;
-- 
2.43.0


From adb50db7dce2a57a3de30ec02608243d2f47a105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:09 +0000
Subject: [PATCH 08/40] fix: reject frames that don't fit in the tag

Frame sizes were trusted and used to size allocations and copies.
---
 src/modules/frame_header.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/modules/frame_header.c b/src/modules/frame_header.c
index 4f755d2..973a67c 100644
--- a/src/modules/frame_header.c
+++ b/src/modules/frame_header.c
@@ -30,6 +30,9 @@ ID3v2_FrameHeader* FrameHeader_new(const char* id, const char* flags, const int
 
 ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_version)
 {
+    // There's no room for a frame
+    if (header_cs->size - header_cs->cursor < ID3v2_FRAME_HEADER_LENGTH) return NULL;
+
     char id[ID3v2_FRAME_HEADER_ID_LENGTH];
     CharStream_read(header_cs, id, ID3v2_FRAME_HEADER_ID_LENGTH);
 
@@ -54,6 +57,13 @@ ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_
     char flags[ID3v2_FRAME_HEADER_FLAGS_LENGTH];
     CharStream_read(header_cs, flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
 
+    if (size < 0 || size > header_cs->size - header_cs->cursor)
+    {
+        // The frame claims to be bigger than the tag, don't believe anything from here on
+        CharStream_seek(header_cs, -ID3v2_FRAME_HEADER_LENGTH, SEEK_CUR);
+        return NULL;
+    }
+
     return FrameHeader_new(id, flags, size);
 }
 
-- 
2.43.0


From 6cbb92982077bc71110d67aaee2dd106967b2b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:58 +0000
Subject: [PATCH 09/40] fix: keep the whole content of text frames when parsing
 them

The text was copied to the stack, whatever its size, and then treated as a
terminated string: unterminated text was read past its end, an empty frame
gave an array of negative size, a large one overflowed the stack. Everything
after the first terminator (multiple values, the value of TXXX frames) was
lost, and so was the encoding of UTF-8 and UTF-16BE text.
---
 include/modules/frame.h         |  1 +
 src/modules/frames/text_frame.c | 21 +++++++++++------
 src/modules/utils.c             | 42 +++++++++++++++++++++++++++++++++
 src/modules/utils.private.h     |  2 ++
 4 files changed, 59 insertions(+), 7 deletions(-)

diff --git a/include/modules/frame.h b/include/modules/frame.h
index 26f1f4d..5772979 100644
--- a/include/modules/frame.h
+++ b/include/modules/frame.h
@@ -14,6 +14,7 @@
 
 #define ID3v2_ENCODING_ISO 0
 #define ID3v2_ENCODING_UNICODE 1
+#define ID3v2_ENCODING_UTF16BE 2 // v2.4 only, without BOM
 
 typedef struct _ID3v2_FrameHeader ID3v2_FrameHeader;
 
diff --git a/src/modules/frames/text_frame.c b/src/modules/frames/text_frame.c
index 54cec80..79bd814 100644
--- a/src/modules/frames/text_frame.c
+++ b/src/modules/frames/text_frame.c
@@ -34,15 +34,22 @@ ID3v2_TextFrame* TextFrame_parse(CharStream* frame_cs, const int id3_major_versi
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    const char* content = CharStream_slice(frame_cs, header->size);
+    const int text_offset = header->size > 0 ? ID3v2_FRAME_ENCODING_LENGTH : 0;
 
-    const int text_size = header->size - ID3v2_FRAME_ENCODING_LENGTH;
-    char text[text_size];
-    CharStream_read(frame_cs, text, text_size);
-
-    ID3v2_TextFrame* frame = TextFrame_new(header->id, header->flags, text);
+    ID3v2_TextFrameData* data = (ID3v2_TextFrameData*) malloc(sizeof(ID3v2_TextFrameData));
+    data->encoding = header->size > 0 ? content[0] : ID3v2_ENCODING_ISO;
+    data->text = string_from_buffer(
+        content + text_offset,
+        header->size - text_offset,
+        data->encoding,
+        &data->size
+    );
 
-    FrameHeader_free(header); // we only needed the header to parse the data
+    ID3v2_TextFrame* frame = (ID3v2_TextFrame*) malloc(sizeof(ID3v2_TextFrame));
+    frame->data = data;
+    frame->header = header;
+    frame->header->size = ID3v2_FRAME_ENCODING_LENGTH + data->size;
 
     return frame;
 }
diff --git a/src/modules/utils.c b/src/modules/utils.c
index 1bc499f..fdb516d 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -12,6 +12,8 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include "modules/frame.h"
+
 #include "utils.private.h"
 
 #define BOM_LENGTH 2
@@ -158,3 +160,43 @@ bool string_has_bom(const char* string)
 
     return false;
 }
+
+static int char_size_in_buffer(const char* buffer, const int buffer_size, const char encoding)
+{
+    const bool has_bom = buffer_size >= BOM_LENGTH && string_has_bom(buffer);
+    return has_bom || encoding == ID3v2_ENCODING_UTF16BE ? 2 : 1;
+}
+
+/**
+ * Size, termination included, of the string at the beginning of buffer. The
+ * string takes up the whole buffer if it's not terminated.
+ */
+int string_size_in_buffer(const char* buffer, const int buffer_size, const char encoding)
+{
+    const int char_size = char_size_in_buffer(buffer, buffer_size, encoding);
+
+    for (int i = 0; i + char_size <= buffer_size; i += char_size)
+    {
+        if (memcmp(buffer + i, "\0\0", char_size) == 0) return i + char_size;
+    }
+
+    return buffer_size;
+}
+
+/**
+ * Copies the whole buffer into a new string, terminating it if it isn't. Stores
+ * the size of the new string, termination included, into size.
+ */
+char* string_from_buffer(const char* buffer, const int buffer_size, const char encoding, int* size)
+{
+    const int char_size = char_size_in_buffer(buffer, buffer_size, encoding);
+    const int aligned_size = buffer_size + buffer_size % char_size;
+    const bool is_terminated = buffer_size == aligned_size && buffer_size >= char_size &&
+                               memcmp(buffer + buffer_size - char_size, "\0\0", char_size) == 0;
+
+    *size = is_terminated ? buffer_size : aligned_size + char_size;
+    char* string = (char*) calloc(*size, sizeof(char));
+    memcpy(string, buffer, buffer_size);
+
+    return string;
+}
diff --git a/src/modules/utils.private.h b/src/modules/utils.private.h
index b58892f..2c9fb82 100644
--- a/src/modules/utils.private.h
+++ b/src/modules/utils.private.h
@@ -20,5 +20,7 @@ int syncint_encode(int value);
 unsigned int syncint_decode(int value);
 int clamp_int(const int value, const int min, const int max);
 bool string_has_bom(const char* string);
+int string_size_in_buffer(const char* buffer, const int buffer_size, const char encoding);
+char* string_from_buffer(const char* buffer, const int buffer_size, const char encoding, int* size);
 
 #endif
-- 
2.43.0


From e0aef6aec3379192e923157cdbad4f5d88209d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:58 +0000
Subject: [PATCH 10/40] fix: parse comment frames within their bounds

The description and the comment were searched for a terminator past the end
of the frame and of the buffer, and copied to the stack. The frame's size was
ignored, so a comment without terminator made the rest of the tag unreadable.
The encoding of UTF-8 and UTF-16BE comments was lost.
---
 src/modules/frames/comment_frame.c | 50 ++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/modules/frames/comment_frame.c b/src/modules/frames/comment_frame.c
index 947f72d..9bdbf3b 100644
--- a/src/modules/frames/comment_frame.c
+++ b/src/modules/frames/comment_frame.c
@@ -43,22 +43,39 @@ ID3v2_CommentFrame* CommentFrame_parse(CharStream* frame_cs, const int id3_major
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    const char* content = CharStream_slice(frame_cs, header->size);
+    int remaining = header->size;
+
+    ID3v2_CommentFrameData* data =
+        (ID3v2_CommentFrameData*) calloc(1, sizeof(ID3v2_CommentFrameData));
+
+    const int prefix_size = ID3v2_FRAME_ENCODING_LENGTH + ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH;
+
+    if (remaining >= prefix_size)
+    {
+        data->encoding = content[0];
+        memcpy(
+            data->language,
+            content + ID3v2_FRAME_ENCODING_LENGTH,
+            ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH
+        );
+        content += prefix_size;
+        remaining -= prefix_size;
+    }
+
+    const int raw_short_desc_size = string_size_in_buffer(content, remaining, data->encoding);
+    int short_desc_size;
+    data->short_description =
+        string_from_buffer(content, raw_short_desc_size, data->encoding, &short_desc_size);
+    content += raw_short_desc_size;
+    remaining -= raw_short_desc_size;
+
+    data->comment = string_from_buffer(content, remaining, data->encoding, &data->size);
 
-    char lang[ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH];
-    CharStream_read(frame_cs, lang, ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH);
-
-    const int short_desc_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char short_desc[short_desc_size];
-    CharStream_read(frame_cs, short_desc, short_desc_size);
-
-    const int comment_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char comment[comment_size];
-    CharStream_read(frame_cs, comment, comment_size);
-
-    ID3v2_CommentFrame* frame = CommentFrame_new(header->flags, lang, short_desc, comment);
-
-    FrameHeader_free(header); // we only needed the header to parse the data
+    ID3v2_CommentFrame* frame = (ID3v2_CommentFrame*) malloc(sizeof(ID3v2_CommentFrame));
+    frame->data = data;
+    frame->header = header;
+    frame->header->size = prefix_size + short_desc_size + data->size;
 
     return frame;
 }
@@ -80,7 +97,8 @@ CharStream* CommentFrame_to_char_stream(ID3v2_CommentFrame* frame)
     CharStream_write(
         frame_cs,
         frame->data->short_description,
-        ID3v2_strlent(frame->data->short_description)
+        frame->header->size - ID3v2_FRAME_ENCODING_LENGTH - ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH -
+            frame->data->size
     );
     CharStream_write(frame_cs, frame->data->comment, frame->data->size);
 
-- 
2.43.0


From 416c91f51e83545865c8952d0f78891f0741434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:59 +0000
Subject: [PATCH 11/40] fix: parse apic frames within their bounds

The mime type and the description were searched for a terminator past the end
of the frame and of the buffer, the picture size could become negative and the
picture was copied to the stack whatever its size. The encoding of UTF-8 and
UTF-16BE descriptions was lost.
---
 src/modules/frames/apic_frame.c | 70 +++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 21 deletions(-)

diff --git a/src/modules/frames/apic_frame.c b/src/modules/frames/apic_frame.c
index ba1d9cd..d50abe3 100644
--- a/src/modules/frames/apic_frame.c
+++ b/src/modules/frames/apic_frame.c
@@ -48,27 +48,50 @@ ID3v2_ApicFrame* ApicFrame_parse(CharStream* frame_cs, const int id3_major_versi
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    const char* content = CharStream_slice(frame_cs, header->size);
+    int remaining = header->size;
+
+    ID3v2_ApicFrameData* data = (ID3v2_ApicFrameData*) calloc(1, sizeof(ID3v2_ApicFrameData));
+
+    if (remaining >= ID3v2_FRAME_ENCODING_LENGTH)
+    {
+        data->encoding = content[0];
+        content += ID3v2_FRAME_ENCODING_LENGTH;
+        remaining -= ID3v2_FRAME_ENCODING_LENGTH;
+    }
+
+    // The mime type is always an ISO string
+    const int raw_mime_size = string_size_in_buffer(content, remaining, ID3v2_ENCODING_ISO);
+    int mime_type_size;
+    data->mime_type =
+        string_from_buffer(content, raw_mime_size, ID3v2_ENCODING_ISO, &mime_type_size);
+    content += raw_mime_size;
+    remaining -= raw_mime_size;
+
+    if (remaining >= ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH)
+    {
+        data->picture_type = content[0];
+        content += ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH;
+        remaining -= ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH;
+    }
+
+    const int raw_description_size = string_size_in_buffer(content, remaining, data->encoding);
+    int description_size;
+    data->description =
+        string_from_buffer(content, raw_description_size, data->encoding, &description_size);
+    content += raw_description_size;
+    remaining -= raw_description_size;
+
+    data->picture_size = remaining;
+    data->data = (char*) malloc(remaining * sizeof(char));
+    memcpy(data->data, content, remaining);
 
-    const int mime_type_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char mime_type[mime_type_size];
-    CharStream_read(frame_cs, mime_type, mime_type_size);
-
-    const char picture_type = CharStream_getc(frame_cs);
-
-    const int description_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char description[description_size];
-    CharStream_read(frame_cs, description, description_size);
-
-    const int pic_size = header->size - ID3v2_FRAME_ENCODING_LENGTH - mime_type_size -
-                         ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH - description_size;
-    char pic_data[pic_size];
-    CharStream_read(frame_cs, pic_data, pic_size);
-
-    ID3v2_ApicFrame* frame =
-        ApicFrame_new(header->flags, description, picture_type, mime_type, pic_size, pic_data);
-
-    FrameHeader_free(header); // we only needed the header to parse the data
+    ID3v2_ApicFrame* frame = (ID3v2_ApicFrame*) malloc(sizeof(ID3v2_ApicFrame));
+    frame->data = data;
+    frame->header = header;
+    frame->header->size = ID3v2_FRAME_ENCODING_LENGTH + mime_type_size +
+                          ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH + description_size +
+                          data->picture_size;
 
     return frame;
 }
@@ -88,7 +111,12 @@ CharStream* ApicFrame_to_char_stream(ID3v2_ApicFrame* frame)
     CharStream_write(frame_cs, &frame->data->encoding, ID3v2_FRAME_ENCODING_LENGTH);
     CharStream_write(frame_cs, frame->data->mime_type, ID3v2_strlent(frame->data->mime_type));
     CharStream_write(frame_cs, &frame->data->picture_type, ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH);
-    CharStream_write(frame_cs, frame->data->description, ID3v2_strlent(frame->data->description));
+    CharStream_write(
+        frame_cs,
+        frame->data->description,
+        frame->header->size - frame_cs->cursor + ID3v2_FRAME_HEADER_LENGTH -
+            frame->data->picture_size
+    );
     CharStream_write(frame_cs, frame->data->data, frame->data->picture_size);
 
     return frame_cs;
-- 
2.43.0


From 3c0d536061fd8b6a393f92f3ee37fd5f9188e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:59 +0000
Subject: [PATCH 12/40] fix: only treat COMM and APIC frames as comments and
 pictures

Every frame whose id starts with C or A (COMR, CHAP, CTOC, AENC, ASPI...) was
parsed as a comment or a picture, and saved as COMM or APIC.
---
 src/modules/frame_header.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modules/frame_header.c b/src/modules/frame_header.c
index 973a67c..9c267fa 100644
--- a/src/modules/frame_header.c
+++ b/src/modules/frame_header.c
@@ -13,6 +13,7 @@
 #include <string.h>
 
 #include "modules/char_stream.private.h"
+#include "modules/frame_ids.h"
 #include "modules/utils.private.h"
 
 #include "frame_header.private.h"
@@ -87,12 +88,12 @@ bool FrameHeader_isTextFrame(ID3v2_FrameHeader* header)
 
 bool FrameHeader_isCommentFrame(ID3v2_FrameHeader* header)
 {
-    return header->id[0] == 'C';
+    return memcmp(header->id, ID3v2_COMMENT_FRAME_ID, ID3v2_FRAME_HEADER_ID_LENGTH) == 0;
 }
 
 bool FrameHeader_isApicFrame(ID3v2_FrameHeader* header)
 {
-    return header->id[0] == 'A';
+    return memcmp(header->id, ID3v2_ALBUM_COVER_FRAME_ID, ID3v2_FRAME_HEADER_ID_LENGTH) == 0;
 }
 
 void FrameHeader_free(ID3v2_FrameHeader* header)
-- 
2.43.0


From 07eadb70c428cccfba0fa43d766b17b9a514c2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:58 +0000
Subject: [PATCH 13/40] fix: unlink the node when removing the last frame of a
 list

Removing the last of several frames left an empty node at the end of the list:
saving the tag then exited the process, frames added later couldn't be found.
Removing from an empty list dereferenced NULL.
---
 src/modules/frame_list.c | 46 ++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/modules/frame_list.c b/src/modules/frame_list.c
index 13e464f..530b4c0 100644
--- a/src/modules/frame_list.c
+++ b/src/modules/frame_list.c
@@ -115,39 +115,43 @@ void ID3v2_FrameList_unlink(ID3v2_FrameList* list)
 
 ID3v2_Frame* FrameList_remove_frame_by_id(ID3v2_FrameList* list, const char* frame_id)
 {
-    if (list == NULL) return NULL;
-
-    while (list != NULL)
-    {
-        if (strncmp(list->frame->header->id, frame_id, 4) == 0)
-        {
-            ID3v2_Frame* removed = list->frame;
-            ID3v2_FrameList* new_head_old_ptr = list->next != NULL ? list->next : FrameList_new();
-            *list = *new_head_old_ptr;
-            free(new_head_old_ptr);
-            return removed;
-        }
-
-        list = list->next;
-    }
-
-    return NULL;
+    return FrameList_remove_frame(list, FrameList_get_frame_by_id(list, frame_id));
 }
 
 ID3v2_Frame* FrameList_remove_frame(ID3v2_FrameList* list, ID3v2_Frame* to_remove)
 {
-    if (list == NULL) return NULL;
+    if (list == NULL || to_remove == NULL) return NULL;
+
+    ID3v2_FrameList* previous = NULL;
 
     while (list != NULL)
     {
         if (list->frame == to_remove)
         {
-            ID3v2_FrameList* new_head_old_ptr = list->next != NULL ? list->next : FrameList_new();
-            *list = *new_head_old_ptr;
-            free(new_head_old_ptr);
+            ID3v2_FrameList* next = list->next;
+
+            if (next != NULL)
+            {
+                *list = *next;
+                free(next);
+            }
+            else if (previous != NULL)
+            {
+                // Don't leave an empty node at the end of the list
+                previous->next = NULL;
+                free(list);
+            }
+            else
+            {
+                // It was the only frame, the list is empty now
+                list->frame = NULL;
+                list->start = NULL;
+            }
+
             return to_remove;
         }
 
+        previous = list;
         list = list->next;
     }
 
-- 
2.43.0


From 9abab6406f1cab713e3b3a83e8b65f66d7c324aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:58 +0000
Subject: [PATCH 14/40] fix: deleting a frame that isn't in the tag does
 nothing

It dereferenced NULL.
---
 src/modules/tag.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index e12715b..ba40a59 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -460,6 +460,9 @@ void ID3v2_Tag_free(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_frame(ID3v2_Tag* tag, const char* frame_id)
 {
     ID3v2_Frame* deleted = FrameList_remove_frame_by_id(tag->frames, frame_id);
+
+    if (deleted == NULL) return; // there's nothing to delete
+
     tag->header->tag_size -= deleted->header->size + ID3v2_FRAME_HEADER_LENGTH;
     // Maybe we should just return the frame instead of taking the responsibility
     // of freeing it?
-- 
2.43.0


From e4587aa6c660b1af60bfc1501d9c1b0e9a8e1b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:58 +0000
Subject: [PATCH 15/40] fix: account for frames deleted by index and release
 the whole sublist

The size of the tag wasn't updated, unlike in ID3v2_Tag_delete_frame, and the
nodes before the deleted one were leaked.
---
 src/modules/tag.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index ba40a59..9517e0c 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -517,15 +517,17 @@ void ID3v2_Tag_delete_composer(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_comment_frame(ID3v2_Tag* tag, const int index)
 {
     int i = 0;
-    ID3v2_FrameList* head = ID3v2_Tag_get_comment_frames(tag);
+    ID3v2_FrameList* comment_frames = ID3v2_Tag_get_comment_frames(tag);
+    ID3v2_FrameList* head = comment_frames;
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_CommentFrame* to_delete = (ID3v2_CommentFrame*) head->frame;
 
         if (i == index)
         {
             FrameList_remove_frame(tag->frames, (ID3v2_Frame*) to_delete);
+            tag->header->tag_size -= to_delete->header->size + ID3v2_FRAME_HEADER_LENGTH;
             ID3v2_Frame_free((ID3v2_Frame*) to_delete);
             break;
         }
@@ -534,7 +536,7 @@ void ID3v2_Tag_delete_comment_frame(ID3v2_Tag* tag, const int index)
         head = head->next;
     }
 
-    ID3v2_FrameList_unlink(head);
+    ID3v2_FrameList_unlink(comment_frames);
 }
 
 void ID3v2_Tag_delete_comment(ID3v2_Tag* tag)
@@ -545,15 +547,17 @@ void ID3v2_Tag_delete_comment(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_apic_frame(ID3v2_Tag* tag, const int index)
 {
     int i = 0;
-    ID3v2_FrameList* head = ID3v2_Tag_get_apic_frames(tag);
+    ID3v2_FrameList* apic_frames = ID3v2_Tag_get_apic_frames(tag);
+    ID3v2_FrameList* head = apic_frames;
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_ApicFrame* to_delete = (ID3v2_ApicFrame*) head->frame;
 
         if (i == index)
         {
             FrameList_remove_frame(tag->frames, (ID3v2_Frame*) to_delete);
+            tag->header->tag_size -= to_delete->header->size + ID3v2_FRAME_HEADER_LENGTH;
             ID3v2_Frame_free((ID3v2_Frame*) to_delete);
             break;
         }
@@ -562,7 +566,7 @@ void ID3v2_Tag_delete_apic_frame(ID3v2_Tag* tag, const int index)
         head = head->next;
     }
 
-    ID3v2_FrameList_unlink(head);
+    ID3v2_FrameList_unlink(apic_frames);
 }
 
 void ID3v2_Tag_delete_album_cover(ID3v2_Tag* tag)
-- 
2.43.0


From f98c00fb2c6fd3faffb0a5821586267363e83b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:59 +0000
Subject: [PATCH 16/40] fix: count the frame header when a frame is added to a
 tag

Every added frame made the serialised tag overflow its buffer by 10 bytes.
---
 src/modules/tag.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 9517e0c..1ee791f 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -212,7 +212,7 @@ void ID3v2_Tag_set_text_frame(ID3v2_Tag* tag, ID3v2_TextFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -346,7 +346,7 @@ void ID3v2_Tag_set_comment_frame(ID3v2_Tag* tag, ID3v2_CommentFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -365,7 +365,7 @@ void ID3v2_Tag_add_comment_frame(ID3v2_Tag* tag, ID3v2_CommentFrameInput* input)
     ID3v2_CommentFrame* new_frame =
         CommentFrame_new(input->flags, input->language, input->short_description, input->comment);
     FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-    tag->header->tag_size += new_frame->header->size;
+    tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
 }
 
 void ID3v2_Tag_set_comment(ID3v2_Tag* tag, const char* lang, const char* comment)
@@ -399,7 +399,7 @@ void ID3v2_Tag_set_apic_frame(ID3v2_Tag* tag, ID3v2_ApicFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -424,7 +424,7 @@ void ID3v2_Tag_add_apic_frame(ID3v2_Tag* tag, ID3v2_ApicFrameInput* input)
         input->data
     );
     FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-    tag->header->tag_size += new_frame->header->size;
+    tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
 }
 
 /**
-- 
2.43.0


From fddb23de2f194eee2ff35ea57e9c17a50042d0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:59 +0000
Subject: [PATCH 17/40] fix: save tags with the size of what is actually
 written

The padding added when saving wasn't counted, so it was never written, and
the size of a loaded tag could differ from that of its frames, which made the
serialisation write past its buffer.
---
 src/modules/tag.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 1ee791f..9878686 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -72,8 +72,29 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
     return tag;
 }
 
+/**
+ * Bytes needed to store the frames and the padding of the tag
+ */
+static unsigned int Tag_content_size(ID3v2_Tag* tag)
+{
+    unsigned int size = tag->padding_size;
+    ID3v2_FrameList* frames = tag->frames;
+
+    while (frames != NULL && frames->frame != NULL)
+    {
+        size += frames->frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
+        frames = frames->next;
+    }
+
+    return size;
+}
+
 CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
 {
+    // The size read from a file may count things that aren't written back (an extended header,
+    // broken frames) and doesn't count what has been added (padding, terminators)
+    tag->header->tag_size = Tag_content_size(tag);
+
     CharStream* tag_cs = CharStream_new(tag->header->tag_size + ID3v2_TAG_HEADER_LENGTH);
 
     // Write header
-- 
2.43.0


From aace1308f7014fd97270b0ec4fcd971934d5651f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:59 +0000
Subject: [PATCH 18/40] fix: don't announce an extended header or a footer that
 isn't written

Saving a tag read from a file that has one kept the flag, and readers (this
library included) then took the first frames for the extended header.
---
 include/modules/tag_header.h | 2 ++
 src/modules/tag.c            | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/modules/tag_header.h b/include/modules/tag_header.h
index be6c46f..d908fd4 100644
--- a/include/modules/tag_header.h
+++ b/include/modules/tag_header.h
@@ -17,6 +17,8 @@
 #define ID3v2_TAG_HEADER_FLAGS_LENGTH 1
 #define ID3v2_TAG_HEADER_TAG_SIZE_LENGTH 4
 #define ID3v2_EXTENDED_HEADER_SIZE_LENGTH 4
+#define ID3v2_TAG_HEADER_EXTENDED_HEADER_FLAG 0x40
+#define ID3v2_TAG_HEADER_FOOTER_FLAG 0x10
 
 typedef struct _ID3v2_TagHeader
 {
diff --git a/src/modules/tag.c b/src/modules/tag.c
index 9878686..c319b03 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -101,7 +101,11 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
     CharStream_write(tag_cs, tag->header->identifier, ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
     CharStream_write(tag_cs, &tag->header->major_version, ID3v2_TAG_HEADER_MAJOR_VERSION_LENGTH);
     CharStream_write(tag_cs, &tag->header->minor_version, ID3v2_TAG_HEADER_MINOR_VERSION_LENGTH);
-    CharStream_write(tag_cs, &tag->header->flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
+
+    // Neither the extended header nor the footer are written
+    const char flags = tag->header->flags &
+                       ~(ID3v2_TAG_HEADER_EXTENDED_HEADER_FLAG | ID3v2_TAG_HEADER_FOOTER_FLAG);
+    CharStream_write(tag_cs, &flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
 
     char* size_bytes = itob(syncint_encode(tag->header->tag_size));
     CharStream_write(tag_cs, size_bytes, ID3v2_TAG_HEADER_TAG_SIZE_LENGTH);
-- 
2.43.0


From 2ec98398dbfc71410dbd1490041985586e367ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:59 +0000
Subject: [PATCH 19/40] fix: write syncsafe frame sizes in v2.4 tags

They are read as syncsafe integers but were written as plain ones, so frames
of 128 bytes or more couldn't be read back.
---
 src/modules/tag.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index c319b03..cd61df2 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -126,6 +126,15 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
 
         if (frame_cs == NULL) exit(1);
 
+        if (tag->header->major_version == 4)
+        {
+            // Frame sizes are syncsafe in v2.4
+            char* frame_size_bytes = itob(syncint_encode(frames->frame->header->size));
+            CharStream_seek(frame_cs, ID3v2_FRAME_HEADER_ID_LENGTH, SEEK_SET);
+            CharStream_write(frame_cs, frame_size_bytes, ID3v2_FRAME_HEADER_SIZE_LENGTH);
+            free(frame_size_bytes);
+        }
+
         CharStream_write(tag_cs, frame_cs->stream, frame_cs->size);
         CharStream_free(frame_cs);
 
-- 
2.43.0


From 0cde3e8020c9ac7db6457ffbdce8ee4bcbdad128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:59 +0000
Subject: [PATCH 20/40] fix: release frames of unknown type completely

Freeing one leaked the frame itself, serialising one leaked its header.
---
 src/modules/frame.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/frame.c b/src/modules/frame.c
index 29d775e..257ae51 100644
--- a/src/modules/frame.c
+++ b/src/modules/frame.c
@@ -78,6 +78,7 @@ CharStream* Frame_to_char_stream(ID3v2_Frame* frame)
         CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);
         CharStream* header_cs = FrameHeader_to_char_stream(frame->header);
         CharStream_write(frame_cs, header_cs->stream, ID3v2_FRAME_HEADER_LENGTH);
+        CharStream_free(header_cs);
         CharStream_write(frame_cs, frame->data, frame->header->size);
         return frame_cs;
     }
@@ -104,5 +105,6 @@ void ID3v2_Frame_free(ID3v2_Frame* frame)
         // Unknown frame id, naively try our best to free it
         free(frame->header);
         free(frame->data);
+        free(frame);
     }
 }
-- 
2.43.0


From 80657e04ceb0a00bad88a2523a1c35b7b8eea5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:59 +0000
Subject: [PATCH 21/40] fix: use the encoding of the comment for the empty
 description

An ISO comment was saved with an UTF-16 description, so other readers take the
BOM for the description and find an empty comment.
---
 src/modules/tag.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index cd61df2..536e6c8 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -409,7 +409,8 @@ void ID3v2_Tag_set_comment(ID3v2_Tag* tag, const char* lang, const char* comment
         &(ID3v2_CommentFrameInput){
             .flags = "\0\0",
             .language = lang,
-            .short_description = EMPTY_UNICODE_STR,
+            // Both strings share the encoding of the frame
+            .short_description = string_has_bom(comment) ? EMPTY_UNICODE_STR : "",
             .comment = comment,
         }
     );
-- 
2.43.0


From 67e96058d7c0679f357b6fb447e890ab5eaed555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:59 +0000
Subject: [PATCH 22/40] fix: parse tags with many frames in linear time

The whole list was walked to append each frame.
---
 src/modules/tag.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 536e6c8..5c41a8c 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -60,11 +60,13 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
     }
 
     ID3v2_Frame* current_frame;
+    ID3v2_FrameList* last = tag->frames;
     while (tag_cs->cursor < tag_cs->size)
     {
         current_frame = Frame_parse(tag_cs, tag->header->major_version);
         if (current_frame == NULL) break;
-        FrameList_add_frame(tag->frames, current_frame);
+        FrameList_add_frame(last, current_frame);
+        if (last->next != NULL) last = last->next; // don't walk the whole list for each frame
     }
 
     tag->padding_size = tag_cs->size - tag_cs->cursor;
-- 
2.43.0


From 6e661010082ad0b6844d1cf2dfab8d015b673ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:05 +0000
Subject: [PATCH 23/40] fix: don't overwrite the file when the new content
 couldn't be completed

Saving to a file that can't be opened crashed, and so did failing to create
the temp file. If the temp file couldn't be written or the original couldn't be
read the destination was truncated and overwritten all the same.
---
 src/id3v2lib.c | 62 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 15 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index f89c712..4f0e7b2 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -7,6 +7,7 @@
  * file that was distributed with this source code.
  */
 
+#include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -95,14 +96,43 @@ ID3v2_Tag* ID3v2_read_tag_from_buffer(const char* tag_buffer, const int buffer_l
     return tag;
 }
 
+/**
+ * Bytes taken up by the tag at the beginning of the file, 0 if there isn't
+ * one and -1 if the file can't be read.
+ */
+static int get_tag_length(FILE* fp)
+{
+    char tag_header_buffer[ID3v2_TAG_HEADER_LENGTH];
+    const int bytes_read = fread(tag_header_buffer, sizeof(char), ID3v2_TAG_HEADER_LENGTH, fp);
+
+    if (ferror(fp)) return -1;
+    if (bytes_read < ID3v2_TAG_HEADER_LENGTH) return 0;
+
+    ID3v2_TagHeader* tag_header = ID3v2_read_tag_header_from_buffer(tag_header_buffer);
+    const int length = tag_header != NULL ? tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH : 0;
+    ID3v2_TagHeader_free(tag_header);
+
+    return length;
+}
+
 void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
 {
     if (tag == NULL) return;
 
-    ID3v2_TagHeader* existing_tag_header = ID3v2_read_tag_header(file_name);
-    const int original_size =
-        existing_tag_header != NULL ? existing_tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH : 0;
-    free(existing_tag_header);
+    FILE* dest_fp = fopen(file_name, "r+b");
+
+    if (dest_fp == NULL) return;
+
+    const int original_size = get_tag_length(dest_fp);
+
+    // Perform operations on a temp file in case things go wrong
+    FILE* temp_fp = original_size >= 0 ? tmpfile() : NULL;
+
+    if (temp_fp == NULL)
+    {
+        fclose(dest_fp);
+        return;
+    }
 
     const int extra_padding_length = clamp_int(
         ID3v2_TAG_DEFAULT_PADDING_LENGTH - tag->padding_size,
@@ -112,16 +142,12 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
     tag->padding_size += extra_padding_length;
     CharStream* tag_cs = Tag_to_char_stream(tag);
 
-    // Perform operations on a temp file in case things go wrong
-    FILE* temp_fp = tmpfile();
-
     // First write the tag to the temp file
     fwrite(tag_cs->stream, sizeof(char), tag_cs->size, temp_fp);
 
     // And then, read the original audio data and copy it to
     // the temp file so it's located after the tag
-    FILE* dest_fp = fopen(file_name, "r+b");
-    fseek(dest_fp, original_size, SEEK_SET); // move to the end of the original tag
+    bool is_complete = fseek(dest_fp, original_size, SEEK_SET) == 0; // skip the original tag
 
     int c = 0;
 
@@ -130,18 +156,24 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
         putc(c, temp_fp);
     }
 
-    // Finally copy the temp file back into the destination file
+    is_complete = is_complete && !ferror(dest_fp) && !ferror(temp_fp) &&
+                  fseek(temp_fp, 0L, SEEK_SET) == 0;
+
+    // Finally copy the temp file back into the destination file, unless something went wrong
     fclose(dest_fp);
-    dest_fp = fopen(file_name, "w+b");
-    fseek(temp_fp, 0L, SEEK_SET);
+    dest_fp = is_complete ? fopen(file_name, "w+b") : NULL;
 
-    while ((c = getc(temp_fp)) != EOF)
+    if (dest_fp != NULL)
     {
-        putc(c, dest_fp);
+        while ((c = getc(temp_fp)) != EOF)
+        {
+            putc(c, dest_fp);
+        }
+
+        fclose(dest_fp);
     }
 
     fclose(temp_fp);
-    fclose(dest_fp);
 
     CharStream_free(tag_cs);
 }
-- 
2.43.0


From e7a031ac7294a0186be3449456e4ef1378b7df85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:05 +0000
Subject: [PATCH 24/40] fix: don't truncate the file when its audio couldn't be
 copied

Deleting the tag crashed when a file couldn't be opened or created, and threw
the audio away when it couldn't be read or stored in the temp file.
---
 src/id3v2lib.c | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index 4f0e7b2..bc5aa83 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -180,14 +180,20 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
 
 void ID3v2_delete_tag(const char* file_name)
 {
-    ID3v2_TagHeader* tag_header = ID3v2_read_tag_header(file_name);
+    FILE* file_fp = fopen(file_name, "rb");
 
-    if (tag_header == NULL) return;
+    if (file_fp == NULL) return;
 
-    FILE* file_fp = fopen(file_name, "rb");
-    FILE* temp_fp = tmpfile();
+    const int tag_length = get_tag_length(file_fp);
+    FILE* temp_fp = tag_length > 0 ? tmpfile() : NULL;
 
-    fseek(file_fp, tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH, SEEK_SET);
+    if (temp_fp == NULL)
+    {
+        fclose(file_fp);
+        return;
+    }
+
+    bool is_complete = fseek(file_fp, tag_length, SEEK_SET) == 0;
 
     int c = 0;
 
@@ -196,18 +202,22 @@ void ID3v2_delete_tag(const char* file_name)
         putc(c, temp_fp);
     }
 
-    // Finally copy the temp file back into the destination file
+    is_complete = is_complete && !ferror(file_fp) && !ferror(temp_fp) &&
+                  fseek(temp_fp, 0L, SEEK_SET) == 0;
+
+    // Finally copy the temp file back into the destination file, unless something went wrong
     fclose(file_fp);
-    file_fp = fopen(file_name, "w+b");
-    fseek(temp_fp, 0L, SEEK_SET);
+    file_fp = is_complete ? fopen(file_name, "w+b") : NULL;
 
-    while ((c = getc(temp_fp)) != EOF)
+    if (file_fp != NULL)
     {
-        putc(c, file_fp);
-    }
+        while ((c = getc(temp_fp)) != EOF)
+        {
+            putc(c, file_fp);
+        }
 
-    ID3v2_TagHeader_free(tag_header);
+        fclose(file_fp);
+    }
 
     fclose(temp_fp);
-    fclose(file_fp);
 }
-- 
2.43.0


From d3a280f6dd44fc543510abb77a182a96868a179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:06 +0000
Subject: [PATCH 25/40] fix: treat the v2.4 footer as part of the tag

It was left in front of the audio when saving or deleting the tag.
---
 src/id3v2lib.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index bc5aa83..05e8dad 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -109,7 +109,15 @@ static int get_tag_length(FILE* fp)
     if (bytes_read < ID3v2_TAG_HEADER_LENGTH) return 0;
 
     ID3v2_TagHeader* tag_header = ID3v2_read_tag_header_from_buffer(tag_header_buffer);
-    const int length = tag_header != NULL ? tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH : 0;
+    int length = tag_header != NULL ? tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH : 0;
+
+    // In v2.4, there may be a footer as long as the header that isn't included in the tag size
+    if (tag_header != NULL && tag_header->major_version == 4 &&
+        (tag_header->flags & ID3v2_TAG_HEADER_FOOTER_FLAG))
+    {
+        length += ID3v2_TAG_HEADER_LENGTH;
+    }
+
     ID3v2_TagHeader_free(tag_header);
 
     return length;
-- 
2.43.0


From 8b50adbad71ba2495825aac6211399ffef8044d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:06 +0000
Subject: [PATCH 26/40] fix: initialise new compat tags

The header fields were left uninitialised, and so was the raw pointer that
free_tag frees.
---
 src/id3v2lib.compat.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index cb16591..a38f474 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -28,6 +28,7 @@ ID3v2_frame_list* new_frame_list()
     {
         list->frame = NULL;
         list->next = NULL;
+        list->last = NULL;
         list->start = NULL;
     }
 
@@ -114,12 +115,18 @@ ID3v2_tag* new_tag()
     ID3v2_tag* tag = (ID3v2_tag*) malloc(sizeof(ID3v2_tag));
     ID3v2_header* header = (ID3v2_header*) malloc(sizeof(ID3v2_header));
 
-    memcpy(header->tag, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
-
+    tag->raw = NULL;
     tag->tag_header = header;
     tag->frames = new_frame_list();
     tag->tag = ID3v2_Tag_new_empty();
 
+    memcpy(header->tag, tag->tag->header->identifier, ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
+    header->major_version = tag->tag->header->major_version;
+    header->minor_version = tag->tag->header->minor_version;
+    header->flags = tag->tag->header->flags;
+    header->tag_size = tag->tag->header->tag_size;
+    header->extended_header_size = tag->tag->header->extended_header_size;
+
     return tag;
 }
 
-- 
2.43.0


From ee31bb3651ca585a90f1d54a541f32462b2da338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:06 +0000
Subject: [PATCH 27/40] fix: setting a frame that isn't in a compat tag yet

add_uniq_to_list dereferenced NULL for empty lists and for frames not found.
---
 src/id3v2lib.compat.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index a38f474..7f8f2db 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -77,9 +77,11 @@ void add_to_list(ID3v2_frame_list* main, ID3v2_frame* frame)
     }
 }
 
-void add_uniq_to_list(ID3v2_frame_list* head, ID3v2_frame* frame)
+void add_uniq_to_list(ID3v2_frame_list* main, ID3v2_frame* frame)
 {
-    while (head != NULL)
+    ID3v2_frame_list* head = main;
+
+    while (head != NULL && head->frame != NULL)
     {
         if (memcmp(head->frame->frame_id, frame->frame_id, 4) == 0)
         {
@@ -92,7 +94,7 @@ void add_uniq_to_list(ID3v2_frame_list* head, ID3v2_frame* frame)
     }
 
     // not found
-    add_to_list(head->start, frame);
+    add_to_list(main, frame);
 }
 
 ID3v2_frame* get_from_list(ID3v2_frame_list* list, const char* frame_id)
-- 
2.43.0


From e6bda51675f1aa588d041c6f72f8d70d4ce70dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:06 +0000
Subject: [PATCH 28/40] fix: loading and freeing compat tags without frames

Both dereferenced the missing frame.
---
 src/id3v2lib.compat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 7f8f2db..00faa8b 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -175,7 +175,7 @@ ID3v2_tag* load_tag_with_buffer(const char* buffer, int length)
     ID3v2_FrameList* head = tag->frames;
     ID3v2_frame_list* compat_frames = new_frame_list();
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_frame* compat_frame = frame_to_compat_frame(head->frame);
         add_to_list(compat_frames, compat_frame);
@@ -213,7 +213,7 @@ void free_tag(ID3v2_tag* tag)
 
     while (list != NULL)
     {
-        free_frame(list->frame);
+        if (list->frame != NULL) free_frame(list->frame);
         ID3v2_frame_list* new_head = list->next;
         free(list);
         list = new_head;
-- 
2.43.0


From 2debb46b79ec4d62f318189cf07d87831d2e1c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:06 +0000
Subject: [PATCH 29/40] fix: return NULL when there's no tag to load in the
 compat layer

Callers are told to check for it, but files and buffers without a tag crashed.
Truncated files were completed with uninitialised memory.
---
 src/id3v2lib.compat.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 00faa8b..bc0e5f7 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -135,13 +135,30 @@ ID3v2_tag* new_tag()
 ID3v2_tag* load_tag(const char* file_name)
 {
     ID3v2_TagHeader* header = ID3v2_read_tag_header(file_name);
+
+    if (header == NULL) return NULL;
+
     FILE* fp = fopen(file_name, "rb");
-    const int buffer_size = header->tag_size + ID3v2_TAG_HEADER_LENGTH;
+
+    if (fp == NULL)
+    {
+        ID3v2_TagHeader_free(header);
+        return NULL;
+    }
+
+    int buffer_size = header->tag_size + ID3v2_TAG_HEADER_LENGTH;
+
+    // Don't trust the declared size, the file may be shorter than that
+    fseek(fp, 0L, SEEK_END);
+    const long file_size = ftell(fp);
+    fseek(fp, 0L, SEEK_SET);
+    if (file_size < buffer_size) buffer_size = file_size < 0 ? 0 : (int) file_size;
+
     char* buffer = (char*) malloc(buffer_size * sizeof(char));
-    fread(buffer, sizeof(char), buffer_size, fp);
+    const int bytes_read = fread(buffer, sizeof(char), buffer_size, fp);
     fclose(fp);
 
-    ID3v2_tag* tag = load_tag_with_buffer(buffer, buffer_size);
+    ID3v2_tag* tag = load_tag_with_buffer(buffer, bytes_read);
 
     free(buffer);
     ID3v2_TagHeader_free(header);
@@ -152,6 +169,9 @@ ID3v2_tag* load_tag(const char* file_name)
 ID3v2_tag* load_tag_with_buffer(const char* buffer, int length)
 {
     ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(buffer, length);
+
+    if (tag == NULL) return NULL;
+
     ID3v2_tag* compat_tag = (ID3v2_tag*) malloc(sizeof(ID3v2_tag));
 
     compat_tag->tag_header = (ID3v2_header*) malloc(sizeof(ID3v2_header));
-- 
2.43.0


From 89ce28c923fc616b954961e273f25f5badf496c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:06 +0000
Subject: [PATCH 30/40] fix: copy both flag bytes to compat frames

The second one was left uninitialised.
---
 src/id3v2lib.compat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index bc0e5f7..f0fb7d8 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -42,7 +42,7 @@ ID3v2_frame* frame_to_compat_frame(ID3v2_Frame* frame)
     // Frame header
     memcpy(compat_frame->frame_id, frame->header->id, ID3v2_FRAME_HEADER_ID_LENGTH);
     compat_frame->size = frame->header->size;
-    memcpy(compat_frame->flags, frame->header->flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
+    memcpy(compat_frame->flags, frame->header->flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
 
     // Frame data
     CharStream* frame_cs = Frame_to_char_stream(frame);
-- 
2.43.0


From ab0e34683beac943cb44923477cc77123470a4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:07 +0000
Subject: [PATCH 31/40] fix: parsing the content of a missing compat frame
 yields NULL

The getters return NULL for missing frames and, as in the README, their result
is passed on to the parse functions, which dereferenced it.
---
 src/id3v2lib.compat.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index f0fb7d8..df517a4 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -299,6 +299,8 @@ ID3v2_frame* tag_get_album_cover(ID3v2_tag* tag)
 
 ID3v2_frame_text_content* parse_text_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_text_content* content =
         (ID3v2_frame_text_content*) malloc(sizeof(ID3v2_frame_text_content));
     ID3v2_TextFrame* text_frame = (ID3v2_TextFrame*) frame->frame;
@@ -313,6 +315,8 @@ ID3v2_frame_text_content* parse_text_frame_content(ID3v2_frame* frame)
 
 ID3v2_frame_comment_content* parse_comment_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_comment_content* content =
         (ID3v2_frame_comment_content*) malloc(sizeof(ID3v2_frame_comment_content));
     ID3v2_CommentFrame* comment_frame = (ID3v2_CommentFrame*) frame->frame;
@@ -329,6 +333,8 @@ ID3v2_frame_comment_content* parse_comment_frame_content(ID3v2_frame* frame)
 
 ID3v2_frame_apic_content* parse_apic_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_apic_content* content =
         (ID3v2_frame_apic_content*) malloc(sizeof(ID3v2_frame_apic_content));
     ID3v2_ApicFrame* apic_frame = (ID3v2_ApicFrame*) frame->frame;
-- 
2.43.0


From da9de40162f214b72a357d150ea0f076c2ed2674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:07 +0000
Subject: [PATCH 32/40] fix: compat album covers from missing files or files
 without extension

Both dereferenced NULL.
---
 src/id3v2lib.compat.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index df517a4..fb7b6ca 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -456,6 +456,8 @@ void tag_set_album_cover(const char* filename, ID3v2_tag* tag)
     int image_size;
     char* mimetype;
 
+    if (album_cover == NULL) return;
+
     fseek(album_cover, 0, SEEK_END);
     image_size = (int) ftell(album_cover);
     fseek(album_cover, 0, SEEK_SET);
@@ -465,8 +467,9 @@ void tag_set_album_cover(const char* filename, ID3v2_tag* tag)
 
     fclose(album_cover);
 
-    mimetype =
-        strcmp(strrchr(filename, '.') + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG : ID3v2_MIME_TYPE_JPG;
+    const char* extension = strrchr(filename, '.');
+    mimetype = extension != NULL && strcmp(extension + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG
+                                                                      : ID3v2_MIME_TYPE_JPG;
     tag_set_album_cover_from_bytes(album_cover_bytes, mimetype, image_size, tag);
 
     free(album_cover_bytes);
-- 
2.43.0


From af7b37f484b6d5911727be9ac7b0be665e693831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:00 +0000
Subject: [PATCH 33/40] fix: don't terminate twice a string with an incomplete
 last character

---
 src/modules/utils.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/modules/utils.c b/src/modules/utils.c
index fdb516d..ae61937 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -191,10 +191,13 @@ char* string_from_buffer(const char* buffer, const int buffer_size, const char e
 {
     const int char_size = char_size_in_buffer(buffer, buffer_size, encoding);
     const int aligned_size = buffer_size + buffer_size % char_size;
-    const bool is_terminated = buffer_size == aligned_size && buffer_size >= char_size &&
-                               memcmp(buffer + buffer_size - char_size, "\0\0", char_size) == 0;
+    // The last character may lack its second byte, which will be zero in the new string
+    const int last_char_size = char_size - (aligned_size - buffer_size);
+    const bool is_terminated =
+        buffer_size >= last_char_size &&
+        memcmp(buffer + buffer_size - last_char_size, "\0\0", last_char_size) == 0;
 
-    *size = is_terminated ? buffer_size : aligned_size + char_size;
+    *size = is_terminated ? aligned_size : aligned_size + char_size;
     char* string = (char*) calloc(*size, sizeof(char));
     memcpy(string, buffer, buffer_size);
 
-- 
2.43.0


From b7e23cb791d8a372eeb92dabb00413fd4a46afdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:18 +0000
Subject: [PATCH 34/40] fix: empty UTF-16 strings without BOM are terminated by
 two bytes

---
 src/modules/utils.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/utils.c b/src/modules/utils.c
index ae61937..60800f9 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -164,7 +164,12 @@ bool string_has_bom(const char* string)
 static int char_size_in_buffer(const char* buffer, const int buffer_size, const char encoding)
 {
     const bool has_bom = buffer_size >= BOM_LENGTH && string_has_bom(buffer);
-    return has_bom || encoding == ID3v2_ENCODING_UTF16BE ? 2 : 1;
+    if (has_bom || encoding == ID3v2_ENCODING_UTF16BE) return 2;
+
+    // An empty UTF-16 string may go without BOM
+    const bool is_empty =
+        buffer_size == 0 || (buffer_size >= 2 && memcmp(buffer, "\0\0", 2) == 0);
+    return encoding == ID3v2_ENCODING_UNICODE && is_empty ? 2 : 1;
 }
 
 /**
-- 
2.43.0


From e7cf439356dc73784962002ef7dd5ec9d34a5d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:18 +0000
Subject: [PATCH 35/40] fix: an extended header doesn't reach beyond the tag

---
 src/modules/tag_header.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index fb8166e..667c831 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -70,7 +70,7 @@ ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
 
     int extended_header_size = 0;
 
-    if ((flags & (1 << 6)) == (1 << 6))
+    if ((flags & (1 << 6)) == (1 << 6) && tag_size >= ID3v2_EXTENDED_HEADER_SIZE_LENGTH)
     {
         // An extended header exists, retrieve its size
         char raw_eh_size[ID3v2_EXTENDED_HEADER_SIZE_LENGTH] = { 0 };
-- 
2.43.0


From 9622fd536d2689a76911a1cd364cc45020cae7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 36/40] fix: compat album covers from directories or files that
 can't be read

The size of a directory or of a file that can't be sought was taken for
the size of the picture: malloc and memcpy of a negative size.
---
 src/id3v2lib.compat.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index fb7b6ca..5fc048d 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -7,6 +7,8 @@
  * file that was distributed with this source code.
  */
 
+#include <limits.h>
+#include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -458,15 +460,30 @@ void tag_set_album_cover(const char* filename, ID3v2_tag* tag)
 
     if (album_cover == NULL) return;
 
-    fseek(album_cover, 0, SEEK_END);
-    image_size = (int) ftell(album_cover);
-    fseek(album_cover, 0, SEEK_SET);
+    const bool is_seekable = fseek(album_cover, 0, SEEK_END) == 0;
+    const long file_size = ftell(album_cover);
 
+    if (!is_seekable || file_size < 0 || file_size > INT_MAX ||
+        fseek(album_cover, 0, SEEK_SET) != 0)
+    {
+        fclose(album_cover);
+        return;
+    }
+
+    image_size = (int) file_size;
     album_cover_bytes = (char*) malloc(image_size * sizeof(char));
-    fread(album_cover_bytes, sizeof(char), image_size, album_cover);
+    const bool is_complete =
+        fread(album_cover_bytes, sizeof(char), image_size, album_cover) == (size_t) image_size;
 
     fclose(album_cover);
 
+    if (!is_complete)
+    {
+        // There's no cover to set
+        free(album_cover_bytes);
+        return;
+    }
+
     const char* extension = strrchr(filename, '.');
     mimetype = extension != NULL && strcmp(extension + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG
                                                                       : ID3v2_MIME_TYPE_JPG;
-- 
2.43.0


From c7138b836e38cf5aab8f74fdc928aefebb89c288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:44 +0000
Subject: [PATCH 37/40] fix: list the frames with an id in linear time

The whole list of matches was walked to append each of them.
---
 src/modules/frame_list.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/frame_list.c b/src/modules/frame_list.c
index 530b4c0..84cb01d 100644
--- a/src/modules/frame_list.c
+++ b/src/modules/frame_list.c
@@ -78,12 +78,14 @@ ID3v2_Frame* FrameList_get_frame_by_id(ID3v2_FrameList* list, const char* frame_
 ID3v2_FrameList* FrameList_get_frames_by_id(ID3v2_FrameList* list, const char* frame_id)
 {
     ID3v2_FrameList* sublist = FrameList_new();
+    ID3v2_FrameList* last = sublist;
 
     while (list != NULL && list->frame != NULL)
     {
         if (strncmp(list->frame->header->id, frame_id, 4) == 0)
         {
-            FrameList_add_frame(sublist, list->frame);
+            FrameList_add_frame(last, list->frame);
+            if (last->next != NULL) last = last->next; // don't walk the whole list for each frame
         }
 
         list = list->next;
-- 
2.43.0


From d6a2bffa76797970e53faeb64051dce2e0016122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:02 +0000
Subject: [PATCH 38/40] fix: don't save a tag too big for its size field

---
 include/modules/tag_header.h |  1 +
 src/id3v2lib.c               |  9 +++++++++
 src/modules/tag.c            | 10 +++++++---
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/modules/tag_header.h b/include/modules/tag_header.h
index d908fd4..aa99dc8 100644
--- a/include/modules/tag_header.h
+++ b/include/modules/tag_header.h
@@ -16,6 +16,7 @@
 #define ID3v2_TAG_HEADER_MINOR_VERSION_LENGTH 1
 #define ID3v2_TAG_HEADER_FLAGS_LENGTH 1
 #define ID3v2_TAG_HEADER_TAG_SIZE_LENGTH 4
+#define ID3v2_TAG_HEADER_MAX_TAG_SIZE 0x0FFFFFFF // 28 bits, it's a syncsafe integer
 #define ID3v2_EXTENDED_HEADER_SIZE_LENGTH 4
 #define ID3v2_TAG_HEADER_EXTENDED_HEADER_FLAG 0x40
 #define ID3v2_TAG_HEADER_FOOTER_FLAG 0x10
diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index 05e8dad..c9db0da 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -150,6 +150,15 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
     tag->padding_size += extra_padding_length;
     CharStream* tag_cs = Tag_to_char_stream(tag);
 
+    if (tag_cs == NULL)
+    {
+        // The tag is too big for a file, leave everything as it was
+        tag->padding_size -= extra_padding_length;
+        fclose(temp_fp);
+        fclose(dest_fp);
+        return;
+    }
+
     // First write the tag to the temp file
     fwrite(tag_cs->stream, sizeof(char), tag_cs->size, temp_fp);
 
diff --git a/src/modules/tag.c b/src/modules/tag.c
index 5c41a8c..2bee034 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -77,9 +77,9 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
 /**
  * Bytes needed to store the frames and the padding of the tag
  */
-static unsigned int Tag_content_size(ID3v2_Tag* tag)
+static unsigned long long Tag_content_size(ID3v2_Tag* tag)
 {
-    unsigned int size = tag->padding_size;
+    unsigned long long size = tag->padding_size;
     ID3v2_FrameList* frames = tag->frames;
 
     while (frames != NULL && frames->frame != NULL)
@@ -95,7 +95,11 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
 {
     // The size read from a file may count things that aren't written back (an extended header,
     // broken frames) and doesn't count what has been added (padding, terminators)
-    tag->header->tag_size = Tag_content_size(tag);
+    const unsigned long long tag_size = Tag_content_size(tag);
+
+    if (tag_size > ID3v2_TAG_HEADER_MAX_TAG_SIZE) return NULL; // there's no way to store it
+
+    tag->header->tag_size = tag_size;
 
     CharStream* tag_cs = CharStream_new(tag->header->tag_size + ID3v2_TAG_HEADER_LENGTH);
 
-- 
2.43.0


From 7433e3e0543fc43632cb06515ef4f29952c6b919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:08 +0000
Subject: [PATCH 39/40] fix: don't measure the string again for each character
 to convert

---
 src/modules/utils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modules/utils.c b/src/modules/utils.c
index 60800f9..3814e4c 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -26,15 +26,16 @@ char* ID3v2_to_unicode(char* string)
         return string;
     }
 
+    const int length = strlen(string);
     const int str_termination_size = 2;
-    const int result_size = (strlen(string) * 2) + BOM_LENGTH + str_termination_size;
+    const int result_size = (length * 2) + BOM_LENGTH + str_termination_size;
     char* result = (char*) malloc(result_size * sizeof(char));
 
     // Add BOM
     result[0] = 0xFF;
     result[1] = 0xFE;
 
-    for (int i = 1; i <= strlen(string); i++)
+    for (int i = 1; i <= length; i++)
     {
         result[i * 2] = string[i - 1];
         result[(i * 2) + 1] = 0x00;
-- 
2.43.0


From 95547b8840c63e1ea8c0996ba736d48199cdb3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:32 +0000
Subject: [PATCH 40/40] fix: don't take a tag for a missing one when there's no
 memory to read its header

Saving prepended a second tag and left the old one in the audio.
---
 src/id3v2lib.c                   | 4 ++++
 src/modules/tag_header.c         | 8 ++++++++
 src/modules/tag_header.private.h | 3 +++
 3 files changed, 15 insertions(+)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index c9db0da..03c74d7 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -109,6 +109,10 @@ static int get_tag_length(FILE* fp)
     if (bytes_read < ID3v2_TAG_HEADER_LENGTH) return 0;
 
     ID3v2_TagHeader* tag_header = ID3v2_read_tag_header_from_buffer(tag_header_buffer);
+
+    // Don't take a tag that there's no memory to look at for a missing one
+    if (tag_header == NULL && TagHeader_is_supported(tag_header_buffer)) return -1;
+
     int length = tag_header != NULL ? tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH : 0;
 
     // In v2.4, there may be a footer as long as the header that isn't included in the tag size
diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index 667c831..3e7fe19 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -45,6 +45,14 @@ ID3v2_TagHeader* TagHeader_new_empty()
     return TagHeader_new(3, 0, 0, 0, 0);
 }
 
+bool TagHeader_is_supported(const char* buffer)
+{
+    const char major_version = buffer[ID3v2_TAG_HEADER_IDENTIFIER_LENGTH];
+
+    return memcmp(buffer, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH) == 0 &&
+           (major_version == 3 || major_version == 4);
+}
+
 ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
 {
     bool has_id3v2_tag = memcmp(header_cs->stream, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH) == 0;
diff --git a/src/modules/tag_header.private.h b/src/modules/tag_header.private.h
index 011e39c..69fd28b 100644
--- a/src/modules/tag_header.private.h
+++ b/src/modules/tag_header.private.h
@@ -10,6 +10,8 @@
 #ifndef id3v2lib_tag_header_private_h
 #define id3v2lib_tag_header_private_h
 
+#include <stdbool.h>
+
 #include "modules/tag_header.h"
 
 typedef struct _CharStream CharStream;
@@ -22,6 +24,7 @@ ID3v2_TagHeader* TagHeader_new(
     const int extended_header_size
 );
 ID3v2_TagHeader* TagHeader_new_empty();
+bool TagHeader_is_supported(const char* buffer);
 ID3v2_TagHeader* TagHeader_parse(CharStream* stream);
 
 #endif
-- 
2.43.0


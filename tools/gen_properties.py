#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
ONE = "The only test that runs reads a missing and an empty file and expects no tag; "
prop("C01", "Reading any bytes is memory-safe",
 "For every byte sequence of any length, including truncated, corrupted and deliberately hostile tags, reading it as a tag, as a tag header or through the compatibility loader, from a file or from a buffer, and then walking, editing, saving and freeing the result never touches memory outside live objects, never depends on uninitialised memory or undefined behaviour, and never aborts or hangs the process. Each read returns either NULL or a tag whose every field is initialised and whose every string and size pair lies inside its own allocation and whose padding lies inside the bytes that were read.",
 ["inputs", "histories"], "all byte sequences as file or buffer contents (any length from 0 up), followed by any sequence of public API calls on the result",
 ONE + "no test parses a single tag, let alone a malformed one.",
 ["src/id3v2lib.c", "src/modules/tag.c", "src/modules/tag_header.c", "src/modules/frame.c", "src/modules/frame_header.c", "src/modules/frames/*.c", "src/modules/char_stream.c", "src/modules/utils.c", "src/id3v2lib.compat.c"],
 [("declared sizes are validated against the bytes present", "src/modules/frame_header.c FrameHeader_parse, src/modules/tag.c Tag_parse"), ("bounded string copies", "src/modules/frames/*_frame.c *_parse, src/modules/utils.c")],
 ["ID3v2_read_tag, ID3v2_read_tag_from_buffer, ID3v2_read_tag_header(_from_buffer), load_tag, load_tag_with_buffer and everything reachable from their results"])
prop("C02", "Saving a tag never changes the audio",
 "After a tag is saved to an existing file, the bytes that follow the tag in the file are exactly the bytes that followed the old tag (or the whole old content when the file had no supported tag), for every audio content and length, every old tag and every new tag, larger or smaller. No byte of audio is lost, added, reordered or altered.",
 ["inputs", "histories"], "all file contents (with or without a v2.3/v2.4 tag, with or without a v2.4 footer, any audio bytes) and all tags built or edited through the API",
 ONE + "no running test saves a tag.",
 ["src/id3v2lib.c"], [("copy of everything after the old tag through a temporary file", "src/id3v2lib.c ID3v2_write_tag")],
 ["file bytes before and after ID3v2_write_tag / set_tag"])
prop("C03", "What is saved is what is read back",
 "For every tag built through the API, in version 2.3 or 2.4, saving it to a file and reading that file back yields a tag with the same version and the same frames in the same order, each with the same id, flags, encoding and content: text, comment language, description and text, and picture MIME type, picture type, description and bytes. This holds whatever the sizes of the frames, the number of frames and the bytes they contain.",
 ["inputs", "histories"], "all sequences of set/add/delete calls with any strings (ISO or UTF-16 with BOM) and any picture data, on new and on loaded tags of both versions, total below the 256 MB limit of the format",
 ONE + "the one test that would save and reload needs a fixture that is missing and samples a single tag.",
 ["src/modules/tag.c", "src/modules/frame.c", "src/modules/frame_header.c", "src/modules/frames/*.c", "src/modules/utils.c", "src/id3v2lib.c"],
 [("serialisers and parsers are inverses", "Tag_to_char_stream / Tag_parse, Frame_to_char_stream / Frame_parse"), ("frame sizes are syncsafe in v2.4 and plain in v2.3", "src/modules/tag.c, src/modules/frame_header.c")],
 ["ID3v2_write_tag followed by ID3v2_read_tag"])
prop("C04", "Frames the caller does not touch survive an edit",
 "Loading a conforming file written by any software, editing some frames and saving it leaves every other frame in the saved file with the same id, flags, relative order and content, including frame types the library knows nothing about, user-defined and multi-valued text frames, repeated frames and text in any of the four ID3v2 encodings. The only permitted difference is that a text or comment that was not terminated may gain a string terminator.",
 ["inputs", "histories"], "all conforming v2.3/v2.4 tags without unsynchronisation and without compressed/encrypted frames, and all edit sequences",
 ONE + "the sample file of the other tests, where it exists, holds only well-known, terminated frames.",
 ["src/modules/frame.c", "src/modules/frame_header.c", "src/modules/frames/*.c", "src/modules/tag.c"],
 [("unknown frames are kept as raw bytes", "src/modules/frame.c Frame_parse/Frame_to_char_stream"), ("encoding byte and whole content are kept", "src/modules/frames/*_frame.c *_parse")],
 ["bytes of the saved file, decoded by an independent decoder"])
prop("C05", "Saved files are well-formed ID3v2",
 "Every file the library saves starts with a tag that an independent, strict ID3v2 reader accepts: the identifier, the tag's own version and revision, a syncsafe size equal to the exact number of bytes up to the audio, no flag announcing unsynchronisation, an extended header or a footer that is not there, complete frames one after the other whose sizes are encoded as that version requires, and then nothing but zero padding. At least 2048 bytes of padding are present. A tag too large for the 28-bit size field is not saved at all and the file stays as it was.",
 ["inputs", "histories"], "all tags built or edited through the API, on top of all conforming files",
 ONE + "the library reading its own output cannot show that other software can; the tests never look at the bytes.",
 ["src/modules/tag.c", "src/modules/frame_header.c", "src/modules/utils.c", "src/id3v2lib.c"],
 [("tag size derived from the frames and the padding", "src/modules/tag.c Tag_to_char_stream"), ("syncsafe encoding", "src/modules/utils.c syncint_encode"), ("default padding", "src/id3v2lib.c ID3v2_write_tag")],
 ["bytes of the saved file"])
prop("C06", "A tag in memory behaves as an ordered list of frames",
 "Under every sequence of edits, a tag behaves as an ordered list of frames: setting a frame replaces the first frame with that id in place or appends it if there is none, adding appends, deleting by id removes the first frame with that id, deleting a comment or picture by index removes exactly that occurrence, and deleting what is not there changes nothing. After each step every getter returns the first match or all matches in list order (no match: NULL or a list without frames), with exactly the content last set, and no other frame is affected.",
 ["histories", "inputs"], "all sequences of set, add, delete and get calls, on new, loaded and emptied tags, with any valid ids, indexes and contents",
 ONE + "no running test edits a tag.",
 ["src/modules/tag.c", "src/modules/frame_list.c", "include/modules/tag.h"],
 [("linked list of frames", "src/modules/frame_list.c"), ("setters and deleters", "src/modules/tag.c")],
 ["every ID3v2_Tag_* function and the public frame list of the tag"])
prop("C07", "Conforming tags are decoded faithfully",
 "For every conforming ID3v2.3 or v2.4 tag, the library exposes exactly the frames that are encoded in it, in order: the id, flags, encoding, text, comment language, description and text, MIME type, picture type, description and picture of each, and the raw bytes of frames it does not interpret, plus the header's version, flags and size and the amount of padding. This holds for terminated and unterminated text, for every encoding, with or without an extended header or padding, for frames of any size, and from files that may only be read.",
 ["inputs"], "all conforming v2.3/v2.4 tags without unsynchronisation and without compressed/encrypted frames, up to tens of megabytes",
 ONE + "no running test decodes a frame.",
 ["src/modules/tag.c", "src/modules/tag_header.c", "src/modules/frame_header.c", "src/modules/frames/*.c", "src/modules/utils.c"],
 [("parsers", "Tag_parse, TagHeader_parse, FrameHeader_parse, TextFrame_parse, CommentFrame_parse, ApicFrame_parse"), ("integer decoding", "src/modules/utils.c btoi, syncint_decode")],
 ["ID3v2_read_tag, ID3v2_read_tag_from_buffer, ID3v2_read_tag_header and the getters"])
prop("C08", "Files without a supported tag are recognised and left alone",
 "Reading a missing or unreadable path, a file or buffer shorter than a tag header, or data that does not begin with an ID3v2.3 or v2.4 header yields NULL from every reader; the getters find nothing in that NULL, saving it changes no file, and deleting the tag of such a file leaves it byte-identical. A path that does not exist is never created by any operation, and reading, successfully or not, never modifies the file.",
 ["inputs"], "all paths and all file contents without a supported tag at the start, and all files for the read-only part",
 ONE + "they never reach the identifier or version checks and never compare file contents.",
 ["src/id3v2lib.c", "src/modules/tag_header.c", "src/id3v2lib.compat.c"],
 [("identifier, version and length checks", "src/modules/tag_header.c TagHeader_parse, src/id3v2lib.c")],
 ["return values of the readers; directory and file contents before and after"])
prop("C09", "Deleting a tag removes exactly the tag",
 "After the tag of a file is deleted, the file consists of exactly the bytes that followed the tag, with header, extended header, frames, padding and v2.4 footer gone, for every tag and every audio content including none at all. Deleting again, when what remains does not itself begin with a tag, changes nothing.",
 ["inputs"], "all files that begin with a v2.3/v2.4 tag (any declared size, also beyond the end of the file) followed by any bytes",
 ONE + "no running test deletes a tag.",
 ["src/id3v2lib.c"], [("skip the tag and copy the rest through a temporary file", "src/id3v2lib.c ID3v2_delete_tag")],
 ["file bytes before and after ID3v2_delete_tag / remove_tag"])
prop("C10", "Every resource is released",
 "For every sequence of library calls in which the caller frees what the API hands over (tags, headers, unlinked lists, compatibility objects), all memory allocated by the library is released exactly once and every file the library opened is closed. This includes replaced and deleted frames, frames of unknown type, rejected input and failed file operations.",
 ["histories", "inputs", "fault_sequences"], "all call histories ending in the matching free calls, on valid, hostile and missing inputs",
 ONE + "leaks and double frees are invisible to assertions on results.",
 ["src/modules/frame.c", "src/modules/frame_list.c", "src/modules/tag.c", "src/id3v2lib.c", "src/id3v2lib.compat.c"],
 [("free functions per type", "ID3v2_Frame_free, ID3v2_FrameList_free, ID3v2_FrameList_unlink, ID3v2_Tag_free, free_tag, free_frame")],
 ["allocator events between the first call and the last free; open file descriptors"])
prop("C11", "Tags own their data",
 "Everything given to a reader or setter is copied: the caller may overwrite or free its buffers, strings and pictures, and delete the file, right after the call without any effect on the tag, and the input may point into the tag itself. Tags are independent of each other, getters do not change the tag, and releasing a list of matches with unlink leaves the tag and its frames intact and usable.",
 ["histories"], "all interleavings of API calls with the caller overwriting and freeing its inputs and with calls on other tags",
 ONE + "no running test sets or frees anything; a stale alias shows only when the caller reuses its memory.",
 ["src/modules/tag.c", "src/modules/frames/*.c", "src/modules/frame_list.c", "src/modules/char_stream.c"],
 [("deep copies in the constructors", "TextFrameData_new, CommentFrameData_new, ApicFrameData_new, CharStream_from_buffer"), ("sublists hold their own nodes", "FrameList_get_frames_by_id, ID3v2_FrameList_unlink")],
 ["content of the tag before and after the caller destroys its inputs"])
prop("C12", "A save or delete that fails leaves the file as it was",
 "If saving or deleting a tag cannot be completed because opening, reading, seeking or writing a file fails, including the temporary file, the call returns normally without crashing and the file still holds its complete old content; it never ends up with audio missing, with a partial tag, or with the old tag left in front of the audio under the new one. If every operation succeeds the file holds the complete new content.",
 ["fault_sequences", "inputs"], "a failure of any single file-system operation (open, read, seek, write, stat, close) made by a save or delete call, for all files and tags",
 ONE + "no test injects a failure.",
 ["src/id3v2lib.c"], [("the new content is completed in a temporary file before the destination is truncated", "src/id3v2lib.c ID3v2_write_tag, ID3v2_delete_tag")],
 ["file bytes after each faulted call"])
prop("C13", "Repeated saves are stable",
 "Saving the same tag again to the same file, any number of times, or reading the file back and saving what was read without edits, leaves the file byte-identical to the first save; the tag does not grow, padding is not accumulated and frames are not rewritten differently. A failed or successful save does not change the frames of the tag in memory.",
 ["histories", "inputs"], "all tags and files, all numbers of repetitions of save and of load-save cycles",
 ONE + "no running test saves even once.",
 ["src/id3v2lib.c", "src/modules/tag.c"], [("padding is topped up to the default instead of added", "src/id3v2lib.c ID3v2_write_tag"), ("canonical serialisation", "src/modules/tag.c Tag_to_char_stream")],
 ["file bytes after each cycle; the tag in memory before and after"])
prop("C14", "Buffer and file readers agree",
 "Reading a tag from a file and from a buffer holding the same bytes gives equal results, whether the buffer ends with the tag or continues with audio or any other bytes, which are never taken for frames or padding. The header-only readers report the same version, flags and tag size as the full readers on the same data.",
 ["inputs"], "all byte sequences, valid or not, with any amount of trailing data",
 ONE + "the buffer readers are not called by any test.",
 ["src/id3v2lib.c", "src/modules/tag.c", "src/modules/tag_header.c"],
 [("one parser behind both", "src/id3v2lib.c ID3v2_read_tag calls ID3v2_read_tag_from_buffer"), ("the tag size bounds the parser", "src/modules/tag.c Tag_parse")],
 ["results of the four readers on the same bytes"])
prop("C15", "Sizes kept in memory match the content",
 "At every step of every edit history of a tag that was created empty or loaded from a file the library saved, each frame's declared size equals the number of bytes its content occupies in a file, and the tag's declared size equals the sum of all frames with their 10-byte headers plus the padding it reports. After a save the tag's declared size and padding are those written to the file.",
 ["histories"], "all sequences of set, add, delete, delete-by-index, save and reload",
 ONE + "no running test edits a tag or looks at a size.",
 ["src/modules/tag.c", "src/modules/frames/*.c", "src/id3v2lib.c"],
 [("size bookkeeping in setters and deleters", "src/modules/tag.c"), ("frame sizes computed by the constructors", "TextFrame_new, CommentFrame_new, ApicFrame_new")],
 ["tag->header->tag_size, tag->padding_size, frame->header->size after every call"])
prop("C16", "The compatibility layer mirrors the core API",
 "The old API gives the same results as the new one: loading exposes the same frames with the same bytes (NULL where there is no tag), its getters return the first frame of each kind and parsing them yields the stored text, comment or picture, its setters work on new, empty and loaded tags and are visible at once through its getters and in the saved file, and saving and removing have the same effect on the file. Parsing an absent frame yields NULL.",
 ["histories", "inputs"], "all conforming files and all sequences of compatibility calls",
 ONE + "the compatibility test needs a missing fixture.",
 ["src/id3v2lib.compat.c", "include/id3v2lib.compat.h"],
 [("mirrored frame list", "src/id3v2lib.compat.c frame_to_compat_frame, add_to_list, add_uniq_to_list")],
 ["every function of id3v2lib.compat.h compared with the core API on the same data"])
prop("C17", "Independent uses do not interfere across threads",
 "Threads that work on different tags and different files, and threads that only read the same tag or the same file, run without data races and obtain exactly the results they would obtain alone, under every schedule.",
 ["schedules", "histories"], "all interleavings of API calls by any number of threads without a shared tag or file being modified",
 ONE + "every test is single-threaded.",
 ["src/id3v2lib.c", "src/modules/*.c", "src/modules/frames/*.c", "src/id3v2lib.compat.c"],
 [("no shared mutable state in the library", "all modules"), ("anonymous temporary files", "src/id3v2lib.c")],
 ["race reports; per-thread results compared with a single-threaded run"])
prop("C18", "String helpers agree with the encodings",
 "For every NUL-terminated ISO-8859-1 string without a BOM, the conversion to Unicode yields the BOM FF FE, each character as one UTF-16LE unit in order, and a two-byte terminator, in fresh memory; a string that already starts with a BOM is returned unchanged. The length helpers return the exact byte length of ISO strings and of either-endian UTF-16 strings with a BOM, without and with the terminator, and read nothing beyond it.",
 ["inputs"], "all strings of any length over all byte values, in exactly sized allocations",
 ONE + "the helpers are not called by it.",
 ["src/modules/utils.c", "include/modules/utils.h"],
 [("BOM detection and pairwise scan", "src/modules/utils.c string_has_bom, ID3v2_strlen, ID3v2_strlent, ID3v2_to_unicode")],
 ["ID3v2_to_unicode, ID3v2_strlen, ID3v2_strlent"])
prop("C19", "Costs are bounded by the input really present",
 "The memory the library allocates and the work it does in each call while reading a file or buffer, listing the frames of a kind, editing, saving, deleting, freeing what was read, and measuring or converting strings grow at most linearly with the number of bytes actually present, whatever sizes the data declares and however many frames it holds. A few bytes cannot make it reserve hundreds of megabytes, and a tag made of many tiny frames cannot make it quadratic.",
 ["inputs"], "all byte sequences, edits and strings; measured as bytes requested from the allocator and basic blocks executed (with the bytes that C library functions handle for the library), not wall-clock time",
 ONE + "they do not observe memory or work at all.",
 ["src/id3v2lib.c", "src/modules/tag.c", "src/modules/frame_list.c", "src/id3v2lib.compat.c"],
 [("buffers sized by the bytes present", "src/id3v2lib.c ID3v2_read_tag"), ("frames appended at the end of the list in constant time while parsing", "src/modules/tag.c Tag_parse")],
 ["allocator events and executed-block counter during each call"])
prop("C20", "Only the named file is touched",
 "Reading changes nothing in the file system, and saving or deleting a tag changes nothing but the content of the named file: whether the call succeeds or fails, no other file is created, left behind, modified or removed, and the file keeps its permissions, owner, hard links and the symbolic links that lead to it. The operation takes effect however the file is named: by an absolute or relative path, through links, or with unusual characters.",
 ["inputs", "fault_sequences"], "all directory contents around the file, all ways to name it, all operations, with or without a failing file-system operation",
 ONE + "it never looks at a directory.",
 ["src/id3v2lib.c", "src/id3v2lib.compat.c"],
 [("anonymous temporary file", "src/id3v2lib.c ID3v2_write_tag, ID3v2_delete_tag: tmpfile"), ("the content is copied back into the file itself", "src/id3v2lib.c ID3v2_write_tag, ID3v2_delete_tag")],
 ["directory tree before and after each call; names passed to creating system calls"])
prop("C21", "The library leaves its host process alone",
 "Whatever is called, with whatever input and outcome, the library prints nothing, never ends the process and starts no other process or thread, and when the call returns the working directory, file mode mask, user, locale, environment, signal handling, timers, limits, the caller's rand and strtok sequences, standard input and the files the caller has open are as they were.",
 ["inputs", "fault_sequences"], "all call histories on conforming, hostile and missing data, with or without a failing file-system operation; malloc succeeds",
 ONE + "it looks at no process state.",
 ["src/id3v2lib.c", "src/id3v2lib.compat.c", "src/modules/tag.c", "src/modules/utils.c"],
 [("messages and exit only where an allocation fails", "src/id3v2lib.c ID3v2_read_tag; src/modules/tag.c"), ("temporary files come from the C library", "src/id3v2lib.c ID3v2_write_tag, ID3v2_delete_tag: tmpfile")],
 ["process state and standard streams before and after each history"])
prop("C22", "What a tag hands out stays valid",
 "A frame obtained from a tag, with its strings and picture bytes, stays where it is and keeps its content across every later call, whether other frames are set, added, replaced or deleted, the tag is saved, or other tags are read, edited or freed, until that very frame is replaced or deleted or its tag is freed. A list of matches keeps its entries, and does not grow or shrink, until it is released with unlink, which works at any time, even after frames in it or the whole tag are gone. The same holds for the frames and parsed comments and pictures of the compatibility layer; a parsed text is the caller's own and outlives the tag.",
 ["histories"], "all interleavings of getters, edits, saves and releases, on new and loaded tags of both interfaces",
 ONE + "it holds nothing across an edit.",
 ["src/modules/tag.c", "src/modules/frame_list.c", "src/id3v2lib.compat.c"],
 [("nodes are relinked, frames are never moved", "src/modules/frame_list.c FrameList_remove_frame, FrameList_replace_frame"), ("lists of matches have nodes of their own", "src/modules/frame_list.c FrameList_get_frames_by_id, ID3v2_FrameList_unlink"), ("parsed text is copied", "src/id3v2lib.compat.c parse_text_frame_content")],
 ["held pointers read again, under ASan, after every later call"])
prop("C23", "Outcomes depend only on the arguments and the files",
 "What a call returns, what it makes of a tag and what it leaves in a file are determined by its arguments, the objects they refer to and the files they name. They do not depend on what the process did before (earlier calls on other tags or files, a left-over errno, what memory contained), nor on the process's surroundings (locale, environment variables, file mode mask, working directory, which descriptors are open, closed standard streams, the time, the process and user ids), nor on where the input bytes lie in memory or the thread and size of stack the call is made on.",
 ["histories", "configurations"], "all call histories, each in any two states of the process; absolute paths; a stack of a megabyte",
 ONE + "it runs once in one process.",
 ["src/id3v2lib.c", "src/id3v2lib.compat.c", "src/modules/tag.c", "src/modules/utils.c"],
 [("no file-scope variables and no caches", "src/id3v2lib.c, src/modules"), ("failures are recognised by results, not by errno", "src/id3v2lib.c ID3v2_read_tag, ID3v2_write_tag"), ("ids and file names are compared as bytes, not by locale", "src/modules/frame_header.c, src/modules/utils.c")],
 ["results of a history run twice in different states of the process"])
prop("C24", "Every build behaves the same",
 "The sources mean the same however they are compiled: with gcc or clang, with any optimisation, with assertions compiled in or out, where char is signed and where it is unsigned, a call has the same results and leaves the same bytes in files.",
 ["histories", "configurations"], "all call histories on conforming, hostile and missing data; gcc and clang for 64-bit Linux, C99 and later, -O0 to -O3, signed and unsigned char, with and without NDEBUG",
 ONE + "it is built once, in one way.",
 ["src/modules/utils.c", "src/modules/char_stream.c", "src/id3v2lib.c", "src/modules"],
 [("bytes are masked before they are combined", "src/modules/utils.c btoi, syncint_decode"), ("byte order marks are recognised as bytes", "src/modules/utils.c has_bom"), ("no side effects in assertions", "src")],
 ["results of a history run with differently built libraries"])
prop("C25", "Running out of memory never damages a file or passes off a partial result",
 "When memory cannot be allocated at some point of a call, once or from there on, the call may end the process or return; either way a file that was to be saved or to lose its tag has exactly its old content or exactly the complete new one, and no other file is left. A call that returns gives the whole result or none: a tag or list that is returned has every frame with its content, and an edited tag is as before the call or as it should be after it.",
 ["inputs", "fault_sequences"], "all saves, deletions, readings, edits and listings of both interfaces, with any one allocation of the library failing, alone or with all later ones; allocations inside the C library are not failed",
 ONE + "memory never runs out during it.",
 ["src/id3v2lib.c", "src/id3v2lib.compat.c", "src/modules/tag.c", "src/modules/char_stream.c", "src/modules/frame_list.c"],
 [("a tag that there is no memory to look at is not taken for a missing one", "src/id3v2lib.c get_tag_length"), ("the tag is encoded before the file is truncated", "src/id3v2lib.c ID3v2_write_tag"), ("frames are not skipped when there is no memory for them", "src/modules/tag.c Tag_to_char_stream, Tag_parse")],
 ["file after each call with a failing allocation", "results of calls that returned although an allocation failed"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")

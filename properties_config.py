"""Workloads, monitors and amounts per property."""

ASSUMPTIONS = [
    "the sanitizers and the harness observe executions only: nothing is claimed about inputs not run",
    "little-endian 64-bit Linux, clang 18, -O1",
    "malloc succeeds",
]


def job(mode, cases, variant="asan", **kw):
    return dict(mode=mode, cases=cases, variant=variant, **kw)


NO_UNSYNC = "tags use neither unsynchronisation nor compressed, encrypted or grouped frames"
NO_BOM_ISO = "ISO-8859-1 text does not begin with the bytes of a byte order mark"

CONFIG = {
    "C01": dict(
        level="exploration",
        jobs=[job("C01", 150000), job("C01", 40000, "msan"),
              # the histories of other properties, for the sanitizers' reports only
              job("C03", 1500, strict=False), job("C06", 2000, strict=False), job("C16", 1500, strict=False), job("C18", 2000, strict=False),
              job("C03", 800, "msan", strict=False), job("C06", 800, "msan", strict=False), job("C11", 800, "msan", strict=False),
              job("C14", 1500, "msan", strict=False), job("C16", 800, "msan", strict=False), job("C18", 1500, "msan", strict=False)],
        fuzz_runs=1500000,
        required=["inputs_accepted_as_tags", "inputs_rejected", "hostile_frames_exposed", "edits", "truncations"],
        rule="case = bytes made by attacking a conforming tag (sizes, flags, ids, truncation, splices) or noise, read by every reader from an exact "
             "heap buffer and a file, walked, edited, saved, freed under ASan+UBSan and MSan; non-trivial: at least one reader took it for a tag; "
             "distinct by content",
    ),
    "C02": dict(
        level="exploration", jobs=[job("C02", 30000), job("C02B", 0, "plain", fixed=(1, 4))],
        required=["saves", "audio_bytes_compared"],
        rule="case = generated file (no tag, proper tag, broken tag, footer, declared size too large) with generated audio, and a tag built or loaded and "
             "edited; the bytes after the saved tag, found by an independent decoder, are compared; distinct by file, tag and edits",
        assumptions=["the size field of the old tag is syncsafe"],
    ),
    "C03": dict(
        level="exploration", jobs=[job("C03", 30000)],
        required=["saves", "frames_compared", "getter_results_compared", "tags_v23", "tags_v24"],
        rule="case = random history of API calls on a new or loaded tag, saved and read back, compared frame by frame with a reference list; distinct by history",
        assumptions=[NO_BOM_ISO],
    ),
    "C04": dict(
        level="exploration", jobs=[job("C04", 60000)],
        required=["saves", "kept_unknown", "kept_text", "kept_comments", "kept_pictures"],
        rule="case = conforming file by an independent encoder, loaded, edited, saved; the untouched frames in the saved bytes, by an independent decoder, "
             "are compared with the encoder's record; distinct by file and edits",
        assumptions=[NO_UNSYNC, NO_BOM_ISO],
    ),
    "C05": dict(
        level="exploration", jobs=[job("C05", 30000)],
        evaluations=["saves"],
        required=["saves", "tags_decoded", "frames_decoded", "oversized_tags"],
        rule="case = a tag with random edits saved on top of a generated file; the saved bytes go through a strict independent decoder; distinct by file, tag and edits",
        assumptions=[NO_UNSYNC],
    ),
    "C06": dict(
        level="exploration", jobs=[job("C06", 40000)],
        required=["steps_compared", "getter_results_compared", "empty_list_states", "emptied_tags"],
        rule="case = random history of set, add, delete and get calls; the whole tag is compared with a reference list after every call; distinct by history",
    ),
    "C07": dict(
        level="exploration", jobs=[job("C07", 60000), job("C07R", 4000)],
        required=["frames_compared", "text_frames", "comment_frames", "picture_frames", "unknown_frames", "with_footer", "with_extended_header", "files_decoded", "read_only_files", "short_reads"],
        rule="case = conforming tag by an independent encoder, read from buffer or file (also one that cannot be opened for writing and arrives in pieces); everything exposed is compared with the encoder's record; distinct by content",
        assumptions=[NO_UNSYNC, NO_BOM_ISO],
    ),
    "C08": dict(
        level="exploration", jobs=[job("C08", 100000), job("C08F", 4000)],
        required=["null_results", "untagged_contents", "files_compared_after_reading", "unreadable_paths", "locked_files", "opens_refused"],
        rule="case = content without a supported tag, missing or unreadable path, tagged file that cannot be opened, or any file for the read-only part; results, file bytes and directory "
             "content are compared; distinct by content",
    ),
    "C09": dict(
        level="exploration", jobs=[job("C09", 60000), job("C09B", 0, "plain", fixed=(1, 4))],
        required=["tags_deleted", "deleted_twice", "audio_bytes_compared", "with_footer", "without_audio"],
        rule="case = file with a proper, broken or too large declared tag and generated audio; after deletion the file is compared with the audio; distinct by content",
        assumptions=["the size field of the tag is syncsafe"],
    ),
    "C10": dict(
        level="exploration", jobs=[job("C10", 50000)],
        required=["allocations_tracked", "histories_edit", "histories_hostile", "histories_compat", "histories_no_tag", "histories_read_faults",
                  "histories_delete", "histories_delete_all", "histories_strings", "histories_covers", "histories_with_injected_fault"],
        rule="case = a call history with its matching free calls, run twice; every allocation is followed by the allocator's hooks, descriptors by /proc/self/fd; "
             "distinct by history",
    ),
    "C11": dict(
        level="exploration", jobs=[job("C11", 30000)],
        required=["snapshots_compared", "lists_unlinked", "inputs_inside_the_tag"],
        rule="case = several tags edited in turn with inputs that are overwritten and freed after each call or point into the tag; all tags are compared with "
             "their reference lists after each step; distinct by history",
    ),
    "C12": dict(
        level="fault_enumeration", jobs=[job("C12", 2400, chunk=100)],
        evaluations=["faults_injected"],
        required=["faults_injected", "old_content_kept", "new_content_complete", "saves_enumerated", "deletes_enumerated", "fault_open_file", "fault_read_file",
                  "fault_seek_file", "fault_stat_file", "fault_close_file", "short_transfers"],
        rule="case = a save or delete whose system calls are recorded, then repeated with each of them failing, once and from there on (of long runs of equal "
             "calls the first and last 25 and a sample); the file must be the old or the new content; distinct by file and fault",
        assumptions=["a fault is a failing system call; crashes of the process or machine are not injected"],
    ),
    "C13": dict(
        level="exploration", jobs=[job("C13", 30000)],
        required=["saves", "cycles"],
        rule="case = a tag saved repeatedly and through load-save cycles; files are compared byte by byte and the tag with its reference list; distinct by tag and file",
        assumptions=[NO_UNSYNC],
    ),
    "C14": dict(
        level="exploration", jobs=[job("C14", 80000)], fuzz_runs=1500000,
        required=["trailing_data_compared", "tags_compared", "frames_compared", "null_agreements"],
        rule="case = conforming or hostile bytes read by all readers, with and without trailing data; results are compared with each other; distinct by content",
    ),
    "C15": dict(
        level="exploration", jobs=[job("C15", 50000)],
        required=["size_checks", "saves", "sizes_compared_with_file"],
        rule="case = random edit, save and reload history; declared sizes are compared with sizes computed from the content after each step; distinct by history",
    ),
    "C16": dict(
        level="exploration", jobs=[job("C16", 16000), job("C16R", 2000)],
        required=["read_only_covers", "new", "loaded", "compat_contents_compared", "compat_edits"],
        rule="case = history of compatibility calls on a new or loaded tag; frames, getters, parsed contents and files are compared with the reference list and "
             "with the core API; distinct by history",
        assumptions=[NO_UNSYNC, NO_BOM_ISO],
    ),
    "C17": dict(
        level="exploration", jobs=[job("C17", 240, "tsan", chunk=15), job("C17", 400, chunk=25)],
        required=["threads_run", "results_compared_with_single_threaded"],
        rule="case = 2 to 8 threads on own tags and files and on shared ones they only read, released by a barrier; happens-before races by TSan, results compared "
             "with a single-threaded run; distinct by workload",
        assumptions=["schedules are those the kernel produced"],
    ),
    "C18": dict(
        level="exploration", jobs=[job("C18", 60000)],
        evaluations=["iso_strings", "utf16_strings"],
        required=["iso_strings", "utf16_strings"],
        rule="case = batch of strings in exactly sized allocations; results are compared with reference functions and reads watched by ASan; distinct by content",
    ),
    "C19": dict(
        level="exploration", jobs=[job("C19", 4000, "cost", chunk=100)],
        required=["reads_measured", "frames_read", "lists_measured", "saves_measured", "edits_measured", "old_edits_measured", "strings_measured"],
        rule="case = a few bytes with huge declared sizes, up to 30000 tiny frames, or hostile bytes; bytes requested from the allocator and basic blocks executed "
             "(with the work of the C library's functions) by each reader, list of matches, edit, parsed content, save, deletion, string helper and free, of both APIs, are compared with a linear bound in the bytes present; distinct by content",
    ),
    "C20": dict(
        level="exploration", jobs=[job("C20", 16000)],
        required=["saves", "deletions", "reads", "neighbours_compared", "effects_seen", "under_faults", "hard_links", "symbolic_links", "relative_paths"],
        rule="case = a directory tree with neighbours, links, modes and owners around a generated file, named in different ways, then one save, deletion or read, with "
             "or without a failing system call; the whole tree and all names created by system calls are compared before and after; distinct by file, name, "
             "operation and tag",
    ),
    "C21": dict(
        level="exploration", jobs=[job("C21", 24000)],
        required=["process_states_compared", "histories_edit", "histories_hostile", "histories_compat", "histories_no_tag", "histories_read_faults",
                  "histories_delete", "histories_delete_all", "histories_strings", "histories_covers", "histories_with_injected_fault"],
        rule="case = a call history of any kind, with or without a failing system call; output, working directory, masks, user, locale, environment, signals, timers, "
             "limits, threads, children, rand, strtok and open files of the caller are compared before and after; distinct by history",
    ),
    "C22": dict(
        level="exploration", jobs=[job("C22", 30000)],
        required=["handles_compared", "handles_given_up", "list_entries_compared", "lists_released_after_the_tag", "saves_while_frames_are_held", "old_api_handles_compared", "parsed_texts_compared"],
        rule="case = random history in which frames, lists of matches and parsed contents are held across edits, saves and releases; all that is held is read again, through "
             "the pointers obtained first, after every call; distinct by history",
    ),
    "C23": dict(
        level="exploration", jobs=[job("C23", 16000), job("C23", 16000, "fill")], locales=True,
        required=["outcomes_compared", "frames_in_outcomes", "file_bytes_in_outcomes", "after_other_calls", "with_stale_errno", "in_other_environments", "with_other_umasks",
                  "in_other_directories", "with_closed_streams", "with_many_descriptors", "misaligned_inputs", "with_other_memory_contents", "on_threads_with_small_stacks"],
        rule="case = a call history run twice, the second time in another state of the process (errno, locale, environment, umask, directory, standard streams, descriptors, "
             "contents of free memory, stack, alignment of inputs, earlier calls); all results and files are compared; distinct by history and state",
    ),
    "C24": dict(
        level="exploration", jobs=[job("C24", 16000, v, compared=True) for v in ("asan", "gcc-O0", "gcc-O3", "clang-uchar", "gcc-uchar")],
        builds=("C24", "asan", ("gcc-O0", "gcc-O3", "clang-uchar", "gcc-uchar")),
        required=["outcomes_compared", "outcomes_compared_between_builds", "frames_in_outcomes", "file_bytes_in_outcomes", "histories_edit", "histories_file", "histories_hostile",
                  "histories_compat", "histories_no_tag", "histories_strings"],
        rule="case = a call history run with the library built by two compilers, with and without optimisation, assertions and a signed char; all results and files are "
             "compared; distinct by outcome",
    ),
    "C25": dict(
        level="fault_enumeration", jobs=[job("C25", 9000, "oom", chunk=100)],
        evaluations=["allocations_failed"],
        required=["allocations_failed", "call_returned", "old_content_kept", "results_checked"],
        rule="case = a call (save, delete, read, edit, getter, of both interfaces) whose allocations are counted, then repeated in a child process with each of them failing, "
             "once and from there on (of long runs the first 40, the last 30 and a sample); the file must be the old or the new one, and what a call returns whole; distinct by file and call",
    ),
}

_ORACLE = {
    "C01": ("ASan+UBSan and MSan on hostile inputs, exposed-field walker, block budget; libFuzzer (thorough)",
            "Memory errors, undefined behaviour, uninitialised reads, aborts and endless loops are detected on every input run; inputs not generated are not covered."),
    "C02": ("byte comparison of the audio after every save, located by an independent decoder", "Exact on every file and tag generated."),
    "C03": ("online reference model (ordered list of frames), compared after save and reload", "Exact on every history generated."),
    "C04": ("independent encoder and decoder around load-edit-save", "Exact on every file and edit sequence generated."),
    "C05": ("strict independent ID3v2 decoder over every saved file", "Exact on every file generated; the decoder is written from the ID3v2.3 and v2.4 documents."),
    "C06": ("online reference model compared after every call", "Exact on every history generated."),
    "C07": ("independent encoder's record compared with everything the library exposes", "Exact on every conforming tag generated, up to tens of megabytes."),
    "C08": ("monitor of results, file bytes and directory content", "Exact on every path and content generated."),
    "C09": ("byte comparison of the file after deletion with the known audio", "Exact on every file generated."),
    "C10": ("allocation ledger on sanitizer malloc hooks, ASan, descriptor table monitor, injected read faults", "Leaks, double frees and open descriptors are detected at the end of every history run."),
    "C11": ("inputs destroyed after each call under ASan, all tags compared with reference lists", "Exact on every interleaving generated."),
    "C12": ("system-call fault injection (seccomp trap) at every call of every save and delete generated, file state oracle",
            "Every single failing call of the operations run is enumerated, alone and with all later ones; the non-atomic copy back is a known finding."),
    "C13": ("byte comparison across repeated saves and load-save cycles", "Exact on every tag, file and number of repetitions generated."),
    "C14": ("differential monitor: all readers on the same bytes, with and without trailing data; libFuzzer (thorough)", "Exact on every input generated."),
    "C15": ("online size accounting against the content, after every call", "Exact on every history generated."),
    "C16": ("online reference model over compatibility histories, differential against the core API", "Exact on every history generated."),
    "C17": ("ThreadSanitizer; result digests compared with single-threaded runs", "Races are detected by happens-before on the accesses executed, largely independently of the schedule."),
    "C18": ("reference functions over exactly sized allocations under ASan", "Exact on every string generated."),
    "C19": ("allocation ledger and executed-block counter against a linear bound", "Deterministic costs, not time, on every input generated."),
    "C20": ("directory snapshots (content, mode, owner, links) and a log of names created by system calls, before and after each operation, with injected faults",
            "Exact on every tree and operation generated; access times and extended attributes are not looked at."),
    "C21": ("comparison of the process state around call histories, captured standard streams, injected faults", "Exact for the state listed, on every history generated; errno may change."),
    "C22": ("held frames, strings and lists read again under ASan after every call, compared with a reference list that tracks each frame's identity", "Exact on every history generated."),
    "C23": ("the same history run twice in different states of the process, all outcomes compared", "Exact for the states listed, on every history generated; resource limits and permissions are not varied."),
    "C25": ("allocation fault injection at every allocation of the library, in child processes; file and result oracles",
            "Every single failing allocation of the calls run is enumerated, alone and with all later ones; allocations inside the C library do not fail."),
    "C24": ("the same histories run on differently compiled libraries, all outcomes compared", "Exact on every history generated, for five builds on one platform (gcc and clang, signed and unsigned char, -O0 to -O3)."),
}
TECHNIQUE = {k: "runtime monitoring: " + v[0] for k, v in _ORACLE.items()}
NOTE = {k: v[1] + " Assumes: " + "; ".join(ASSUMPTIONS[1:] + CONFIG[k].get("assumptions", [])) + "." for k, v in _ORACLE.items()}

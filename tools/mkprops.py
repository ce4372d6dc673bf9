#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=hook)))
MAIN = "src/id3v2lib.c"; TAG = "src/modules/tag.c"; TH = "src/modules/tag_header.c"; FL = "src/modules/frame_list.c"
FR = "src/modules/frame.c"; FH = "src/modules/frame_header.c"; CS = "src/modules/char_stream.c"; UT = "src/modules/utils.c"
TF = "src/modules/frames/text_frame.c"; CF = "src/modules/frames/comment_frame.c"; AF = "src/modules/frames/apic_frame.c"
CO = "src/id3v2lib.compat.c"
FILE_TESTS = ("The only test that runs here reads two files without a tag; the upstream edit/delete/compat tests use one "
              "fixture (file.mp3, absent from this copy), one tag and no partial I/O.")

prop("C01", "Writing a tag never changes the audio",
     "After a tag has been written to a file without an I/O failure, the file is exactly one new tag followed by precisely the bytes that followed the file's previous tag (all of its bytes if it had no supported v2.3/v2.4 tag). This holds whatever the audio bytes are, whatever the old and new tag sizes are, however many sessions edited the file before, and however the operating system splits the reads and writes.",
     ["inputs", "histories", "configurations"],
     "all file contents (no tag, v2.3, v2.4, unsupported versions, empty files, audio that itself starts with 'ID3' or is full of 0xFF), all old/new tag sizes, all edit histories over several sessions, all stdio buffer sizes and short-read patterns",
     FILE_TESTS + " No test compares the audio bytes after a write.",
     [MAIN, TH, UT, TAG], [("length of the old tag taken from its header", MAIN + ":ID3v2_write_tag"), ("audio copied through a temporary file", MAIN + ":ID3v2_write_tag"), ("sync-safe size decoding", UT + ":syncint_decode")],
     observe=["bytes of the file after ID3v2_write_tag / set_tag returns"])
prop("C02", "Deleting the tag leaves exactly the audio",
     "After the tag of a file has been deleted without an I/O failure, the file consists of precisely the bytes that followed the tag. A file without a supported tag is left untouched by the same call, and other files are never affected.",
     ["inputs", "histories", "configurations"],
     "all file contents and tag sizes, deletes placed anywhere in an edit history, all stdio buffer sizes and short-read patterns",
     FILE_TESTS + " The delete test only asks that no tag is found afterwards; it would pass if the audio were lost.",
     [MAIN, TH, UT], [("skip tag, copy the rest out and back", MAIN + ":ID3v2_delete_tag")],
     observe=["bytes of the file after ID3v2_delete_tag / remove_tag returns"])
prop("C03", "Edits persist: what was set, added or deleted is what is read back",
     "For every history of setting, adding, deleting (by id, by name or by index) and getting frames over any number of read/edit/write sessions, the getters and a later session that reads the written file see exactly the frames a simple ordered list of frames would hold: same order, ids, flags, encodings, texts, languages, descriptions, MIME types, picture types and picture bytes. Setting replaces the first frame with that id in place or appends; deleting removes exactly one matching frame and does nothing when there is none.",
     ["histories", "inputs", "crash_points"],
     "all histories of editing calls and of read/write/restart events (only the file survives a restart), all strings (ISO and UTF-16 with either byte order mark), all picture data, v2.3 and v2.4 tags",
     FILE_TESTS + " One fixed sequence of calls is tried; removal of the last, only or missing frame followed by further edits is never tried.",
     [TAG, FL, FR, TF, CF, AF, FH, MAIN], [("ordered frame list", FL), ("tag size bookkeeping in the editing calls", TAG), ("frame serialisation and parsing", FR)],
     state=[dict(name="frames", meaning="ordered list of frames", where="include/modules/frame_list.h"), dict(name="tag_size", meaning="bytes of frames and padding", where="include/modules/tag_header.h")],
     observe=["public getters", "frames decoded from the file by an independent decoder"])
prop("C04", "Frames nobody edited survive a save unchanged",
     "When a tag is read from a well-formed file, edited and written back, every frame the caller did not touch is still there, in its place, with the same id, flags, text encoding and content, whatever its type: known, multi-value or user-defined text, other frames with ids that merely start like known ones, and unknown binary frames. The terminator that a text lacks may be added, of the width of its encoding; nothing else may change, and nothing at all where the frame's flags say that its content is encoded.",
     ["inputs", "histories"],
     "all well-formed v2.3/v2.4 tags, including unsynchronised ones, footers and extended headers: all frame ids, encodings 0-3, unterminated and multi-value texts, frames with compressed, encrypted, grouped or unsynchronised content (which is just bytes then), any padding; all edit histories of other frames",
     FILE_TESTS + " No test looks at a frame it did not set.",
     [FR, TF, CF, AF, FH, TAG], [("frame type dispatch by id", FH), ("raw copy of unknown frames", FR + ":Frame_parse"), ("typed parsers keep encoding and content", TF + ":TextFrame_parse")],
     observe=["frames decoded from the file by an independent decoder before and after"])
prop("C05", "The written tag is well formed",
     "Whatever sequence of edits produced it, the tag at the start of a written file is a valid ID3v2.3 or v2.4 tag of the version of the tag object: 'ID3', version, flags that announce only what is present, a sync-safe size that spans exactly up to the audio, frames that tile the tag with sizes in the encoding of that version, and zero bytes from the last frame to the end.",
     ["inputs", "histories", "configurations"],
     "all edit histories and frame sizes, in particular around the 7, 8, 14, 16 and 21 bit limits of the size encodings, both versions",
     "No test decodes a written file with anything but the library itself, so an error made both ways is invisible.",
     [TAG, FH, UT, MAIN], [("header and size encoding", TAG + ":Tag_to_char_stream"), ("frame header encoding", FH + ":FrameHeader_to_char_stream"), ("sync-safe encoding", UT + ":syncint_encode")],
     observe=["bytes of the file after a write, decoded by a strict independent decoder"])
prop("C06", "A failing write or delete leaves the original file intact",
     "If anything goes wrong while a tag is being written or deleted (the file cannot be opened or is read-only, the temporary file cannot be created, a read, seek, write or close fails, the disk is full), then afterwards the file holds either its complete previous content or the complete new content; a missing file stays missing. The calling program is never brought down by such a failure.",
     ["fault_sequences", "inputs", "configurations"],
     "all sequences of failing system calls (transient or persistent) at every call the operation makes, all disk capacities, all stdio buffer sizes",
     "No test injects an I/O failure.",
     [MAIN], [("operations are performed on a temporary file in case things go wrong", MAIN + ":ID3v2_write_tag"), ("same in delete", MAIN + ":ID3v2_delete_tag")],
     observe=["bytes of the file after the failed call"])
prop("C07", "A crash during a write or delete leaves the old or the new file",
     "If the process is killed at any instant while a tag is being written or deleted, the file found afterwards holds either its complete previous content or the complete new content, never a mixture of the two, garbage or nothing. A later session can then read and edit the file normally.",
     ["crash_points", "histories"],
     "process death before, after or in the middle of every system call of the operation, anywhere in an edit history, followed by further sessions",
     "No test kills the process; a test process observes only completed operations.",
     [MAIN], [("operations are performed on a temporary file in case things go wrong", MAIN + ":ID3v2_write_tag")],
     observe=["content of the file at every system call boundary", "behaviour of the next session"])
prop("C08", "Damaged files are read safely",
     "Reading (and then inspecting, editing, saving and freeing) a tag from a file or buffer damaged in any way, such as flipped bits, overwritten or missing sectors, torn writes or truncation at any byte, never accesses memory out of bounds, never aborts the program and always returns. The result depends only on the bytes read, never on uninitialised memory.",
     ["fault_sequences", "inputs"],
     "all corruptions of stored files (bit flips, byte overwrites, truncation, zeroed ranges, duplicated ranges), alone and combined, in v2.3 and v2.4 files with every frame type",
     "The only running test reads an empty and a missing file.",
     [TH, FR, FH, TF, CF, AF, CS, UT, TAG, MAIN], [("bounds in the character stream", CS), ("frame header parsing", FH + ":FrameHeader_parse"), ("typed parsers", TF + ", " + CF + ", " + AF)],
     observe=["memory accesses (AddressSanitizer)", "returned tag", "same run repeated with different stale memory contents"])
prop("C09", "Every operation gives its resources back",
     "Each call closes every file it opened, removes every temporary file it created and frees all memory it does not hand to the caller; once the caller has freed the tags, lists and headers it obtained, nothing the library allocated remains. This also holds when the operation fails because of an I/O error, a missing file, a damaged tag or a lack of memory that the program survives.",
     ["histories", "fault_sequences", "inputs"],
     "all histories of API calls, with and without failing opens, reads, writes and closes at every point, on good and damaged files",
     "Tests never measure leaks, and error paths need injected failures.",
     [MAIN, FR, TAG, FL, CO], [("fclose/free on every path", MAIN), ("frame destructors", FR + ":ID3v2_Frame_free"), ("sublists released by index deletes", TAG)],
     observe=["open handles, names on the simulated disk and outstanding allocations after each call and at the end of the history"])
prop("C10", "Callers in different threads do not disturb each other",
     "Threads that work on different files and tag objects at the same time, or only read the same file or only query the same tag, get the same results and leave the same files as if each had run alone, for every interleaving. No call keeps state that another thread's call could see.",
     ["schedules", "histories"],
     "all interleavings of 2 to 4 caller threads at basic-block granularity, all per-thread histories of library calls, with and without per-thread I/O failures",
     "The tests are single threaded.",
     [MAIN, UT, CS, TAG, FL, CO], [("no static or shared mutable state; every call allocates its own buffers and anonymous temporary file", MAIN + ", " + UT + ":itob")],
     observe=["per-thread results and final files, compared with the serial execution"])
prop("C11", "Reading modifies nothing; writing touches only the named file",
     "Reading a tag or a tag header and querying a tag never change any file or the tag itself, and work on read-only files. Writing or deleting a tag changes no file other than the one named, and leaves no additional file behind. Writing no tag (the null that reading an untagged file yields) changes nothing.",
     ["inputs", "histories", "fault_sequences"],
     "all files, all histories of calls, with and without I/O failures",
     "No test looks at files other than the one it wrote, or at the file after a read.",
     [MAIN, TAG, CO], [("files opened read-only for reading", MAIN + ":ID3v2_read_tag"), ("anonymous temporary file", MAIN + ":ID3v2_write_tag")],
     observe=["all names and contents on the simulated disk after each call", "open modes"])
prop("C12", "File, buffer and header readers agree under any delivery of the bytes",
     "Reading a tag from a file yields the same tag as reading it from a buffer holding that file's tag (whether or not the buffer continues with audio), and the same version, flags and declared size as the header-only readers. The result is independent of how the operating system delivers the bytes (short reads, buffer sizes), and is no tag exactly when the file does not start with a v2.3/v2.4 tag header; asked for the frames of no tag, the getters find none.",
     ["inputs", "configurations", "schedules"],
     "all well-formed files and files without a tag, all stdio buffer sizes, all patterns of short reads",
     FILE_TESTS + " The buffer readers are never called by any test.",
     [MAIN, TH, TAG, CS, CO], [("one parser behind all readers", MAIN + ":ID3v2_read_tag_from_buffer"), ("header recognition", TH + ":TagHeader_parse")],
     observe=["returned tags and headers compared with each other and with an independent decoder"])
prop("C13", "Every call returns, and works again once faults stop",
     "Under any sequence of I/O failures, including ones that persist, every call returns within a number of steps bounded by the size of the file and tag. As soon as the failures stop, writing the same tag object again succeeds with its full content, as if nothing had happened before, and reading sees it.",
     ["fault_sequences", "histories"],
     "all sequences of transient or persistent failures of open, temporary file creation, read, write, seek, close and of full disks, followed by a fault-free retry",
     "No test injects failures or bounds running time.",
     [MAIN, TAG], [("copy loops end at end of file or error", MAIN), ("a failed write leaves the tag object usable", MAIN + ":ID3v2_write_tag")],
     observe=["basic-block and system-call count of each call", "result of the retry"])
prop("C14", "The compatibility layer behaves like the core library",
     "Every history of compatibility-layer calls (load, new, get, set, save, remove, free) yields the frames and file contents that the corresponding core calls yield: loading a file without a tag returns no tag, setting creates the frame when it is absent and replaces it otherwise, the getters and content parsers return what was loaded or last set, the header fields and raw bytes of a loaded tag are those of the tag in the file, and saving persists it.",
     ["histories", "inputs", "fault_sequences"],
     "all histories of compatibility calls over several sessions, on files with and without a tag, all strings and pictures, with failing opens and reads",
     "The one compatibility test uses a fixture absent from this copy and only replaces frames that already exist.",
     [CO, TAG, MAIN], [("mirror list of converted frames", CO + ":add_uniq_to_list"), ("conversion of core frames", CO + ":frame_to_compat_frame")],
     observe=["compatibility getters and content parsers", "file decoded by an independent decoder"])
prop("C15", "Running out of memory never damages a file",
     "If memory allocation fails at any point while a tag is read, edited, written or deleted, no file is damaged: the file concerned holds its complete previous content or the complete new content, even if the program does not survive the failure. If it does survive, an edit that ran out of memory has taken effect completely or not at all and a tag that was read nevertheless is complete, so that saving it later loses nothing.",
     ["fault_sequences", "histories"],
     "failure of any single allocation or of all allocations from some point on, in every call of a history",
     "No test makes an allocation fail.",
     [MAIN, TH, TAG, CS], [("everything is allocated before the original file is opened for replacement", MAIN + ":ID3v2_write_tag")],
     observe=["bytes of all files after the call returned or the process died"])
prop("C16", "Saving is stable: no drift, no growth",
     "Writing an unmodified tag again, or reading it back and writing it, leaves the file byte for byte the same. A written tag always carries at least the default 2048 bytes of padding, and the padding never grows from one save to the next, so files do not grow under repeated editing.",
     ["histories", "inputs"],
     "all histories of edits and saves over any number of sessions, all initial paddings, both versions",
     "No test saves twice.",
     [MAIN, TAG], [("padding topped up to the default before serialising", MAIN + ":ID3v2_write_tag"), ("padding computed when parsing", TAG + ":Tag_parse")],
     observe=["file bytes and padding length after each save"])
prop("C17", "An interrupted read never invents data",
     "If reading fails half way or the file is removed, shortened or replaced by another program while it is being read, the reader returns no tag, or a tag whose frames are, in order, leading frames of a version of the file that really existed, each complete and unaltered. A later undisturbed read returns the full tag.",
     ["fault_sequences", "schedules"],
     "read and open failures at every system call of the readers, and another process unlinking, truncating or replacing the file between any two system calls",
     "No test injects read failures or concurrent modification.",
     [MAIN, TAG, FR, FH, CO], [("only the bytes actually read are parsed", MAIN + ":ID3v2_read_tag"), ("frames that do not fit are not returned", FH + ":FrameHeader_parse")],
     observe=["returned tag compared with independently decoded versions of the file"])
prop("C18", "Text conversion helpers agree with UTF-16 little endian",
     "Converting an ISO-8859-1 string to unicode yields its UTF-16LE encoding with byte order mark and terminator, and the length helpers count exactly the bytes before (or including) the terminator.",
     ["inputs"], "all strings", "Tests use the helpers only to build their own expectations.",
     [UT], [("ID3v2_to_unicode, ID3v2_strlen, ID3v2_strlent", UT)], observe=["return values"])
prop("C19", "Sync-safe integers are coded losslessly",
     "Every size below 2^28 survives encoding to and decoding from its sync-safe form, and the encoded bytes have a clear top bit.",
     ["inputs"], "all sizes below 2^28", "No test calls the coders with more than the sizes of one fixture.",
     [UT], [("syncint_encode, syncint_decode, itob, btoi", UT)], observe=["size fields of written files"])
prop("C20", "What the caller passes in stays the caller's, and tags are independent",
     "Strings, pictures, frames and buffers handed to the library are never modified and never kept: the caller may change or free them as soon as the call has returned, and they may themselves be parts of the tag being edited or of another tag. A tag does not depend on the file or buffer it was read from, nor on any other tag: no edit, save or release of one tag, and no change of the file, is visible through another. A frame returned by a getter stays valid and unchanged until that very frame is replaced or deleted or its tag is freed.",
     ["histories", "inputs"],
     "all histories of calls over several tag objects of the same or different files, with arguments taken from the caller's memory, from frames of the same tag or of other tags, and with the caller overwriting and releasing its memory after each call; frames held across later edits, saves, failed saves and reads",
     "Tests pass string literals that live for ever and use a single tag object at a time.",
     [TAG, FL, FR, TF, CF, AF, MAIN, CO], [("setters copy their arguments before the old frame is released", TAG), ("parsed tags own their bytes", TAG + ":Tag_parse"), ("frames are separate objects linked by the list", FL)],
     observe=["argument memory after each call", "held frames and bystander tags after each call (AddressSanitizer and content comparison)"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one place for ids, titles and commands)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), level="exploration", note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
    NOTES[id] = (level, note)
NOTES = {}

prop("C01", "DeviceSQL strings keep their text and their documented byte form",
 "Every text the string constructors accept is encoded in the documented DeviceSQL form (short ASCII, long ASCII, UTF-16LE, ISRC) and decodes back to the same text from exactly those bytes; every stored form decodes to its text, uses exactly its own length and is rewritten unchanged. A text the format cannot hold and malformed stored bytes give an error, never a different text or a panic.",
 ["inputs"], "all texts (ASCII and non-ASCII, up to and beyond the length limits), all four stored forms, arbitrary bytes, any bytes following the string",
 "The unit tests fix about ten strings; length boundaries (126/127, 32767), characters whose first byte is 0x03, surrogate pairs and malformed headers are unbounded in number.",
 ["src/pdb/string.rs"], [("short/long/ISRC variant selection", "src/pdb/string.rs DeviceSQLStringImpl, LongBody"), ("constructors", "src/pdb/string.rs DeviceSQLString::new, new_isrc")],
 ["DeviceSQLString::new/new_isrc/parse, read, write, into_string, Display"],
 note="Generated texts and byte strings against an independent encoder/decoder of the documented format; no exhaustiveness claim.")

prop("C02", "Offset arrays address exactly their items",
 "Reading an offset array yields for every slot the item stored at that slot's offset from the row start, whatever the order, gaps or sharing of the items; writing with given offsets puts the array and every item back at exactly those places and changes nothing else. Writing with calculated offsets gives non-overlapping items after the array, UTF-16 strings 4-byte aligned relative to the row, that read back equal; offsets that do not fit the offset size give an error.",
 ["inputs"], "all item counts, prefixes, stream positions, 8/16-bit sizes, layouts and string contents within the offset range",
 "Tests use at most two items in one or two fixed layouts at stream position 0.",
 ["src/pdb/offset_array.rs", "src/util.rs"], [("OffsetArrayContainer read/write", "src/pdb/offset_array.rs"), ("try_map/zip over arrays", "src/util.rs ArrayPolyfills")],
 ["OffsetArrayContainer read_options/write_options"],
 note="Generated layouts against a reference placement; items of 1, 2, 3, 7 and 21 strings and of integers.")

prop("C03", "PDB rows decode to their stored fields and are rewritten unchanged",
 "For each of the 17 row types of export.pdb and exportExt.pdb, every field of the decoded row equals the value stored at its documented position, including strings at arbitrary offsets and 8- and 16-bit offset variants. Writing the decoded row reproduces its bytes, and a row edited through the public fields is written with the new values and with all other fields unchanged. The page type alone decides which kind of row is read.",
 ["inputs"], "all row types, field values, string contents, offset sizes and heap orders",
 "The round-trip tests hold a few hundred rows of a handful of exports, all laid out by the same software.",
 ["src/pdb/mod.rs", "src/pdb/ext.rs", "src/pdb/offset_array.rs", "src/util.rs"], [("row structs", "src/pdb/mod.rs Track..Menu, src/pdb/ext.rs TagOrCategory, TrackTag"), ("row dispatch by page type", "src/pdb/mod.rs Row, PlainRow")],
 ["Row read/write, public fields, Debug"],
 note="Reference row encoder driven by a field table; private fields are observed through Debug output by name (a renamed field counts as unobserved, not as a failure).")

prop("C04", "Data pages expose exactly the present rows and survive rewriting",
 "A decoded data page holds exactly the rows whose presence bit is set, each keyed by its heap offset and equal to the row stored there, for any number of row groups and any pattern of deleted rows, and its header fields and packed row counts equal the stored bits. Writing the page over its original bytes changes nothing; writing it to an empty page gives one that decodes equal. Pages whose counts or offsets contradict each other or the page size are refused.",
 ["inputs"], "all page sizes, row counts (0 to more than 100, group boundaries included), presence patterns, heap orders, header values, residual bytes",
 "Tests replay about 40 recorded pages; presence patterns, group boundaries and residual data in unused slots are combinatorial.",
 ["src/pdb/mod.rs", "src/pdb/bitfields.rs", "src/util.rs"], [("row groups", "src/pdb/mod.rs RowGroup"), ("packed counts and flags", "src/pdb/bitfields.rs"), ("parse/write at offsets", "src/util.rs")],
 ["Page read/write, DataPageContent.rows, PageHeader"],
 note="Reference page encoder; in-place rewrite compared byte for byte.")

prop("C05", "Row allocation keeps a page consistent over any insertion history",
 "After any sequence of allocations and insertions, the page's row counts, free and used sizes, row groups, presence bits and offsets are those of the documented heap layout: rows 4-byte aligned, never overlapping each other or the footer, earlier rows untouched. An allocation that does not fit is refused without changing the page, one that fits is granted, and the written page reads back with exactly the old and the inserted rows.",
 ["histories", "inputs"], "all histories of allocations of any size (accepted or refused, with or without insertion) on fresh and existing pages",
 "The modification tests replay a few fixed histories of about a dozen insertions.",
 ["src/pdb/mod.rs", "src/pdb/bitfields.rs"], [("Page::allocate_row", "src/pdb/mod.rs"), ("last_row_index / increments", "src/pdb/bitfields.rs")],
 ["Page::allocate_row, page fields, Page write/read"], state=[("free_size/used_size", "heap accounting", "src/pdb/mod.rs PageHeader")],
 note="Stateful model-based histories compared with a reference heap after every step.")

prop("C06", "Index pages and page references keep their packed values",
 "Index pages decode to the stored header values and entries in order, each entry splitting into the page reference (upper 29 bits) and 3 flag bits, with the empty marker recognised; building an entry from a page reference and flags and splitting it again gives the same pair. Out-of-range references and flags are refused with an error, page offsets are index times page size without overflow, and rewriting an index page reproduces it including the empty-slot padding and trailing zeros. Pages whose entries do not fit or whose magic numbers are wrong are refused, as is writing an index page whose entry count is not the number of its entries.",
 ["inputs"], "all entry counts up to a full page, all page sizes, all 32-bit entry values, page references and flags",
 "Two recorded index pages are tested.",
 ["src/pdb/mod.rs"], [("IndexEntry, PageIndex", "src/pdb/mod.rs"), ("IndexPageContent padding", "src/pdb/mod.rs")], ["Page read/write, IndexEntry, PageIndex"],
 note="Reference encoder for index pages; entry packing checked on generated 32-bit values.")

prop("C07", "Table traversal yields exactly the table's pages and rows, in chain order",
 "Iterating a table by index, by page type or by row type yields every page of its chain from first to last and every present row of its data pages exactly once, in chain order, independent of how the tables' pages are interleaved in the file, of unused pages, and of what was loaded or iterated before. Missing tables, missing pages, a chain that turns back and a page holding other rows than its table each give an error, and traversal of any chain ends.",
 ["inputs", "histories"], "all databases with any number of tables, chain lengths, interleavings and broken chains; all sequences of iterations and page loads",
 "Tests iterate two recorded exports front to back, with intact chains only.",
 ["src/pdb/io.rs", "src/pdb/mod.rs"], [("PageIterator", "src/pdb/io.rs"), ("iter_rows", "src/pdb/io.rs"), ("find_table", "src/pdb/mod.rs Header")],
 ["Database::iter_pages, iter_pages_for_table, iter_rows, load_page"], state=[("LazyPage cache", "pages loaded so far", "src/pdb/io.rs")],
 note="Generated databases and operation histories against the chain model; broken chains are injected.")

prop("C08", "Saving a database stores exactly the edits made",
 "After any history of page loads, edits of the header, its tables, pages and rows (numbers, texts, whole rows in place), flushes and a close, the file holds exactly those edits at their places and every other byte as before, and reopening it shows the edited state. Opening, iterating and editing without flush never writes, databases opened non-persistently see their own edits in later iterations, and flushing twice writes the same bytes. A header or page that contradicts itself or does not fit is refused with an error.",
 ["histories", "inputs"], "all histories of loads, edits, insertions and flushes on generated databases",
 "Existing tests perform one edit sequence on one page and do not compare the rest of the file.",
 ["src/pdb/io.rs", "src/pdb/mod.rs"], [("flush / close", "src/pdb/io.rs Database"), ("lazy page write skips unloaded pages", "src/pdb/io.rs LazyPage")],
 ["device bytes after flush/close; reopened database"], state=[("content", "header and loaded pages", "src/pdb/io.rs LazyDatabase")],
 note="Model-based histories on an instrumented device; the whole file image is compared after every flush.")

prop("C09", "ANLZ files decode to their stored values and are rewritten unchanged",
 "Every section of an analysis file (beat grid, cue lists, extended cues, path, VBR, all waveform kinds, song structure, unknown kinds) decodes to the values stored at the documented big-endian positions and bits, in file order. Writing a decoded file reproduces it byte for byte, and a file built from values decodes to the same values. A path, waveform or song-structure section whose own lengths or entry counts contradict its size is refused, never misread.",
 ["inputs"], "all combinations, orders and lengths of sections, all field values, header sizes and trailing data of the documented format",
 "The round-trip tests cover the sections of two tracks' files; entry values of waveforms and most cue variants are never compared with an independent reading.",
 ["src/anlz.rs"], [("section structs", "src/anlz.rs"), ("Header sizes", "src/anlz.rs Header, Section"), ("waveform bit fields", "src/anlz.rs Waveform*Column")],
 ["ANLZ read/write, public fields, Debug"],
 note="Reference encoder for all section kinds; round trip is compared byte for byte.")

prop("C10", "Song-structure encryption is transparent",
 "A song structure stored encrypted decodes to the same phrases as the same data stored in the clear, for every entry count and however the reader delivers the bytes, and writing it encrypts with the documented key so that the file bytes are reproduced. The encrypted flag is recognised from the stored data and preserved.",
 ["inputs", "schedules"], "all phrase lists, moods, banks and entry counts (key wrap-around included); all splits of reads, writes and seeks",
 "Tests decode recorded structures from in-memory buffers that always deliver full reads.",
 ["src/anlz.rs", "src/xor.rs"], [("XorStream", "src/xor.rs"), ("key derivation and detection", "src/anlz.rs SongStructure")],
 ["ANLZ read/write of song-structure sections through chunked streams"],
 note="Reference XOR encoder; transfers cut at arbitrary points and interrupted.")

prop("C11", "Settings files decode, encode and checksum exactly",
 "Each of the four settings files decodes every setting to the value of its documented byte and writes every setting back to that byte, keeping header texts and unknown bytes, with the stored checksum recomputed over the documented range. A file with a wrong length or an undefined setting value gives an error, and a changed setting changes exactly its byte and the checksum.",
 ["inputs"], "all values of all settings of all four file kinds, header texts, corruptions of any byte",
 "Tests decode about ten recorded files; most values of most settings never occur in them.",
 ["src/setting.rs"], [("Setting and data structs", "src/setting.rs"), ("calculate_checksum", "src/setting.rs")], ["Setting read/write, DevSetting/MySetting/MySetting2/DJMMySetting fields"],
 note="Reference encoder with its own byte table and CRC-16/XMODEM.")

prop("C12", "Device settings load completely and independently, and display their labels",
 "Loading the settings of a device export yields for every setting the value in its file, each file contributing its own settings independently of which other files are present, missing or unreadable; absent settings stay unset. The settings display lists each set value with the label of that value and never fails.",
 ["inputs", "configurations", "fault_sequences"], "all subsets of the four files, each valid, missing or corrupt, with any setting values",
 "Tests load one directory with all files present.",
 ["src/device.rs", "src/setting.rs"], [("load_settings", "src/device.rs"), ("Settings setters and Display", "src/device.rs")], ["DeviceExportLoader::load_settings/get_settings, Display"],
 note="Generated export directories in a scratch folder.")

prop("C13", "XML collections survive serialisation and carry the documented attributes",
 "Any XML collection built from the public types (tracks with tempo and position marks, nested folders and playlists, empty ones included, up to 128 levels deep) serialises to XML that parses back to an equal collection, and a document in the Rekordbox XML format parses to exactly the values it states, independent of attribute order, of optional attributes being absent and of XML escaping. Absent values stay absent. A missing required attribute, a malformed number and an unknown node type are errors.",
 ["inputs"], "all collections: any texts, numbers, dates, nesting, presence of optional attributes; all attribute orders and escapings",
 "Tests compare one small hand-written document.",
 ["src/xml.rs"], [("serde model", "src/xml.rs")], ["quick_xml serialisation and deserialisation of xml::Document"],
 note="Generated documents, own XML writer for the decoding direction.")

prop("C14", "The playlist tree is exactly the stored one",
 "The playlist tree of a database and the playlist listing contain every playlist and folder that is reachable from the root exactly once, under its parent, in the order the rows are stored within the parent, with its own name, and nothing else. Trees of up to 128 levels are listed; deeper ones are listed completely or refused. Folder contents that refer to themselves, to each other or to missing parents never make the listing fail to end or crash.",
 ["inputs"], "all forests of folders and playlists in any storage order and on any number of pages, with deleted rows, orphans, cycles and duplicate ids",
 "Tests list one export with a handful of playlists.",
 ["src/device.rs", "src/main.rs"], [("get_playlists", "src/device.rs"), ("list-playlists", "src/main.rs")], ["DeviceExportLoader::get_playlists, CLI list-playlists"],
 note="Generated databases against a tree model; cycles run with a stack guard in a child process.")

prop("C15", "Playlist export writes the right playlists, only inside the output directory",
 "Exporting playlists creates, for every playlist of the tree, one M3U file in the folder path of its parents that lists the playlist's tracks, in the order of their entry index, by their path below the device folder, and nothing else. Whatever names and paths the export contains, nothing outside the given output directory is created or changed.",
 ["inputs"], "all playlist trees, track tables and entry orders; all playlist and folder names including path separators, dots and absolute paths",
 "No test runs the export.",
 ["src/main.rs"], [("export_playlists", "src/main.rs"), ("track lookup", "src/main.rs")], ["files under a scratch directory after running the CLI"],
 note="The CLI runs as an unprivileged user in a scratch folder; the folder is compared with the model.")

prop("C16", "No PDB bytes make parsing panic, hang or exhaust memory",
 "For any bytes given as a database of either type, opening it, loading any page, iterating any table or rows, formatting what was decoded and rewriting it gives a value or an error: no panic, no endless loop, and memory and work bounded by the size of the input.",
 ["inputs"], "arbitrary byte strings and arbitrary corruptions of valid databases, all entry points",
 "Tests only read well-formed recorded exports.",
 ["src/pdb/io.rs", "src/pdb/mod.rs", "src/pdb/string.rs", "src/pdb/offset_array.rs"], [("fallible parsing", "src/pdb")], ["Result or panic of every Database/Page/Row entry point"],
 note="Structure-aware mutation of valid files and random bytes with overflow checks, an allocation cap and an I/O operation budget.")

prop("C17", "No ANLZ bytes make parsing panic, hang or exhaust memory",
 "For any bytes given as an analysis file, parsing, formatting and rewriting gives a value or an error: no panic, no endless loop, and memory and work bounded by the size of the input.",
 ["inputs"], "arbitrary byte strings and arbitrary corruptions of valid files",
 "Tests only read well-formed recorded files.",
 ["src/anlz.rs", "src/xor.rs"], [("fallible parsing", "src/anlz.rs")], ["Result or panic of ANLZ read/write/Debug"],
 note="As C16.")

prop("C18", "No settings or XML bytes make parsing panic, hang or exhaust memory",
 "For any bytes given as a settings file of any kind or as an XML collection, parsing, formatting and rewriting gives a value or an error: no panic, no endless loop, and memory bounded by the size of the input. A settings value whose texts do not fit their fields gives an error on writing.",
 ["inputs"], "arbitrary byte strings and arbitrary corruptions of valid files",
 "Tests only read well-formed recorded files.",
 ["src/setting.rs", "src/xml.rs"], [("fallible parsing", "src/setting.rs, src/xml.rs")], ["Result or panic of Setting/Document parsing and writing"],
 note="As C16.")

prop("C19", "Results do not depend on how I/O is split, and I/O faults surface",
 "Reading and writing every supported format through streams that transfer any number of bytes at a time and report interruptions gives the same values and bytes as whole transfers. An I/O error at any point is returned as an error without a panic; a failed page load leaves the database usable, so that repeating it after the fault clears gives the right page, and a flush that is repeated after a failed flush stores everything.",
 ["inputs", "schedules", "fault_sequences"], "all splits of transfers, interruptions, and a fault at every operation of generated load/iterate/edit/flush histories",
 "All tests use in-memory cursors or regular files, which never split or fail.",
 ["src/pdb/io.rs", "src/xor.rs", "src/anlz.rs", "src/setting.rs"], [("read_page / flush error paths", "src/pdb/io.rs"), ("XorStream", "src/xor.rs")], ["results through an instrumented device"],
 level="fault_enumeration", note="A fault is injected at every I/O operation of each generated history in turn.")

prop("C20", "The command line tool reports what the files hold and fails cleanly",
 "The dump and list commands print what the library decodes from the given file, with the kind of database or settings taken from the option or, without one, from the file name, and exit with status 0; a missing, truncated or malformed file, or one whose kind is not known, gives a message on standard error and a failure status. Parts that can be left out (a table of a database that cannot be read, a settings file of an export) do not keep the rest from being shown. Unknown commands, options or values are refused. No command ends by a panic or a signal, and none changes its input.",
 ["inputs", "configurations"], "generated and corrupted files of every kind, all commands and option values, file name spellings",
 "No test runs the binary on anything but help output, if at all.",
 ["src/main.rs", "src/device.rs"], [("subcommands", "src/main.rs"), ("type guessing", "src/main.rs")], ["exit status, stdout, stderr of the CLI"],
 note="The binary is run on generated files in a scratch folder and compared with the library's own output.")

prop("C21", "What was accepted once is stable under rewriting",
 "Whenever bytes of a page, row, string, analysis file, settings file or whole database are accepted, however corrupted, the decoded value can be written, reading that again gives an equal value, and writing that one gives the same bytes: nothing that was decoded is lost or altered by a rewrite. Rows, strings, data pages and analysis files are rewritten to exactly the bytes they were decoded from. (Corrupted offsets that make two parts of one object share bytes with different contents are excluded.)",
 ["inputs"], "all accepted byte strings, well-formed or corrupted",
 "Tests compare the rewrite of well-formed recorded files only.",
 ["src/pdb/mod.rs", "src/anlz.rs", "src/setting.rs"], [("symmetric read/write definitions", "src/pdb, src/anlz.rs, src/setting.rs")], ["read, write, read, write"],
 note="Corrupted inputs that are still accepted are rewritten and compared.")

prop("C22", "The heap size computed for a row is what the row occupies",
 "For every row that fits into a page, whether it was decoded (with its strings in any order, shared, or with gaps between them) or has its offsets calculated, the size computed for it on the heap of a page is the number of bytes it is written to. Rows that are allocated on a page with these sizes, until it is full, never overlap each other or the row groups and read back unchanged.",
 ["inputs", "histories"], "every kind of row with all encodings, lengths, orders and gaps of its strings; sequences of insertions until the page is full",
 "Tests compute the size of a few fixed rows whose strings are stored back to back.",
 ["src/pdb/mod.rs", "src/pdb/offset_array.rs", "src/pdb/string.rs", "src/pdb/ext.rs"], [("PageHeapObject::heap_bytes_required", "src/pdb"), ("Page::allocate_row", "src/pdb/mod.rs")], ["heap size of a row (through the hook), bytes written, pages read back"],
 note="Generated rows; the length of the written row is the oracle. The size is only accessible through a guarded hook.")
P[-1]["anchors"]["hook_needed"] = "Row::verif_heap_bytes_required, compiled with --cfg rekordcrate_verif"

DONE = [p for p in os.environ.get("CLAIM", "").split()] or [l.split()[0] for l in open(os.path.join(V, "tools/claimed.txt")) if l.strip()]
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in DONE:
            lv, note = NOTES[i]
            checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
                evidence_file=f"evidence/{i}.json", technique="property-based testing / fuzzing: generated inputs and histories against a reference model, with shrinking",
                level=lv, level_note=note + " Finds violations by search; absence of a report is evidence for the explored cases only."))
        else:
            na.append(dict(property=i, reason="check not built yet"))
    m = dict(version=1, setup_cmd="bash build.sh --cli", checks=checks, not_applicable=na,
        hooks=dict(guard="--cfg rekordcrate_verif", enable="RUSTFLAGS='--cfg rekordcrate_verif' when the harness is built (build.sh); without it only C22 cannot be decided", source_commits=["52cfa53"]),
        notes="All checks but C22 use only rekordcrate's public API and its command line binary. Replay a reported case with: target/release/vh replay <path>.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
main()

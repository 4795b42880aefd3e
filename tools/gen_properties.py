#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One call of P() per property."""
import json, os

OUT = []
R = "core/ratarmountcore/"
M = R + "mountsource/"


def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    anchors["observe_at"] = observe or ["MountSource API: list, list_mode, lookup, versions, open, read"]
    anchors["hook_needed"] = hook
    OUT.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})


P("C01", "A mounted TAR shows exactly the tree its members describe",
  "For every readable TAR (v7, ustar, GNU and PAX headers, any compression), the mounted view contains exactly the members' "
  "normalized paths and their implied parent folders, nothing else. Each entry has the type, size, permission bits, "
  "modification time, owner ids, link target and byte content that its header blocks describe, with sparse holes read as zeros "
  "and hard links resolving to their target's content. When a path occurs several times the last member is the one shown.",
  ["inputs", "configurations"],
  "all member sequences (types, names, sizes around block and record boundaries, header dialects, sparse maps, duplicate and "
  "denormal paths, missing parents) and all supported compressions and read options",
  "Tests check md5 sums of a few fixed archives; header dialects, sizes at block boundaries, name shapes and orderings combine freely.",
  [M + "formats/tar.py", R + "SQLiteIndex.py", M + "SQLiteIndexMountSource.py"],
  [("header iteration and row conversion", M + "formats/tar.py"), ("path normalisation and parent folder generation", R + "SQLiteIndex.py"),
   ("sparse and plain member opening", M + "formats/tar.py")],
  [("files table", "one row per member with offsets and stat data", R + "create-index-tables.sql")])

P("C02", "Any read of any file returns exactly that slice of its content",
  "For every file of every mounted source, a read of any size at any offset returns exactly that slice of the file's content: never "
  "bytes from beyond its end or of another member, and short only at its end. The opened file objects behave like an ordinary "
  "read-only binary file under any sequence of seek, tell, read and readinto, and operations on one handle never disturb another.",
  ["histories", "inputs"],
  "all sequences of open/seek/tell/read/readinto/close on any number of handles over every backend, with any offsets and sizes",
  "Tests read whole files or a few fixed offsets through one handle at a time; positions, buffer boundaries and handle interleavings are unbounded.",
  [M + "MountSource.py", M + "formats/tar.py", R + "StenciledFile.py", M + "formats/squashfs.py", M + "formats/libarchive.py", M + "formats/sqlar.py",
   M + "formats/fat.py", M + "formats/ext4.py", M + "formats/zip.py", M + "formats/rar.py", M + "formats/py7zr.py", R + "SQLiteBlobFile.py"],
  [("stencil based member files", R + "StenciledFile.py"), ("positional read", M + "MountSource.py"),
   ("format specific seekable files", M + "formats/squashfs.py"), ("streaming entry reader with restart", M + "formats/libarchive.py")],
  None, ["opened file objects", "MountSource.read", "FUSE read"])

P("C03", "Concurrent readers of one mounted source never see wrong data",
  "When several threads look up, list, open and read entries of the same mounted source at the same time, each of them gets exactly "
  "the results and bytes it would have got alone, with no spurious error, crash or deadlock.",
  ["schedules"],
  "all interleavings of lookups, listings, opens, positional reads and closes issued by several threads on one mount source",
  "A couple of tests start a fixed pool of threads; they cannot steer or enumerate interleavings around shared file positions and caches.",
  [M + "formats/tar.py", R + "StenciledFile.py", R + "SQLiteIndex.py", M + "formats/squashfs.py", M + "formats/zip.py", M + "formats/asar.py", M + "formats/ar.py"],
  [("lock around seek and read of the shared archive file", R + "StenciledFile.py"), ("per source file lock", M + "formats/tar.py"),
   ("thread independent index connection", R + "SQLiteIndex.py")])

P("C04", "A reused index gives exactly the view a freshly built one gives",
  "Opening an archive with an index written by an earlier run shows the same entries, metadata, versions, extended attributes and file "
  "contents as opening it without any stored index, for every index location, every compression (including its stored seek points) and "
  "every option set under which the index was accepted.",
  ["configurations", "histories", "inputs"],
  "all archives x index locations (explicit, beside the archive, fallback folders, in memory, compressed index) x option sets x sequences of runs",
  "Tests reload an index for a handful of archives; the product of compressions, locations, options and reuse chains is not sampled.",
  [R + "SQLiteIndex.py", M + "SQLiteIndexMountSource.py", M + "formats/tar.py"],
  [("index discovery and loading", R + "SQLiteIndex.py"), ("seek point export/import", R + "SQLiteIndex.py"), ("argument consistency check", M + "formats/tar.py")],
  [("metadata table", "arguments and archive statistics the index was built with", R + "SQLiteIndex.py")])

P("C05", "A crash or I/O failure while indexing never leads to a wrong view",
  "If the process dies, or a write to the index fails, at any point while an index is being created, updated or loaded, every later mount of the archive "
  "still succeeds and shows the complete, correct view, and a failing index location never prevents mounting. A partially written index is never accepted as complete.",
  ["crash_points", "fault_sequences"],
  "every syscall that changes the index file or its folder as a crash point, and every such syscall failing with ENOSPC or EIO, followed by any later mount",
  "No test interrupts index creation; crash points lie inside SQLite's writes and between finalisation and metadata storage.",
  [R + "SQLiteIndex.py", M + "SQLiteIndexMountSource.py", M + "formats/tar.py"],
  [("temporary tables dropped on completion", R + "SQLiteIndex.py"), ("completeness check when loading", R + "SQLiteIndex.py"), ("fallback to next index location", R + "SQLiteIndex.py")])

P("C06", "A stale, foreign or damaged index is never used to serve files",
  "An index file that is empty, truncated, not an index, written by another backend, or written for an archive "
  "that has since changed in a way the documented checks cover (size; also modification time when verification is on; for grown TARs the sampling of earlier members), "
  "is rejected: the mount shows the same view as without it. An existing file that is not a ratarmount index is not destroyed, and with read-only indexes no index file is changed, created or deleted.",
  ["inputs", "histories", "configurations"],
  "all pre-existing files at an index location, all edits of the archive between runs that alter its size or verified mtime, with all option sets",
  "Tests cover one or two mismatches; damage positions, option differences and archive edits between runs are unbounded.",
  [R + "SQLiteIndex.py", M + "SQLiteIndexMountSource.py", M + "formats/tar.py"],
  [("archive statistics check", R + "SQLiteIndex.py"), ("argument and backend comparison", R + "SQLiteIndex.py"), ("index version check", R + "SQLiteIndex.py")])

P("C07", "Read-only use never changes the sources or writes outside index places",
  "Mounting, browsing, reading and closing any source without a write overlay never creates, modifies, renames or deletes any file, except index "
  "files at the configured index locations and temporary files that are gone after closing. Extracted names, links or options never make it write anywhere else.",
  ["inputs", "configurations", "histories"],
  "all sources, hostile member names and link targets, all option sets and operation sequences of a read-only mount",
  "Tests never watch the filesystem for side effects; hostile names and index placement rules are not combined.",
  [R + "SQLiteIndex.py", "ratarmount/FuseMount.py", M + "factory.py", R + "SQLiteBlobFile.py"],
  [("read-only opening of sources", M + "factory.py"), ("index location selection", R + "SQLiteIndex.py"), ("mutation calls rejected without overlay", "ratarmount/FuseMount.py")],
  None, ["every file-changing operation issued by the process", "directory snapshots before and after"])

P("C08", "Every version of a repeated path is reachable, numbered oldest to newest",
  "For a path that occurs n times, the version count is n, version k (1..n) is the k-th oldest occurrence with its own metadata and content, "
  "version 0 is the newest, other numbers do not exist, and the same holds through the special versions folders. "
  "Those folders never hide or shadow real entries, and paths with special suffixes that do not denote versions are reported as missing.",
  ["inputs", "histories"],
  "all sequences of members repeating paths (as files, folders, links), all version numbers, and all paths using the versions suffix",
  "Tests look at a few updated-file archives; orders of repeated files, folders and links and nested version paths are not covered.",
  [M + "compositing/versioning.py", R + "SQLiteIndex.py", M + "compositing/union.py"],
  [("version ordering in lookups", R + "SQLiteIndex.py"), ("versions folder decoding", M + "compositing/versioning.py")])

P("C09", "A union mount shows the last source's entry and merges folders",
  "In a union of any sources the entry at a path is that of the rightmost source having it; folders list the union of names; and lookup, listing "
  "metadata, versions, reads and extended attributes all refer to the same winning entry. Versions of a path count through the sources from left to right, "
  "and caching of folder contents never changes any answer.",
  ["inputs", "configurations"],
  "all lists of sources (archives, folders, conflicting types), all cache limits, all paths including missing ones",
  "Tests union two or three fixed sources; type conflicts, cache limits and agreement between listing and lookup are not explored.",
  [M + "compositing/union.py", "ratarmount/FuseMount.py"],
  [("right to left lookup", M + "compositing/union.py"), ("folder cache", M + "compositing/union.py")])

P("C10", "Recursive mounting exposes nested archives as folders, eager equals lazy",
  "With recursive mounting every nested archive up to the requested depth appears as a folder at its (possibly stripped or transformed) place with exactly the content "
  "it would have if extracted and mounted by itself, and nothing is mounted beyond that depth. Eager and lazy mounting give the same view, broken nested archives stay plain files, and everything outside nested archives is unaffected.",
  ["inputs", "configurations"],
  "all nestings of archive formats and compressions, all depths, suffix-stripping, transform and lazy options, all access orders",
  "Tests mount a few fixed nested archives at fixed depths; format nestings, depth limits and access orders multiply.",
  [M + "compositing/automount.py", M + "formats/tar.py", M + "factory.py"],
  [("recursive walk and lazy mounting", M + "compositing/automount.py"), ("in-place indexing of nested TARs", M + "formats/tar.py")])

P("C11", "Composed mounts route every path to exactly the right source",
  "When sources are mounted as subfolders (also nested, and mounted or unmounted at run time), each path is answered by exactly the source mounted there: listing, lookup, versions, "
  "reads and extended attributes equal those of the source itself, unrelated paths are unaffected, and mount and unmount change nothing else. The same holds for prefix-stripping and single-file sources.",
  ["histories", "inputs"],
  "all sequences of mounting, querying and unmounting sources at arbitrary paths and all queries in between",
  "Tests mount a couple of sources at one level; nested mount points, run-time changes and attribute queries through the layers are not covered.",
  [M + "compositing/subvolumes.py", M + "compositing/removeprefix.py", M + "compositing/singlefile.py"],
  [("path to source resolution", M + "compositing/subvolumes.py"), ("per-layer user data stack", M + "MountSource.py")])

P("C12", "A write overlay makes the mount behave like a writable POSIX tree",
  "With a write overlay, any sequence of file-system operations (create, write, truncate, rename, unlink, mkdir, rmdir, symlink, link, chmod, chown, utimens and reads) on the mount returns the "
  "results and leaves the visible tree that a plain POSIX directory initially holding the source's tree would, up to operations that are refused with an error and then change nothing. "
  "Deleted or replaced entries never reappear and content is never lost by an operation that did not ask for it.",
  ["histories"],
  "all operation sequences over paths that exist below, only in the overlay, in both, or nowhere, of every type",
  "No stable test touches the overlay at all; its states (below/overlay/both/deleted) times operations times orders are unbounded.",
  ["ratarmount/WriteOverlay.py", "ratarmount/FuseMount.py"],
  [("copy-up before modification", "ratarmount/WriteOverlay.py"), ("deletion marks", "ratarmount/WriteOverlay.py"), ("merged listing and lookup", "ratarmount/FuseMount.py")],
  [("overlay database", "per path: metadata overrides and deletion marks", "ratarmount/WriteOverlay.py")],
  ["FUSE operations object"])

P("C13", "The overlay state survives remounts and crashes; the source never changes",
  "After any sequence of overlay operations the source is byte-for-byte unchanged, and a new mount with the same overlay folder shows exactly the tree visible before. "
  "If the process is killed during an operation, the next mount works and shows either the tree before or after that operation, with all earlier operations kept.",
  ["crash_points", "histories"],
  "all operation sequences, with a clean remount or a kill at any file or database syscall of an operation",
  "No test remounts an overlay or kills the process inside an overlay operation.",
  ["ratarmount/WriteOverlay.py", "ratarmount/FuseMount.py"],
  [("overlay database writes", "ratarmount/WriteOverlay.py"), ("overlay folder as upper layer", "ratarmount/FuseMount.py")],
  [("overlay database", "deletion marks and metadata", "ratarmount/WriteOverlay.py")],
  ["FUSE operations object", "source archive bytes", "overlay folder after kill"])

P("C14", "Committing an overlay yields an archive equal to the overlay view",
  "After confirming the commit of an overlay to an uncompressed TAR, mounting that archive alone shows the tree (names, types, contents, link targets) that was visible through archive plus overlay. "
  "Without confirmation, or for unsupported archives, nothing is changed.",
  ["histories", "inputs"],
  "all overlay operation sequences over all source TARs, followed by a commit that is confirmed or declined",
  "The commit path is not exercised by any stable test; names with special characters, deletions and empty folders combine freely.",
  ["ratarmount/WriteOverlay.py"],
  [("deletion list and append list for tar", "ratarmount/WriteOverlay.py")],
  None, ["the archive file after commit", "GNU tar's own listing of it"])

P("C15", "Joined, split and stenciled files read as their exact concatenation",
  "A file assembled from ranges of other files, or from the parts of a split file in numerical or alphabetical order, is indistinguishable from a regular file holding their concatenation, under any sequence of reads and seeks, for any range layout including empty ranges. "
  "Split parts are detected only for a gapless sequence and joined in order, and other files are never swallowed.",
  ["inputs", "histories"],
  "all range layouts over shared or separate files, all seek/read sequences, all sets of part names",
  "Tests enumerate a few stencils and part names; layouts with empty ranges, boundary reads and numbering schemes are unbounded.",
  [R + "StenciledFile.py", R + "compressions.py", M + "factory.py", M + "compositing/automount.py"],
  [("range search over cumulated sizes", R + "StenciledFile.py"), ("suffix sequence detection", R + "compressions.py")],
  None, ["file objects", "split detection result", "mounted split archives"])

P("C16", "Seeking in a compressed stream equals slicing its decompressed data",
  "For every supported stream compression, backend and parallelization, reading at any offset of a compressed file (as a single file or as an archive inside) returns the bytes of its full decompression, for multi-member, multi-block, multi-frame and empty streams, "
  "and also when stored seek points from an earlier run are used. Sizes shown equal the decompressed size.",
  ["inputs", "configurations", "histories"],
  "all contents, member/block/frame layouts, backends, parallelizations, seek point spacings and read sequences",
  "Tests use fixed small streams; block layouts, backends, threads and seek point import combine freely.",
  [R + "compressions.py", R + "BlockParallelReaders.py", R + "SQLiteIndex.py", M + "compositing/singlefile.py", M + "formats/tar.py"],
  [("backend selection and opening", R + "compressions.py"), ("block cache with prefetch", R + "BlockParallelReaders.py"), ("seek point storage", R + "SQLiteIndex.py")])

P("C17", "Listing, lookup and path handling agree and stay inside the source",
  "For every source, a name is listed in a folder exactly if looking up that path succeeds; listing metadata agrees with lookup; only folders can be listed, missing paths yield the not-found result and never an unrelated entry; "
  "the tree reachable from the root is finite and contains no names that are empty, dots or contain slashes. Equivalent spellings of a member name map to one normalized path inside the root.",
  ["inputs"],
  "all sources with hostile or unusual names (dots, repeated slashes, absolute, parent references, SQL and glob characters, non-UTF-8, very long) and all query paths",
  "Tests use a few denormal archives and mostly query existing paths.",
  [R + "SQLiteIndex.py", M + "SQLiteIndexMountSource.py", M + "formats/rar.py", M + "formats/sqlar.py", M + "formats/folder.py"],
  [("name normalisation", R + "SQLiteIndex.py"), ("parent folder generation", R + "SQLiteIndex.py"), ("listing and lookup queries", R + "SQLiteIndex.py")])

P("C18", "Extended attributes and computed hashes are exact",
  "Extended attributes stored for a TAR member are listed and returned byte-for-byte for that member and version and for no other, and requested content hashes appear as attributes equal to the hash of the file's content for every regular file of an archive whose contents are kept in an index, "
  "also after the index is reloaded. Missing attributes are reported as missing.",
  ["inputs", "configurations"],
  "all attribute names and binary values, all member sequences, all available hash algorithms and file contents and sizes",
  "Tests check one archive with an attribute and a few fixed hashes.",
  [M + "formats/tar.py", R + "SQLiteIndex.py", R + "hashing.py", M + "SQLiteIndexMountSource.py", "ratarmount/FuseMount.py"],
  [("attribute extraction from PAX records", M + "formats/tar.py"), ("hash computation", R + "hashing.py"), ("attribute table", R + "SQLiteIndex.py")])

P("C19", "The FUSE layer follows the read-only file system contract",
  "Through the FUSE operations, getattr, readdir, readlink, open, read, release, listxattr, getxattr and statfs agree with the mounted sources for every path; missing paths give ENOENT, missing attributes ENODATA, and without a write overlay every changing operation is refused and changes nothing. "
  "Handles are independent: any interleaving of open, read and release returns the right file's bytes, and released handles are not usable.",
  ["histories", "inputs", "configurations"],
  "all sequences of FUSE operations over all paths and all mount options",
  "The FUSE layer is only covered by a CLI test file that cannot run here; handle interleavings and error paths are not explored anywhere.",
  ["ratarmount/FuseMount.py"],
  [("handle table", "ratarmount/FuseMount.py"), ("attribute conversion", "ratarmount/FuseMount.py"), ("error mapping", "ratarmount/FuseMount.py")],
  None, ["FUSE operations object"])

P("C20", "Damaged archives cause errors or shorter data, never wrong data or a hang",
  "Opening and reading a truncated or bit-flipped archive always terminates in bounded work without killing the process, and either raises an ordinary error or serves data: for a truncated archive, every file that lies fully in the kept part reads correctly and reads beyond it raise an error or come up short, never with made-up or foreign bytes.",
  ["inputs", "fault_sequences"],
  "all truncation points and byte corruptions of archives of all formats",
  "Tests contain one or two truncated archives; damage positions are unbounded.",
  [M + "formats/tar.py", M + "factory.py", R + "formats.py", M + "formats/ar.py", M + "formats/asar.py", M + "formats/ogg.py", M + "formats/zip.py"],
  [("header validation", M + "formats/tar.py"), ("exception containment per backend", M + "factory.py")])

P("C21", "The fsspec filesystem shows the same tree and bytes as the mount source",
  "Through the fsspec interface, ls, info, exists, isdir, isfile, walk, find, glob, open, cat and ranged reads over any mount source, opened directly or by URL chaining, agree with that mount source's own listing, lookup and contents, and missing paths raise FileNotFoundError.",
  ["inputs", "configurations"],
  "all archives, path spellings accepted by fsspec, and generic fsspec methods",
  "Tests call a few methods on one archive.",
  [R + "SQLiteIndexedTarFsspec.py"],
  [("adaptor methods", R + "SQLiteIndexedTarFsspec.py")],
  None, ["fsspec AbstractFileSystem API"])

P("C22", "Format detection depends on content, accepts every format, and is harmless",
  "Checking what format a file object has never changes its content, position or open state; every valid archive of a supported format is recognised as that format from its content alone, opens with a backend that shows its content, whatever the file is named and whichever backend is preferred; data of no supported format is rejected with an error rather than mounted as something else.",
  ["inputs", "configurations"],
  "all supported formats x names x backend preferences x leading positions, and arbitrary non-archive data",
  "Tests open fixtures with their natural names and default backend order.",
  [R + "formats.py", M + "factory.py", R + "compressions.py", M + "archives.py"],
  [("magic byte and header checks", R + "formats.py"), ("backend trial loop", M + "factory.py")])

P("C23", "The control interface obeys its protocol and is invisible to the mount",
  "With the control interface enabled, its hidden folder never appears in or collides with the mounted tree, writing a command mounts or unmounts exactly what it says or reports an error without changing the tree, output shows the log, and arbitrary input never breaks or hangs the mount. Without the option those paths do not exist.",
  ["histories", "inputs"],
  "all sequences of control-file operations with well-formed and malformed commands split into arbitrary writes, interleaved with normal operations",
  "Only a CLI test that cannot run here touches it, with well-formed commands.",
  ["ratarmount/FuseMount.py", M + "compositing/subvolumes.py"],
  [("command collection and execution", "ratarmount/FuseMount.py"), ("run-time mount and unmount", M + "compositing/subvolumes.py")],
  None, ["FUSE operations object"])

P("C24", "After appending to a TAR the updated index equals a freshly built one",
  "When a TAR that was indexed before has grown by appended members, mounting it with the old index shows exactly what mounting it without any index shows, whether the index is extended in place or rebuilt, over any number of rounds; when its earlier part was changed instead in a way the documented sampling of members covers, the view is that of the new archive.",
  ["histories", "inputs"],
  "all sequences of index, append (also of replacing members, folders, links) and in-place edits detected by the documented checks",
  "One test appends one file; growth amounts, replaced members and several rounds are not sampled.",
  [M + "formats/tar.py", R + "SQLiteIndex.py"],
  [("append detection", M + "formats/tar.py"), ("index extension", R + "SQLiteIndex.py")])

P("C25", "Closing a mount releases every resource and leaves no litter",
  "After closing a mounted source, a file opened from it, or after a failed open, no file descriptor, thread, child process or temporary file created for it remains, closing twice is harmless, and file objects passed in by the caller stay usable as documented.",
  ["histories", "fault_sequences"],
  "all open/use/close histories over all formats and layers, including opens that fail at any backend",
  "Tests do not count descriptors, threads or temporary files.",
  [M + "MountSource.py", M + "SQLiteIndexMountSource.py", R + "SQLiteIndex.py", M + "factory.py", "ratarmount/FuseMount.py", M + "compositing/union.py", M + "compositing/automount.py"],
  [("context manager exits", M + "MountSource.py"), ("temporary index removal", R + "SQLiteIndex.py")],
  None, ["/proc/self/fd", "thread list", "temporary folder listing"])

P("C26", "Every non-TAR format shows exactly its members' tree and bytes",
  "For ZIP, 7z, RAR, AR, ASAR, SQLAR, SquashFS, CPIO, ISO, XAR, CAB, WARC, EXT4, FAT, Git, HTML, PDF and OGG sources, the mounted tree contains exactly the members the format's own tools report, with their content, size, type, and, where the format records them, time, permissions and link targets, after any requested path transformation.",
  ["inputs", "configurations"],
  "all valid archives of each format (compression methods, sizes, names, links, missing parents, nesting) and transformation options",
  "Tests use one or two small fixtures per format.",
  [M + "formats/zip.py", M + "formats/py7zr.py", M + "formats/rar.py", M + "formats/ar.py", M + "formats/asar.py", M + "formats/sqlar.py", M + "formats/squashfs.py",
   M + "formats/libarchive.py", M + "formats/ext4.py", M + "formats/fat.py", M + "formats/git.py", M + "formats/html.py", M + "formats/pdf.py", M + "formats/ogg.py"],
  [("per-format row conversion and opening", M + "formats/")])

P("C27", "Command line options have their documented effect",
  "For every command line, the mounted or indexed result is that of the documented meaning of its arguments: sources and mount point are told apart and inferred as documented, each option reaches the mount with its documented value, index-only runs create complete indexes, unmount and commit affect only what was named, and invalid command lines are refused with an error and no side effect.",
  ["inputs", "configurations"],
  "all combinations of options, sources and mount points",
  "The CLI test file needs FUSE and is not among the stable tests; option combinations are unbounded.",
  ["ratarmount/cli.py", "ratarmount/CLIHelpers.py", "ratarmount/actions.py"],
  [("argument parser", "ratarmount/cli.py"), ("argument post-processing", "ratarmount/CLIHelpers.py"), ("command dispatch", "ratarmount/actions.py")],
  None, ["operations object handed to FUSE", "exit status", "files created"])

P("C28", "A mounted folder mirrors the directory, live or as an indexed snapshot",
  "A bind-mounted folder shows at every moment exactly the current entries, metadata, links, extended attributes and contents of the directory, also while it is being changed and when mounted over itself; with a forced index it shows the tree as of indexing. Symbolic links are shown as links and are never followed when listing.",
  ["inputs", "histories"],
  "all directory trees (names, types, links, permissions) and all interleavings of outside changes with queries",
  "Tests check a few static folders.",
  [M + "formats/folder.py", M + "factory.py"],
  [("direct stat and scandir", M + "formats/folder.py"), ("folder index", M + "formats/folder.py")])

P("C29", "Encrypted archives open only with the right password and then read right",
  "For encrypted archives of each supported kind, if the right password is among those given, in any position and any order, the contents equal the plaintext; if it is not, opening or reading fails with an error and never yields wrong bytes as content.",
  ["inputs", "configurations"],
  "all contents, password strings including special characters, and candidate lists",
  "Tests use one fixed password per fixture.",
  [M + "formats/zip.py", M + "formats/py7zr.py", M + "formats/rar.py", M + "formats/sqlar.py", M + "formats/libarchive.py"],
  [("password search", M + "formats/zip.py"), ("key derivation", M + "formats/sqlar.py")])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in OUT:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(OUT))

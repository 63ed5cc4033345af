#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the statements stay in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })

ODB = "src/object/database.rs"; LOOSE = "src/object/database/loose.rs"
PK = "src/object/database/packed.rs"; PACK = "src/object/database/packed/pack.rs"
IDX = "src/object/database/packed/index.rs"; DELTA = "src/object/database/packed/delta.rs"
RD = "src/object/database/reader.rs"; OP = "src/object/parse.rs"; BUF = "src/parse/buffer.rs"
PRS = "src/parse/parser.rs"; OBJ = "src/object.rs"

prop("C01", "Written objects round-trip under their SHA-1 id",
 "Writing any encoded object (`<kind> <size>\\0<body>`) returns the SHA-1 of exactly those bytes, and from then on the object reads back byte for byte and with the right kind under that id - through the same handle, through a freshly opened repository, and through git itself. Writing the same bytes again returns the same id and leaves the stored object readable and unchanged.",
 ["inputs", "histories"],
 "all four object kinds, bodies of any size (empty to several MB) and compressibility, any order and repetition of writes and reads on any number of handles",
 "The only test writes random strings of at most 1000 bytes once and reads them back through the same private type; it never checks the id, the on-disk format another reader needs, large bodies, rewrites, or real object kinds.",
 [LOOSE, ODB, OBJ, RD, OP, BUF],
 [("content hash -> path objects/xx/yyyy", LOOSE + " write_object"), ("zlib encode / decode", LOOSE + ", " + RD), ("header + length-checked body", OP)],
 ["ObjectDatabase::write_object", "ObjectDatabase::parse_object", "ObjectDatabase::read_object", "git cat-file --batch"])

prop("C02", "Concurrent writers and readers never see a partial object",
 "While any number of threads or processes write the same or different objects, a read of an id returns either not-found or the complete, correct object, never a truncated or corrupt one. Once any write of some content has returned success, every later read of that id succeeds with the complete content, and every concurrent write of valid content succeeds.",
 ["schedules", "inputs"],
 "all interleavings, at system-call granularity, of concurrent writes of the same and of different contents with reads, across threads sharing one handle and across handles",
 "Every existing test is single-threaded; the window between creating an object file and finishing it is never observed by a second actor.",
 [LOOSE, ODB],
 [("publication of a finished object file at its final name", LOOSE + " write_object"), ("already-exists fast path", LOOSE + " write_object")],
 ["ObjectDatabase::write_object", "ObjectDatabase::parse_object"])

prop("C03", "A crash or I/O error during a write never leaves a damaged object",
 "If a write is cut short by a process crash or by an I/O error at any point, the id it was writing is afterwards either absent or complete, all previously stored objects are intact, and writing the same content again succeeds and makes it readable. A write reports success only if the object is completely stored, and reports an error otherwise.",
 ["crash_points", "fault_sequences", "inputs"],
 "every system call of the write path as crash point (before it, after it, and inside a partial write) and as failure point (ENOSPC, EIO, EACCES, EINTR, short writes), for objects of all sizes",
 "No test interrupts or fails a write; success on a healthy file system says nothing about the state left behind at the other points.",
 [LOOSE, ODB],
 [("object becomes visible under its id only when finished", LOOSE + " write_object"), ("error propagation from encoder / file", LOOSE + " write_object")],
 ["ObjectDatabase::write_object", "objects directory after the fault", "ObjectDatabase::parse_object", "git cat-file"])

prop("C04", "Every object in a valid pack reads back exactly",
 "For every valid pack file and its index (index version 1 or 2, with or without 64-bit offsets), each contained object - stored whole, as an offset delta, as a reference delta, or through a chain of deltas of any depth - reads back with exactly the kind and content that git records for its id. The result does not depend on which objects were read before through the same handle, or in which order.",
 ["inputs", "histories"],
 "all well-formed packs: any number of objects, all kinds, sizes and compressibility, all delta encodings and chain shapes, and all read orders and repetitions",
 "One test reads one non-delta object from one committed pack and does not look at its content; deltas, other index formats, chains and the cache are never exercised.",
 [PK, PACK, IDX, DELTA, RD, BUF],
 [("index lookup", IDX + " find_offset"), ("delta chain walk and per-offset cache", PACK + " find_chain / apply_delta"), ("delta command interpreter", DELTA)],
 ["ObjectDatabase::parse_object"],
 [("cache", "decoded objects by pack offset", PACK)])

prop("C05", "Lookup finds exactly the objects the repository holds, wherever they are",
 "Reading an object by its full id succeeds whenever the repository holds it, loose or in any pack, with the same kind and content wherever and however often it is stored, and regardless of what other packs and loose objects exist, of a missing pack directory, and of when a pack was added relative to opening the handle. Reading an id the repository does not hold fails with an error that reports not-found and that id.",
 ["histories", "configurations"],
 "all distributions of objects over loose storage and any number of packs (including duplicates and none at all), and all sequences of additions by git or by this library interleaved with reads, including reads of absent ids",
 "Tests open a repository once, with one object location, and read a single present object; they never look up absent ids, mix locations, or change the repository after opening it.",
 [ODB, PK, LOOSE, OBJ],
 [("packed -> loose -> packed lookup sequence", ODB + " read_object"), ("pack directory refresh", PK + " refresh")],
 ["ObjectDatabase::parse_object", "ReadObjectError::is_not_found", "ReadObjectError::id"],
 [("packs", "packs known to the handle", PK), ("last_refresh", "time of the last directory scan", PK)])

prop("C06", "A concurrent repack never makes an object disappear",
 "If an object is held by the repository at every moment during a read - first loose or in an old pack, then in a new pack written by a concurrent git repack that afterwards deletes the old copy - the read succeeds with the right content, however the steps of one repack interleave with the read.",
 ["schedules", "histories"],
 "all interleavings of the steps of one repack (write pack, write index, delete loose copies, delete old index and pack) with the system calls of a read, on fresh handles and on handles with earlier reads, misses and cached packs",
 "No test changes the repository between two operations, let alone inside one.",
 [ODB, PK, PACK],
 [("retry in packs after a loose miss", ODB + " read_object"), ("pack directory refresh", PK + " refresh"), ("files kept open by a known pack", PACK)],
 ["ObjectDatabase::parse_object"],
 [("last_refresh", "time of the last directory scan", PK)])

prop("C07", "Hostile repository data never crashes, hangs or exhausts the process",
 "Whatever bytes a repository's object files, pack files, pack indexes and reference files contain, every read, parse, peel and enumeration call returns a value or an error: it never panics, overflows the stack, aborts, loops forever, or allocates memory out of proportion to the data actually present. All accessors and Debug output of a successfully parsed object also work without panicking.",
 ["inputs"],
 "arbitrary contents of loose object files, .pack, .idx and reference files, including truncation at any length, any single-byte change, boundary values in every length, offset and count field, cyclic deltas and cyclic symbolic references",
 "Only the reference line parser is fed random bytes (200 bytes, no repository around it); object, pack, index and delta decoding see only well-formed input.",
 [IDX, PACK, DELTA, OP, BUF, PRS, "src/object/commit.rs", "src/object/tree.rs", "src/object/tag.rs", "src/object/signature.rs", "src/reference/parser.rs", "src/reference/symbolic.rs", "src/reference/database.rs"],
 [("bounds-checked parser", PRS), ("length-limited reads", BUF), ("index size and fan-out validation", IDX + " parse"), ("delta command bounds", DELTA)],
 ["ObjectDatabase::parse_object", "ObjectDatabase::read_object", "ReferenceDatabase::*", "Reference::peel", "process exit status, allocator, CPU time"])

prop("C08", "Damaged data is reported, never returned as a different object",
 "When stored object data is truncated, extended or altered so that it no longer decodes to an object of its declared size and kind - a broken compressed stream or checksum, a wrong declared length, a delta whose base size, result size or copy range does not fit - reading it fails with an error. A read that succeeds returns exactly the kind and bytes that the stored data decodes to.",
 ["inputs", "fault_sequences"],
 "all truncations and byte changes of loose object files, packs and indexes, and all mismatches between declared and actual sizes, at every layer (loose header, pack entry header, delta header, delta commands)",
 "No test reads a damaged object and expects an error, apart from three malformed header strings.",
 [OP, BUF, PACK, DELTA, IDX, RD],
 [("length check against the end of the stream", BUF + " read_to_end"), ("delta size and range checks", DELTA), ("zlib checksum", RD)],
 ["ObjectDatabase::parse_object", "ObjectDatabase::read_object"])

prop("C09", "A damaged pack does not affect objects stored elsewhere",
 "If one pack file or pack index is missing its counterpart, truncated, or damaged in any way, every object that is not stored in it - loose or in another, intact pack - still reads back correctly, and an object stored only in it yields an error (not the not-found one while an intact index lists it beside the pack), or exactly what the pack's data still decodes to at the place its index names, never other content. An index and a pack that were not made for each other (the pack id recorded in the index is not that of the pack) are never read together. The same holds if the pack directory itself cannot be opened: loose objects still read back.",
 ["configurations", "inputs", "fault_sequences"],
 "all kinds of damage to one pack or index (missing, empty, truncated, wrong signature, version, counts or ids, random bytes, unreadable), combined with any arrangement of intact packs and loose objects and any read order",
 "No test has a damaged file next to intact ones.",
 [PK, ODB, IDX, PACK],
 [("per-pack open and validation", PK + " Entry::open"), ("lookup over all packs and loose storage", ODB + " read_object, " + PK + " try_read_object")],
 ["ObjectDatabase::parse_object"])

prop("C10", "Commits parse to exactly the fields they contain",
 "For every commit object that git writes and accepts, the parsed commit reports exactly its tree id, its parent ids in order, its author and committer, its encoding header if and only if there is one, and its message byte for byte - whatever other headers it carries (signatures, merge tags, continuation lines; of several author headers, which some tools wrote, the first counts) and whatever encoding its bytes are in.",
 ["inputs"],
 "all commits git can write: 0 to many parents, arbitrary message bytes including empty, header-like and non-UTF-8 messages, multi-line gpgsig and mergetag headers, any encoding header, and commits which end after their headers",
 "One fixed commit and one created by the test are parsed; no merges, roots, signatures, multi-line headers, or unusual messages.",
 ["src/object/commit.rs", "src/object/signature.rs", PRS],
 [("header line parser", "src/object/commit.rs Commit::parse"), ("range-based field accessors", "src/object/commit.rs")],
 ["Commit::tree", "Commit::parents", "Commit::author", "Commit::committer", "Commit::encoding", "Commit::message"])

prop("C11", "Author, committer and tagger identities are reported exactly",
 "For every identity line as git writes it (`name <email> seconds zone`), the reported name, email, timestamp and time zone are exactly the bytes between the delimiters - whatever bytes name and email contain (digits, punctuation, non-UTF-8 encodings, spaces) - and timestamp or zone is absent exactly when the line has none.",
 ["inputs"],
 "all names and emails git accepts (any bytes except NUL, newline and angle brackets, without leading or trailing characters git strips), all timestamps and zones, in commits (author, committer) and tags (tagger)",
 "Tests use one ASCII name and address that begin with a letter.",
 ["src/object/signature.rs", "src/object/commit.rs", "src/object/tag.rs"],
 [("signature regular expression", "src/object/signature.rs")],
 ["Signature::name", "Signature::email", "Signature::timestamp", "Signature::timezone"])

prop("C12", "Annotated tags parse to exactly the fields they contain",
 "For every tag object that git writes and accepts, the parsed tag reports exactly its target id, target kind, name, tagger (absent exactly when the tag has none) and message, byte for byte - whatever other headers follow the tagger.",
 ["inputs"],
 "all tags git can write: targets of all four kinds, any tag name, with and without tagger, arbitrary message bytes (empty, signed, non-UTF-8), with and without further headers (such as a signature for another hash algorithm)",
 "One tag of a commit with an ASCII message is compared.",
 ["src/object/tag.rs", "src/object/signature.rs", PRS],
 [("tag parser", "src/object/tag.rs Tag::parse")],
 ["Tag::tag", "Tag::object", "Tag::kind", "Tag::tagger", "Tag::message"])

prop("C13", "Trees list exactly their entries",
 "For every tree object as git writes it, iterating the parsed tree yields exactly its entries - mode, file name bytes and object id - in stored order and with the right count, whatever bytes the names and ids contain. A tree whose data ends inside an entry is an error, never a shorter list.",
 ["inputs"],
 "all trees: 0 to thousands of entries, all git modes, names with any bytes but NUL and slash, ids with any bytes (including NUL, space and newline bytes)",
 "One fixed two-entry tree and one one-entry tree are checked.",
 ["src/object/tree.rs", PRS],
 [("entry parser", "src/object/tree.rs Tree::parse")],
 ["Tree::entries", "TreeEntry::mode", "TreeEntry::filename", "TreeEntry::id"])

prop("C14", "References resolve to the object git resolves them to",
 "Looking up a reference that exists reports the symbolic target or the fact that it is direct as stored, and peeling it returns the object that git's own resolution of that reference gives, following any chain of symbolic references git follows. A name that does not exist, or that git does not accept as the name of a reference, yields a reference-not-found error, and a chain that ends in a missing reference, a missing object, a reference file that holds no valid id or target, or a cycle yields an error, never an older value. The answer is that of the references as they are when asked, whatever was asked before through the same handle.",
 ["inputs", "configurations"],
 "all reference names git allows (nested, non-ASCII), direct and symbolic values, chains of symbolic references, HEAD attached and detached, targets of every object kind, refs updated between lookups",
 "One test compares the name HEAD points to; nothing resolves a reference to an object, follows a chain, or looks up a missing one.",
 ["src/reference.rs", "src/reference/database.rs", "src/reference/parser.rs", "src/reference/symbolic.rs", "src/reference/direct.rs"],
 [("reference line parser", "src/reference/parser.rs"), ("peel recursion", "src/reference/symbolic.rs"), ("name -> file", "src/reference/database.rs")],
 ["ReferenceDatabase::head", "ReferenceDatabase::reference", "Reference::target", "Reference::name", "Reference::peel"])

prop("C15", "Enumerating references lists exactly the branches, tags and remotes",
 "Listing branches, tags or remote references returns exactly the names git lists under that namespace, each once, as full slash-separated names (a broken reference, or one that leads to nothing, may be listed as well), and listing all references returns exactly the three lists together; a repository that lacks one of the namespaces (for example without remotes) gives an empty list for it, not an error. Each listing is of the references as they are then, also when they changed since the handle was opened or last used.",
 ["configurations", "inputs"],
 "all sets of references: any nesting, name bytes git allows, empty and missing namespace directories, directories without references, lock files left by other git processes, files whose names git does not accept",
 "The only test prints the result (an error today) without asserting anything.",
 ["src/reference/database.rs"],
 [("recursive directory walk", "src/reference/database.rs get_file_paths_from_dir"), ("path -> name", "src/reference/database.rs reference_name_from_file")],
 ["ReferenceDatabase::reference_names", "head_reference_names", "tag_reference_names", "remote_reference_names"])

prop("C16", "Reference lookups never leave the repository",
 "Whatever name is asked for and whatever a symbolic reference stored in the repository points to, reference lookups and peeling open only files inside the repository's git directory: names that are absolute or climb out with `..` yield an error and nothing outside is read.",
 ["inputs"],
 "all names passed by a caller and all targets stored in (possibly hostile) symbolic references, including absolute paths, `..` components in any position, and chains leading to them",
 "No test asks for a name outside refs/ or HEAD.",
 ["src/reference/database.rs", "src/reference/symbolic.rs"],
 [("name -> path under the git directory", "src/reference/database.rs read_reference_file")],
 ["ReferenceDatabase::reference", "ReferenceDatabase::read_reference_file", "ReferenceDatabase::parse_reference", "Reference::peel", "files opened by the process"])

prop("C17", "Object ids convert, compare and abbreviate consistently",
 "Full ids convert to and from hex and raw bytes without loss, reject every malformed hex string with an error, and order like their hex text; hashing gives the SHA-1. An abbreviated id accepts exactly the even-length hex strings of 4 to 40 digits, shows them back in lower case, sorts immediately before the ids it is a prefix of, and compares equal only to an id it spells in full, so that a binary search over sorted ids finds exactly the ids that start with it.",
 ["inputs"],
 "all 20-byte ids, all strings as hex input (any length, case, non-hex and non-ASCII bytes), all abbreviations against all sorted sets of ids",
 "One abbreviation is compared with seven ids.",
 [OBJ],
 [("hex parsing", OBJ + " Id::from_hex / ShortId::from_hex"), ("comparison", OBJ + " ShortId::cmp_id / Id::cmp_short")],
 ["Id", "ShortId"])

prop("C18", "Concurrent readers get the same results as a single reader",
 "Any number of threads reading through one shared repository handle - the same or different objects, loose or packed, with shared delta bases, while packs are being discovered - each get exactly the result a lone reader would get; no call deadlocks, and the accesses are free of data races.",
 ["schedules", "histories"],
 "all interleavings of concurrent reads on a shared handle with cold, partly filled and warm caches, at system-call granularity and under free-running stress",
 "No test uses threads.",
 [PK, PACK, ODB],
 [("file mutex, seek + read", PACK + " find_chain / apply_delta"), ("concurrent maps", PACK + " cache, " + PK + " packs"), ("refresh lock", PK + " refresh")],
 ["ObjectDatabase::parse_object"],
 [("file", "shared seekable buffer of one pack", PACK), ("cache", "decoded objects by pack offset", PACK)])

prop("C19", "Read faults surface as errors, are transient, and short reads are invisible",
 "Short reads and interrupted system calls never change the result of any read. If a system call of a read fails (for example EIO, EMFILE, EACCES), the call either still returns the correct result or returns an error that is not not-found; it never returns wrong content or panics, and once the fault is gone the same handle reads every object and reference correctly again.",
 ["fault_sequences"],
 "every system call made by loose reads, pack and index discovery, packed and delta reads, reference lookup and enumeration, failed one at a time with each errno, or shortened / interrupted in any pattern",
 "The buffer tests interrupt two mock reads; no test fails or shortens a real system call anywhere above the buffer.",
 [BUF, RD, LOOSE, PK, PACK, IDX, "src/reference/database.rs"],
 [("retry on Interrupted", BUF), ("error mapping NotFound vs Io", LOOSE + ", " + ODB), ("no state kept from a failed read", PACK + ", " + PK)],
 ["ObjectDatabase::parse_object", "ReferenceDatabase::reference", "ReferenceDatabase::reference_names", "ReadObjectError::is_not_found"])

prop("C20", "Reads change nothing, and a write adds exactly one object",
 "No read, parse, lookup, peel, enumeration or open call creates, modifies, renames or deletes anything on disk. A successful write adds only the file of that object (and its fan-out directory), leaves no temporary files behind, and never changes the content of any existing file; re-writing an object that is already stored loose changes at most its timestamp.",
 ["histories", "inputs"],
 "all sequences of calls, successful or failing, on healthy and damaged repositories",
 "No test compares the repository before and after an operation.",
 [LOOSE, ODB, PK, "src/reference/database.rs", "src/repository.rs"],
 [("read-only opens", LOOSE + ", " + PACK + ", " + IDX), ("single publication of a new object", LOOSE + " write_object")],
 ["file tree snapshot before / after each call", "system calls made by the call"])

prop("C21", "Readers see a consistent reference while another process changes references",
 "While another process changes references the way git does (a lock file renamed into place, references packed and their loose copies pruned, deleted from packed-refs first, a branch renamed to or from a name below it, objects stored before the reference that names them), looking up or peeling a reference that exists at every moment of the call succeeds with a value it had at some moment during the call, and a listing succeeds with every reference that exists throughout the call, each once, and none that existed at no moment of the call.",
 ["schedules", "histories"],
 "all positions of every file-system step of any sequence of git's reference updates (update-ref, symbolic-ref, pack-refs, delete, rename) between the system calls of a lookup, peel or listing, on fresh and long-lived handles",
 "No test changes a reference at all.",
 ["src/reference/database.rs", "src/reference.rs", "src/reference/symbolic.rs"],
 [("loose first, packed-refs after it", "src/reference/database.rs read_reference_file"), ("directories first, packed-refs last", "src/reference/database.rs reference_names_in_namespace"), ("entries that vanish or change type while listing", "src/reference/database.rs get_file_paths_from_dir")],
 ["ReferenceDatabase::reference", "ReferenceDatabase::head", "Reference::peel", "ReferenceDatabase::reference_names"])

prop("C22", "Calls give back the files and memory they take",
 "A long-lived handle does not accumulate resources: repeating any calls on it (reads, lookups, listings, writes, abandoned readers; successful, not-found or failing; on intact or damaged repositories; with failing system calls) leaves no growing number of open files, mappings, threads, temporary files or live allocations - what is kept is bounded by the contents of the repository (and the packs it had while the handle was open) - and once handles, readers and objects are dropped no file of the repository stays open.",
 ["histories", "fault_sequences"],
 "all sequences of public calls repeated any number of times on one handle, including never-asked-before absent ids, failed reads and writes, and handles opened and dropped in between",
 "Every test makes one or a few calls and exits; none observes open files, memory or leftovers.",
 [ODB, PK, PACK, IDX, LOOSE, "src/reference/database.rs"],
 [("packs are opened once", PK + " scan"), ("file closed with its reader", RD), ("temporary file removed when a write fails", LOOSE + " write_object"), ("cache keyed by entry offset", PACK + " cache")],
 ["open file descriptors and mappings below the repository", "live heap of the calling thread", "files in the repository"])

prop("C23", "Opening a path yields exactly the repository at that path",
 "Repository::open succeeds for exactly those paths whose `.git` is a directory (or a link to one), however the path is written (relative, trailing slash, `.` and `..`, links, spaces, non-UTF-8), reports NotFound with the given path where there is none - also inside another repository, whatever the environment says - and reports other failures of the system as errors, not as NotFound. Each handle answers only from its own repository: objects and references of other repositories opened in the same process never show, and a repository that has nothing but `.git` just has nothing in it.",
 ["inputs", "configurations", "histories"],
 "all spellings of paths, all shapes of .git (missing, file, link, dangling link, loop, bare layout, other name), all interleavings of calls on handles of several repositories that share ids and names",
 "Tests open one existing repository and one missing path.",
 ["src/repository.rs", ODB],
 [("stat of .git decides", "src/repository.rs Repository::open"), ("all paths derive from it", ODB + " open, src/reference/database.rs open")],
 ["Repository::open", "OpenError"])

prop("C24", "Readers and objects a caller holds stay correct whatever else happens",
 "A reader delivers exactly the `<kind> <size>\\0<content>` bytes of its object, whatever buffer sizes and Read methods the caller uses and however many other readers are open, and keeps reporting the end once it is reached; a parsed object keeps showing the same contents. Neither is affected by later reads, writes or lookups, by the object being repacked and its old files removed, by use from another thread, or by dropping the handle it came from.",
 ["histories", "schedules"],
 "all interleavings of opening, reading in pieces, dropping, parsing and re-examining any number of readers and objects with all other calls and with repacking",
 "Tests read one object at a time, at once and to its end.",
 [RD, BUF, PACK, ODB],
 [("owned stream or owned bytes per reader", RD + " ReaderKind"), ("object contents share a frozen buffer", BUF), ("cached bytes are cloned, not lent", PACK + " cache")],
 ["ObjectDatabase::read_object reader()", "ObjectDatabase::parse_object", "Object::data"])

prop("C25", "What is shown of objects, references and errors is what they hold",
 "The debug text of an object (and of a copy of it) contains its id and each of its fields with the value the accessors report, and that of a reference its target; two reference targets are equal exactly when they name the same. An error about an object names the id that was asked for, in its text and by `id()`, and is a not-found error exactly when the object is missing, not when it is damaged. The example programs print the object, the reference, the object a reference leads to or the list of references they are asked for (`head` in any case is HEAD), and end with a failure and a message, not a crash, where there is none.",
 ["inputs"],
 "all objects and references, any bytes in their fields; all arguments of the example programs, also outside of a repository",
 "No test looks at debug texts or error texts or runs the example programs.",
 ["src/object/commit.rs", "src/object/tag.rs", "src/object/tree.rs", "src/object/blob.rs", "src/object.rs", "src/reference.rs", "src/reference/symbolic.rs", "examples/cat-file.rs", "examples/refs.rs"],
 [("debug texts", "impl fmt::Debug in src/object/*.rs"), ("error texts", "src/object.rs ReadObjectError"), ("programs", "examples/")],
 ["Debug of Object, ObjectData, Signature, TreeEntry, Reference", "ReadObjectError::id, is_not_found, Display", "cat-file", "refs"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

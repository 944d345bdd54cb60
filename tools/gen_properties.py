#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

IMP = "KdbxFile::Import / KdbFile::Import return value and exception"
EXP = "bytes of the file written by Export, decoded by an independent codec"

p("C01", "KDB export followed by import returns the same database",
  "For every database the KDB format can represent (any group tree of up to 1000 levels, entries inside groups, at most one attachment per entry, text without NUL bytes, unambiguous local times at second resolution, AES or Twofish), exporting it to KDB and importing the file with the same key yields the same tree: every group's name, icon, flags, four times and position, and every entry's UUID, icon, title, URL, user name, password, notes, four times, attachment name and attachment bytes, in the same order. The cipher, seeds, initialization vector and round count are preserved, and a time of 0 (\"never\") stays 0.",
  ["inputs", "configurations"], "all KDB-representable databases x cipher x key kind",
  "Tests export a handful of fixed sample trees (two levels, small strings) and compare with the library's own operator==; the tree shapes, lengths and times they use never reach the failing combinations.",
  ["src/kdb.cc", "src/group.cc", "src/entry.cc", "src/io.cc"],
  [("level-based tree reconstruction", "src/kdb.cc KdbFile::Import"), ("typed length-prefixed records", "src/kdb.cc ReadGroup/WriteGroup/ReadEntry/WriteEntry"), ("packed time", "src/kdb.cc KdbTime")],
  [IMP, EXP])
p("C02", "KDBX export followed by import returns the same groups and entries",
  "For every database (group trees of up to 1000 levels), exporting it to KDBX and importing the file with the same key yields the same group tree and entries: names, notes, icons, times, flags, usage counts, auto-type settings and associations, all standard and custom string fields, tags, colours, override URL, attachments with their bytes, and the full history of every entry, in the same order. Text is preserved exactly, including leading, trailing or only white space, line breaks of every kind, XML special characters and non-ASCII characters (text without NUL bytes), and so is whether each string field and each attachment is protected. This holds with and without compression and at every content size.",
  ["inputs", "configurations"], "all databases assembled through the public API (UTF-8 text without NUL) x compression x key kind",
  "Tests round-trip about thirty fixed XML-derived samples with trimmed text and small payloads; exact text preservation, nested histories, in-entry attachments and buffer-boundary sizes are not sampled.",
  ["src/kdbx.cc", "src/pugixml.cc", "src/stream.cc", "src/random.cc"],
  [("XML writer/reader pairs", "src/kdbx.cc WriteEntry/ParseEntry, WriteGroup/ParseGroup"), ("protected stream in document order", "src/kdbx.cc ParseProtectedString/WriteProtectedString")],
  [IMP, EXP])
p("C03", "KDBX metadata, icons, binaries and references survive a round trip",
  "Exporting a database to KDBX and importing it again preserves all metadata: database name, description, default user name and their change times, colour, history and master-key settings, memory-protection flags, custom data, custom icons, and the shared attachment pool with each item's bytes and its protection and compression flags. The recycle bin, entry-template group, last selected group, last visible group, each group's last visible entry, and each custom icon reference resolve to the corresponding objects of the imported database itself (the very objects in its tree and icon list), and attachments that shared one pool item still share it. An absent optional reference stays absent.",
  ["inputs", "configurations"], "all metadata contents and all choices of reference targets inside the tree",
  "Tests look at a few metadata fields of fixed files and never check the identity of the referenced objects or large pools.",
  ["src/kdbx.cc", "src/metadata.cc", "src/metadata.hh"],
  [("id to object pools", "src/kdbx.cc binary_pool_, icon_pool_, group_pool_"), ("deferred resolution", "src/kdbx.cc ParseXml, GetGroup")],
  ["Database::meta() accessors and pointer identity with objects reached from Database::root()"])
p("C04", "KDB files interoperate with the published KDB format in both directions",
  "Every well-formed KDB 3 file that an independent implementation of the published format writes (either cipher, password, key file or both, any field order, group ids and tree shape, ignored extension fields, empty attachment placeholders) imports to exactly the data written. Every file the library exports to KDB decodes with an independent implementation to exactly the exported data, with correct record counts, content hash and padding.",
  ["inputs", "configurations"], "all conforming KDB 3 files and all exported databases",
  "Tests use files from one KeePass version and read their own output back with the same code, so a symmetric deviation from the format cannot show.",
  ["src/kdb.cc", "src/cipher.cc", "src/key.cc"],
  [("header and record layout", "src/kdb.cc KdbHeader, KdbTime, field type enums")], [IMP, EXP])
p("C05", "KDBX files interoperate with the published KDBX 3.1 format both ways",
  "Every well-formed KDBX 3.1 file that an independent implementation of the published format writes (any header field order and end marker contents, any block sizes, gzip or none, arbitrary attachment ids, in-pool, in-entry, protected and compressed attachments, protected values, optional elements missing, unknown elements, XML entities, comments and CDATA sections) imports to exactly the data written. Every file the library exports to KDBX decodes with an independent implementation to exactly the exported data, with a valid header hash, block hashes, terminator and padding.",
  ["inputs", "configurations"], "all conforming KDBX 3.1 (AES, Salsa20) files and all exported databases",
  "Tests use files from few writers and read their own output back with the same code, so symmetric deviations and other writers' legal variants cannot show.",
  ["src/kdbx.cc", "src/stream.cc", "src/random.cc", "src/cipher.cc", "src/key.cc"],
  [("header fields, hashed blocks, XML schema", "src/kdbx.cc Import/Export"), ("in-entry attachments", "src/kdbx.cc ParseEntry")], [IMP, EXP])
p("C06", "Only the right key opens a database",
  "A database file imports successfully with key material equivalent to the one it was written with (same password and same key-file key, however the key object was assembled). With any other password, key file, or combination of the two, import fails with the password error and returns no database. This holds for both formats and both ciphers.",
  ["inputs", "configurations"], "all pairs of key material (near misses included) x format x cipher",
  "Tests try one wrong password per sample; near misses, missing or extra key components and every format/cipher combination are not covered.",
  ["src/key.cc", "src/kdb.cc", "src/kdbx.cc", "src/cipher.cc"],
  [("composite key resolution", "src/key.cc CompositeKey::Resolve"), ("content hash / start bytes check", "src/kdb.cc, src/kdbx.cc Import")], [IMP])
p("C07", "Key derivation follows the KeePass key specification",
  "For every password, every supported key file (KeePass XML key file, or 64 hexadecimal digits in either case), their combination, every 32-byte seed and every round count, the derived key equals the one defined by the KeePass specification: SHA-256 component hashes, composite hashing under the two resolution rules, that many rounds of AES-256-ECB under the seed, and a final SHA-256. A key file's contents count as key material whatever its value, including an all-zero key.",
  ["inputs"], "all passwords x key files x seeds x feasible round counts x both resolution rules",
  "Tests only see derivation through whole sample files, with passwords and key files of one shape.",
  ["src/key.cc", "src/cipher.cc", "src/base64.hh"],
  [("Transform", "src/key.cc"), ("key file parsing", "src/key.cc SetKeyFile")], ["Key::Transform return value"])
p("C08", "A corrupted KDBX file is never accepted as different data",
  "If any bytes of a KDBX file are altered, removed, inserted, duplicated or reordered (header included), then importing it with the correct key either throws an exception or returns exactly the original data. No damage yields a database whose content differs from what was saved.",
  ["inputs"], "all corruptions of all exported files (header rounds kept feasible)",
  "Tests include no corrupted KDBX file beyond one bad block stream.",
  ["src/kdbx.cc", "src/stream.cc", "src/cipher.cc"],
  [("header hash", "src/kdbx.cc Import"), ("block index and hash", "src/stream.cc hashed_istreambuf"), ("padding check", "src/cipher.cc decrypt_cbc")], [IMP])
p("C09", "A corrupted KDB file is never accepted as different data",
  "If any bytes of a KDB file are altered, removed, inserted, duplicated or reordered (header and its record counts included), then importing it with the correct key either throws an exception or returns exactly the original data. No damage yields a database whose groups or entries differ from what was saved.",
  ["inputs"], "all corruptions of all exported files (header rounds kept feasible)",
  "Tests include no corrupted KDB file.",
  ["src/kdb.cc", "src/cipher.cc"],
  [("content hash", "src/kdb.cc Import"), ("record counts", "src/kdb.cc Import"), ("padding check", "src/cipher.cc decrypt_cbc")], [IMP])
p("C10", "Arbitrary bytes as database or key file never crash the library",
  "Importing any file as KDB or KDBX, or loading any file as a key file, either succeeds or throws an exception derived from std::exception: it never aborts, accesses memory out of bounds, executes undefined behaviour, overflows the stack or loops without end. The same holds for truncated and mutated copies of valid files.",
  ["inputs"], "all byte strings as files (declared key transformation rounds kept feasible)",
  "Tests feed only well-formed samples.",
  ["src/kdb.cc", "src/kdbx.cc", "src/key.cc", "src/cipher.cc", "src/pugixml.cc"],
  [("header validation", "src/kdb.cc, src/kdbx.cc Import"), ("key file parsing", "src/key.cc SetKeyFile")], ["sanitizers, process exit status, CPU time of Import / SetKeyFile"])
p("C11", "Malformed content behind valid encryption never crashes the library",
  "If a file is correctly encrypted and authenticated but its decrypted content is malformed in any way (wrong field sizes, impossible dates, inconsistent group levels or ids, duplicate or dangling references, missing, repeated or unexpected XML elements, invalid numbers or Base64, damaged compressed data, extreme nesting), then import either succeeds or throws an exception derived from std::exception. It never aborts, accesses memory out of bounds, executes undefined behaviour, overflows the stack or loops without end, and a database it does return can be printed as JSON and exported again without crashing.",
  ["inputs"], "all inner contents of both formats, re-encrypted and re-hashed validly",
  "Tests never get malformed content past the encryption and integrity layers.",
  ["src/kdb.cc", "src/kdbx.cc", "src/stream.cc", "src/base64.hh", "src/iterator.hh"],
  [("field buffers", "src/kdb.cc ReadGroup/ReadEntry"), ("tree reconstruction", "src/kdb.cc Import"), ("XML interpretation", "src/kdbx.cc Parse*")], ["sanitizers, process exit status, CPU time of Import and of ToJson/Export on the result"])
p("C12", "Memory and time of an import are bounded by the real input size",
  "Importing a file uses memory and CPU time proportional to the size of the file and of its decompressed content (apart from the key transformation rounds). A length or count that claims more data than is present never causes memory to be reserved or time to be spent in proportion to the claim.",
  ["inputs"], "all declared lengths and counts in headers, records and blocks",
  "Tests contain no lying length and never look at memory.",
  ["src/kdb.cc", "src/stream.cc", "src/kdbx.cc"],
  [("field reading", "src/kdb.cc ReadGroup/ReadEntry"), ("block reading", "src/stream.cc hashed_istreambuf::underflow")], ["allocator peak and CPU time during Import"])
p("C13", "Export reports every failed write",
  "If any part of the output file cannot be written (disk full, file size limit, I/O error, at whatever byte or call it happens, including the last buffered bytes), Export of either format throws an exception. When Export returns normally, the complete file is on the file system and imports to the exported data, even if individual writes were short or interrupted.",
  ["fault_sequences", "inputs"], "every failing byte offset and write call of every export",
  "No test injects a write error.",
  ["src/kdb.cc", "src/kdbx.cc", "src/cipher.cc", "src/io.cc"],
  [("output stream state", "src/kdb.cc Export, src/kdbx.cc Export")], ["exception from Export, bytes in the file"])
p("C14", "The hashed block stream is lossless and rejects damage",
  "Whatever bytes are written to the hashed block output stream, in whatever chunks and with whatever block size, reading the result through the hashed block input stream yields exactly those bytes followed by end of file, and the result matches the published block layout. If a block's index, size, hash or data is altered, or the stream is cut short, the reader never delivers altered bytes: it delivers at most a prefix of the intact blocks and does not report a clean end after it.",
  ["inputs"], "all byte strings x chunkings x block sizes x alterations",
  "Tests use five fixed blobs with one block size and one bad file.",
  ["src/stream.cc", "src/stream.hh"],
  [("hashed_istreambuf/hashed_ostreambuf", "src/stream.cc")], ["bytes and state of std::istream/std::ostream on the stream buffers"])
p("C15", "The gzip stream is lossless and interoperates with zlib",
  "Whatever bytes are written to the gzip output stream, in whatever chunks, reading the result through the gzip input stream yields exactly those bytes, and so does zlib; whatever valid gzip data zlib produces at any level and however it is split in reads, the gzip input stream yields exactly the original bytes. Damaged or truncated gzip data is reported: altered or missing bytes are never followed by a clean end of stream.",
  ["inputs"], "all byte strings x chunkings x compression levels x damage",
  "Tests use four fixed sizes.",
  ["src/stream.cc", "src/stream.hh"],
  [("gzip_istreambuf/gzip_ostreambuf", "src/stream.cc")], ["bytes and state of std::istream/std::ostream on the stream buffers"])
p("C16", "AES and Twofish compute the standard block functions",
  "For every 256-bit key and every 16-byte block, AES and Twofish encryption give the standard's result and decryption is its inverse, independent of how often and in which order the cipher object was used before. Electronic-codebook processing of 32 bytes equals two independent block operations.",
  ["inputs", "histories"], "all keys and blocks, all call orders on one object",
  "Tests hold a few published vectors with simple keys.",
  ["src/cipher.cc", "src/cipher.hh"],
  [("AesCipher, TwofishCipher, encrypt_ecb/decrypt_ecb", "src/cipher.cc")], ["Encrypt/Decrypt/encrypt_ecb/decrypt_ecb results against independent implementations"])
p("C17", "CBC with PKCS#7 padding is correct and rejects invalid padding",
  "CBC encryption of any byte string of any length (empty and multiples of 16 included) under AES or Twofish equals standard CBC with PKCS#7 padding, and decryption of it returns exactly the original bytes. Decrypting ciphertext whose length is not a positive multiple of 16 or whose final padding is not valid PKCS#7 (pad length 0, above 16, or inconsistent bytes) fails with an exception.",
  ["inputs"], "all plaintexts, keys, initialization vectors, ciphers and malformed ciphertexts",
  "Tests use a few fixed lengths with valid padding.",
  ["src/cipher.cc"],
  [("encrypt_cbc/decrypt_cbc", "src/cipher.cc")], ["stream contents and exceptions of encrypt_cbc/decrypt_cbc"])
p("C18", "Base64 coding is standard, lossless and rejects foreign characters",
  "Encoding any byte string gives the standard Base64 text (with padding, no line breaks), and decoding that text, also with white space inserted anywhere, returns exactly the original bytes. Text whose length without white space is not a multiple of four, or that contains a character outside the alphabet before its padding, is rejected with the format error; decoding into a fixed-size destination never writes outside it.",
  ["inputs"], "all byte strings and all texts",
  "Tests use the seven RFC vectors.",
  ["src/base64.hh", "src/iterator.hh"],
  [("base64_encode/base64_decode", "src/base64.hh"), ("bounds_checked", "src/iterator.hh")], ["return values and exceptions of base64_encode/base64_decode"])
p("C19", "Secrets never appear in clear in an exported file",
  "No text or attachment content of a database appears in the bytes of an exported file, in either format, for any cipher and key. Inside a decrypted KDBX file, every string field and attachment marked protected (history versions and custom fields included) is still masked by the inner random stream and flagged as protected, so its clear text occurs nowhere in the XML; importing and exporting again keeps it so.",
  ["inputs", "histories"], "all databases x protection choices x export/import histories",
  "Tests compare values after import, where a secret written in clear looks the same.",
  ["src/kdbx.cc", "src/random.cc", "src/kdb.cc", "src/cipher.cc"],
  [("WriteProtectedString, WriteMeta", "src/kdbx.cc")], [EXP])
p("C20", "Reusing codec and key objects never changes results",
  "A file object (KDB or KDBX) that has already performed any sequence of imports and exports, successful or failed, on any databases gives for the next operation the same result as a fresh object. Likewise a key object depends only on the last successfully set password and key file, and a failed attempt to load a key file leaves it unchanged.",
  ["histories"], "all operation sequences including failures",
  "Tests use each object for one operation.",
  ["src/kdbx.cc", "src/kdb.cc", "src/key.cc"],
  [("Reset at operation start", "src/kdbx.cc KdbxFile::Reset")], ["results of operation sequences on one object against fresh objects"],
  [("binary_pool_, icon_pool_, group_pool_, header_hash_", "per-operation state of a KdbxFile", "src/kdbx.hh")])
p("C21", "Independent objects can be used from different threads at once",
  "Threads that each use their own file objects can import, export and print databases at the same time without data races and with the same results as when run one after the other. This includes threads that share one key object or one database object that none of them modifies.",
  ["schedules", "inputs"], "all interleavings of import, export, key derivation, JSON and UUID generation",
  "Tests are single-threaded.",
  ["src/kdbx.cc", "src/kdb.cc", "src/util.cc", "src/key.cc"],
  [("no shared mutable state", "src/*.cc; broken by localtime/gmtime static buffers")], ["race detector; results against sequential runs"])
p("C22", "Timestamps mean the same instant in every time zone",
  "KDBX stores times as UTC text and importing or exporting it gives the same instants whatever the process time zone. KDB stores local times: exporting writes the local calendar time of each instant in the process time zone (daylight saving included) and importing in the same zone returns the same instant for every unambiguous time from 1970 to the format's year limit; the KDB and KDBX \"never\" values map to 0 and back.",
  ["inputs", "configurations"], "all times x time zones",
  "Tests run in one time zone with a few dates.",
  ["src/kdb.cc", "src/kdbx.cc", "src/util.cc"],
  [("KdbTime", "src/kdb.cc"), ("ParseDateTime/WriteDateTime", "src/kdbx.cc")], [IMP, EXP])
p("C23", "Equality of groups and entries is exact structural equality",
  "Two groups or entries compare equal exactly when all their properties, attachments, custom fields, history, and, recursively and in order, child groups and entries are equal and their references to custom icons and last visible entries (none of them, or one still existing object) are the same; changing, adding or removing any one of these makes them unequal in both directions. (Nothing is stated about references to distinct objects of equal content.) Comparison is reflexive and symmetric and never reads outside the objects.",
  ["inputs"], "all pairs of trees, in particular pairs differing in one place or in the number of children",
  "Tests only compare trees expected to be equal.",
  ["src/group.cc", "src/entry.cc", "src/util.hh", "src/entry.hh", "src/security.hh"],
  [("indirect_equal and operator==", "src/util.hh, src/group.cc, src/entry.cc")], ["operator== and operator!= results, sanitizers"])
p("C24", "JSON output is well-formed and states the database faithfully",
  "For every group, entry and attachment holding UTF-8 text, the JSON text is syntactically valid, and parsing it gives back exactly the names, text fields, icons, flags, times (local time; a time that is not set is left out), nested groups and non-meta entries of the object in order. Quotes, backslashes, line breaks and control characters in any value are escaped.",
  ["inputs"], "all trees with arbitrary UTF-8 text",
  "The sample data contains no character that needs escaping.",
  ["src/group.cc", "src/entry.cc", "src/util.cc"],
  [("ToJson", "src/group.cc, src/entry.cc")], ["ToJson return value parsed by an independent JSON parser"])
p("C25", "Generated identifiers and start bytes do not repeat",
  "Identifiers generated for new groups and entries, and the random start bytes written in exported KDBX files, are drawn from the whole 128-bit or 256-bit space: among hundreds of thousands of draws, within and across processes and threads, none repeats and every byte position takes all values about equally often.",
  ["histories", "configurations"], "all sequences of object creations and exports",
  "No test draws more than a few identifiers.",
  ["src/util.cc", "src/random.hh"],
  [("generate_uuid, random_array", "src/util.cc, src/random.hh")], ["UUIDs of new objects, generated arrays, start bytes in exported files"])
p("C26", "No operation leaks or uses uninitialised data",
  "Importing, exporting, comparing and printing databases, whether the operation succeeds or throws, releases all memory and file descriptors it acquired once the results are destroyed. No decision and no output byte depends on uninitialised memory.",
  ["inputs", "histories"], "all successful and failing operations",
  "Tests do not observe memory.",
  ["src/kdbx.cc", "src/kdb.cc", "src/stream.cc", "src/cipher.cc", "src/metadata.hh"],
  [("RAII", "src/stream.cc z_stream owners, shared_ptr trees")], ["allocator balance, open descriptors, valgrind memcheck reports"])
p("C27", "Export does not modify the database and repeated saving is stable",
  "Export leaves the database object unchanged and import leaves the file unchanged. Saving, loading and saving again any number of times gives files with the same data, and exporting the same database twice gives files that decode to the same data (for KDB, byte-identical files).",
  ["inputs", "histories"], "all databases and save/load sequences",
  "Tests perform one save/load.",
  ["src/kdb.cc", "src/kdbx.cc"],
  [("const Database& export", "src/kdb.cc, src/kdbx.cc Export")], ["database accessors before/after, file bytes before/after, decoded files"])
p("C28", "Failures are classified correctly and unsupported features are refused",
  "A missing file is reported as file-not-found, an unwritable destination as an I/O error, and a file that is not of the expected format (wrong signature, unsupported version, unknown cipher, compression, random stream, header field or record type, malformed XML or missing top elements, orphaned entry, impossible group levels, bad header hash) as a format error, with the right key and otherwise valid encryption. No unsupported feature is silently accepted.",
  ["inputs", "configurations"], "all such defects injected in otherwise valid files",
  "Tests check a few of these on fixed files.",
  ["src/kdb.cc", "src/kdbx.cc", "src/exception.hh"],
  [("header switch", "src/kdb.cc, src/kdbx.cc Import")], ["type of the exception thrown by Import/Export"])
p("C29", "Converting between KDB and KDBX preserves the shared data",
  "Importing a KDB file and exporting the database as KDBX, or importing a KDBX file and exporting it as KDB (with a 16-byte seed and at most one attachment per entry), and importing the result preserves the group tree and the data both formats can hold: group names, icons and times; entry UUIDs, icons, titles, URLs, user names, passwords, notes, times and attachment names and bytes. Converting back to the original format gives the same data again.",
  ["inputs", "histories"], "all databases of the common subset x conversion sequences",
  "No test converts between formats.",
  ["src/kdb.cc", "src/kdbx.cc"],
  [("common object model", "src/database.hh, src/group.hh, src/entry.hh")], [IMP])
p("C30", "A read error never yields a partial database or a different key",
  "If reading a database file fails at any point (I/O error from the operating system at any call), import throws or returns the complete database, never a part of it; short and interrupted reads change nothing. If reading a key file fails, loading it throws or sets exactly the key in the file.",
  ["fault_sequences", "inputs"], "every failing or shortened read call of every import",
  "No test injects a read error.",
  ["src/kdb.cc", "src/kdbx.cc", "src/key.cc", "src/cipher.cc"],
  [("stream state checks", "src/cipher.cc block_transform, src/io.hh consume")], [IMP])
p("C31", "The inner random stream is standard Salsa20 however it is consumed",
  "The Salsa20 cipher produces the standard key stream for every key, nonce and position, and the obfuscator built on it masks data with exactly that stream continuing across calls: splitting the data into pieces of any sizes, as strings or byte vectors, gives the same bytes as one call, and applying the stream twice restores the data.",
  ["inputs", "histories"], "all keys, nonces, data and call splits",
  "Tests check a few fixed vectors and no split.",
  ["src/random.cc", "src/random.hh", "src/cipher.cc"],
  [("RandomObfuscator", "src/random.cc"), ("Salsa20Cipher", "src/cipher.cc")], ["Process results against an independent Salsa20"],
  [("buffer_, buffer_pos_", "unused key stream bytes", "src/random.hh")])
p("C32", "Export of any database completes or throws, and never crashes",
  "Exporting any database object assembled through the public API, however incomplete or unsuitable for the format (no metadata, no root group, no optional references, expired references, attachments without data, several attachments per entry, seeds of any length, unsupported cipher, deep trees, entries without a place in the format), either produces a file or throws an exception derived from std::exception. It never aborts the process or executes undefined behaviour, and if it returns normally the file imports again.",
  ["inputs", "configurations"], "all API-assembled databases without null list elements or cycles",
  "Tests export only databases they imported.",
  ["src/kdb.cc", "src/kdbx.cc"],
  [("argument checks", "src/kdb.cc Export, src/kdbx.cc Export, WriteMeta, WriteEntry")], ["exception or file of Export, sanitizers, process exit status"])
p("C33", "A refused export leaves the existing file as it was",
  "If Export throws for any reason other than a failure to write the destination (the database cannot be represented in the format: unsupported cipher or seed, several attachments per entry, times or round counts out of range, too deep nesting, missing root), a file that already exists at the destination keeps its exact content, and where there was none no file is left behind. This holds for both formats, for fresh and reused file objects.",
  ["inputs", "configurations"], "all unsuitable databases x destinations with and without an existing file",
  "No test exports an unsuitable database.",
  ["src/kdb.cc", "src/kdbx.cc"],
  [("destination opened after the content is complete", "src/kdb.cc Export, src/kdbx.cc Export")], ["destination file before and after a throwing Export"])
p("C34", "Edits made to a loaded database are saved exactly",
  "Take a database that was imported from a file (written by this library or another program) and change it through the object interface in any sequence: set fields of entries, history entries and groups, add entries, subtrees, attachments, custom fields, associations and history, rename or replace attachments and pool items, move, reorder and delete parts of the tree by rebuilding groups, change metadata and references, replace the metadata object, change header settings or the key. Saving it, with a fresh file object or the one that loaded it, writes a file whose content is exactly the edited state: every edit is there, nothing unedited changed, and an old value that was replaced does not come back. This also holds when edits and saves alternate over several cycles, continuing with the objects in memory or with the reloaded ones.",
  ["inputs", "histories"], "all sequences of edits and saves on all representable databases",
  "Tests export databases exactly as they imported them.",
  ["src/kdb.cc", "src/kdbx.cc", "src/group.cc", "src/entry.cc", "src/metadata.cc"],
  [("setters and Add functions", "src/entry.hh, src/group.hh, src/metadata.hh, src/database.hh"), ("writers", "src/kdb.cc Export, src/kdbx.cc WriteXml")], ["object state after edits, independently decoded file, re-imported objects"],
  [("binary_pool_, icon_pool_, group_pool_", "identity of shared objects between import and export", "src/kdbx.hh")])
p("C35", "Whatever was accepted can be saved again and comes back unchanged",
  "If Import returns a database, whatever was odd about the file (missing, repeated, reordered, truncated or nonsensical records, elements, attributes and values behind correct encryption), then the object tree is sound (no missing elements, no element in two places), exporting it in the same format succeeds, and the exported file imports as an equal database. Only a time outside the format's range may make the export throw; an attachment without data may come back with empty data, and a reference to a group that the file does not contain may come back resolved or not.",
  ["inputs"], "all accepted files, well-formed or not",
  "Tests import intact files only.",
  ["src/kdb.cc", "src/kdbx.cc"],
  [("ParseXml, ParseGroup, ParseEntry, ParseMeta", "src/kdbx.cc"), ("ReadGroup, ReadEntry", "src/kdb.cc")], ["imported object tree, result of exporting it, re-imported objects"])
p("C36", "An operation leaves nothing behind but its result",
  "Exporting writes only the file the given path leads to: no other file is created (not even for a while), changed or removed, whether the export succeeds, is refused or fails half-way; an existing destination keeps its permissions, its other names and, if the path is a symbolic link, the link; a new one gets no more permissions than the process's mask allows. Importing a database or reading a key file, successfully or not, changes no file at all and opens none for writing. No operation writes to standard output or standard error, starts processes, uses the network, or changes the environment, locale, working directory, file mask, signal handling or set of open files and threads. The text of an error never contains passwords, key material, field values or attachment contents, nor parts of them.",
  ["inputs", "fault_sequences"], "all operations on all files, intact or not, and all kinds of destination",
  "Tests look at results only, never at the directory, the streams, the process or the error texts.",
  ["src/kdb.cc", "src/kdbx.cc", "src/key.cc"],
  [("Import, Export", "src/kdb.cc, src/kdbx.cc"), ("SetKeyFile", "src/key.cc"), ("PrintXml", "src/kdbx.cc")], ["directory snapshots, intercepted file and process calls, captured output, process state, exception texts"])
p("C37", "The process's locale does not change what is read or written",
  "Whatever global C or C++ locale the program has installed (digit grouping, other decimal signs, other character classes, UTF-8), exporting writes the same database, importing reads the same database, keys and key files give the same derived key, and ToJson gives the same text as under the classic locale; malformed files and key files are refused, or read, in the same way.",
  ["inputs", "configurations"], "all databases, keys and global locales",
  "Tests run under the classic locale only.",
  ["src/entry.cc", "src/group.cc", "src/kdb.cc", "src/kdbx.cc", "src/key.cc", "src/base64.hh"],
  [("ToJson", "src/entry.cc, src/group.cc"), ("time and number conversion", "src/kdbx.cc"), ("base64_decode", "src/base64.hh")], ["decoded files, imported objects, derived keys, JSON text under other locales"])
p("C38", "Value wrappers and stream primitives do what they say for every value",
  "A protected value keeps value and protection together through construction, copying, moving, assignment and comparison; set_value leaves the protection and set_protected the value alone. A timed value does the same with its time, and assigning a plain value sets the time to now. Attachment data keeps contents, protection and compression, each changed only by its own setter; changing a copy of any of these never changes the original. Numbers, bytes and text written to a stream are little-endian and read back equal, and reading beyond the end throws. A bounded copy throws exactly when the source is longer than the container and never writes beyond it. A depth-first walk visits every group below the start once, parents first, in order, with its depth.",
  ["inputs", "histories"], "all values and operation sequences",
  "Tests cover single uses of a few of these.",
  ["src/security.hh", "src/temporal.hh", "src/binary.hh", "src/icon.hh", "src/io.hh", "src/io.cc", "src/iterator.hh", "src/util.hh"],
  [("protect, temporal, Binary, Icon", "src/security.hh, src/temporal.hh, src/binary.hh, src/icon.hh"), ("consume, conserve", "src/io.hh, src/io.cc"), ("bounds_checked_iterator, dfs, clamp", "src/iterator.hh, src/util.hh")], ["values after every operation, stream bytes, visiting order"])

p("C39", "Saving, printing and comparing cost in proportion to the database",
  "The memory that exporting a database takes is bounded by a constant plus a fixed multiple of the file written, and the CPU time of exporting it, of printing it as JSON and of comparing it with another grows in proportion to the size of the database, not faster, whatever the database consists of: many groups (wide or nested), entries, fields, history versions, attachments sharing or not sharing pool items, icons, associations, custom data items, or long texts and large attachments. (Nesting depth multiplies the indentation of JSON, and the transform rounds of the key are left out.)",
  ["inputs"], "all databases in both formats",
  "Tests use databases of a few entries.",
  ["src/kdb.cc", "src/kdbx.cc", "src/group.cc", "src/entry.cc", "src/format.hh", "src/base64.hh"],
  [("WriteEntry, WriteGroup, WriteMeta", "src/kdbx.cc"), ("WriteGroup, WriteEntry", "src/kdb.cc"), ("ToJson", "src/group.cc, src/entry.cc")], ["allocator peak and CPU time of Export, ToJson and operator=="])

p("C40", "The sample program shows what a file holds",
  "Given one file name, the sample program reads the file with the password \"password\", as KDB if the name ends in .kdb and as KDBX otherwise, and prints the JSON text of everything in it to standard output, followed by a line end, with exit status 0. If the file cannot be opened, read or decrypted, it prints a line starting with \"error: \" to standard error and nothing to standard output, and no exception leaves it; with any other number of arguments it does the same and its exit status is not 0.",
  ["inputs"], "all files and file names",
  "No test runs the sample program.",
  ["sample/sample.cc", "src/group.cc", "src/entry.cc"],
  [("main", "sample/sample.cc"), ("ToJson", "src/group.cc, src/entry.cc")], ["captured standard streams and exit status of the sample's main function"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for every property check.py has a check for."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
BASE = "runtime monitoring: the real library under ASan/UBSan and libstdc++ assertions on generated workloads; "
T = {
 "C01": (BASE + "field-by-field comparison of an independent model with the re-imported database", "random databases, KDB"),
 "C02": (BASE + "field-by-field comparison of an independent model with the re-imported database", "random databases, KDBX; white space at text edges is a known finding"),
 "C03": (BASE + "comparison of metadata, pool and reference identity after re-import", "random metadata, pools and references"),
 "C04": (BASE + "differential against an independent KDB codec in both directions", "random databases and file styles"),
 "C05": (BASE + "differential against an independent KDBX 3.1 codec in both directions", "random databases and file styles; white space at text edges is a known finding"),
 "C06": (BASE + "import with the right, equivalent and near-miss keys; outcome oracle", "random key pairs incl. one-bit differences, swapped and missing parts"),
 "C07": (BASE + "differential of derived keys against an independent implementation, plus whole-file decoding", "random passwords, key files, seeds, rounds"),
 "C08": (BASE + "damage injection into files, oracle: exception or exactly the original data", "random and exhaustive-per-position damage"),
 "C09": (BASE + "damage injection into files, oracle: exception or exactly the original data", "random and exhaustive-per-position damage"),
 "C10": (BASE + "hostile bytes and structure-aware mutation; crash, sanitizer, hang and exception-type monitors", "mutation and truncation of valid files"),
 "C11": (BASE + "hostile content behind correct encryption; crash, sanitizer, hang and exception-type monitors", "grammar-based and byte-level hostile content"),
 "C12": (BASE + "allocation and CPU accounting against bounds linear in the real input", "lying lengths and counts, scaling inputs"),
 "C13": ("fault injection at every write call and byte offset under a system-call interposer and file size limits; outcome oracle by independent decoding", "all faults of the write path for the sampled databases"),
 "C14": (BASE + "differential against an independent block codec, damage oracle", "random data, block sizes, chunkings, damage"),
 "C15": (BASE + "differential against zlib, damage oracle", "random data, levels, chunkings, damage"),
 "C16": (BASE + "differential against independent AES (EVP) and Twofish (from the paper)", "random and structured keys, blocks and call orders"),
 "C17": (BASE + "differential against independent CBC/PKCS#7, invalid padding oracle", "random texts, all padding defects"),
 "C18": (BASE + "differential against an independent Base64, malformed-text oracle", "random data and malformed texts"),
 "C19": (BASE + "marker search in files and decrypted content, protection flags by independent decoding", "random databases with unique secrets"),
 "C20": (BASE + "reused object against fresh object, over random histories with failures", "random operation sequences"),
 "C21": ("ThreadSanitizer on concurrent imports, exports and prints, plus comparison with sequential results", "random thread programs with injected delays"),
 "C22": (BASE + "own calendar and POSIX time-zone arithmetic against file contents and imported instants", "transition-seeking instants in 12 zones"),
 "C23": (BASE + "equality of objects against equality of independent models, single mutations", "random objects and mutations"),
 "C24": (BASE + "strict JSON parser and comparison with the model", "random objects with hostile text"),
 "C25": ("monitoring of draws: duplicates and byte distribution over processes and threads", "hundreds of thousands of draws"),
 "C26": (BASE + "heap and descriptor balance per operation, plus valgrind memcheck on the plain build", "random operations incl. failing ones"),
 "C27": (BASE + "model before/after, generations decoded independently", "random databases, 2-4 generations"),
 "C28": (BASE + "one defect per otherwise valid file; exception-class oracle", "44 kinds of defects on random files"),
 "C29": (BASE + "model comparison across format conversions", "random databases representable in both formats"),
 "C30": ("fault injection at every read call under a system-call interposer; outcome oracle against the model", "all faults of the read path for the sampled files"),
 "C31": (BASE + "differential against an independent Salsa20", "random keys, nonces, positions and splits"),
 "C36": (BASE + "directory snapshots, intercepted file and process calls, captured standard streams, process state and marked secrets around every operation", "random databases, keys, damaged and malformed files, eight kinds of destination"),
 "C37": (BASE + "the same operation under the classic and another global locale, independent decoder and derivation", "seven locales (facets of this harness and C.utf8; no others are installed)"),
 "C40": (BASE + "the sample's main function called on independently written files, captured streams against the model and a strict JSON parser", "random databases, file names, unreadable files and argument lists"),
 "C38": (BASE + "operation sequences on wrappers and primitives beside an independent model", "random sequences, boundary numbers"),
 "C34": (BASE + "parallel edits of objects and an independent model; comparison of objects, decoded file and re-import after every save", "random edit sequences over one to four save cycles, both formats"),
 "C35": (BASE + "import of mutated sealed content, soundness of the tree, export and comparison after re-import", "grammar-based and byte-level odd content"),
 "C33": (BASE + "destination file compared before and after every refused export", "random API-assembled databases, fresh and reused file objects, three kinds of destination"),
 "C39": (BASE + "allocator and CPU-time monitors around export, printing and comparison at two sizes", "37 kinds of databases in both formats; growth ratio, repeated before it is believed"),
 "C32": (BASE + "export of incomplete and unsuitable objects; crash, exception-type and re-import monitors", "random API-assembled databases"),
}
checks = []
for pid, s in check.SPEC.items():
    t, n = T[pid]
    checks.append(dict(property=pid, quick_cmd="python3 check.py %s" % pid, thorough_cmd="python3 check.py %s --tier thorough" % pid, technique=t, level=s["level"], level_note=n))
checks.sort(key=lambda c: c["property"])
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[]), f, indent=1)
    f.write("\n")
print(len(checks), "checks; without:", [k for k in T if k not in check.SPEC])

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand when properties change)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L, S = "src/lib.rs", "src/structures/"
TESTS = "The existing tests decode a handful of captured tables and hand-written structures; "
P = []


def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": qtext},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}})


ALL = [L, "src/bitfield.rs", S]
prop("C01", "Decoding never reads outside the caller's buffer",
     "Whatever bytes are given, searching for an entry point, walking the table, decoding any structure, looking up strings and using the results reads only memory inside the supplied buffer (or inside the value at hand). Every text handed out is valid UTF-8.",
     "all buffers of any length and content, all entry points (found or built by hand), all offsets and indices",
     TESTS + "an over-read needs a structure that is shorter than its version suggests or sits at the end of the buffer, and does not fail a test even when it happens.",
     ALL, [("packed layout reads guarded by length", L + " let_as_struct!"), ("record conversions", S + "003_enclosure.rs"), ("slices cut from the buffer", L + " Structures::next")])
prop("C02", "Search, walk, decoding and lookups never panic",
     "Searching a buffer for an entry point, walking a structure table, decoding any structure and looking up strings or raw values never panic, whatever the bytes, the entry point's contents and the arguments; arithmetic never overflows either. Malformed input ends in an error value or an absent field.",
     "all buffers, all entry points, all offsets, sizes and indices",
     TESTS + "a panic needs one specific length, version or count combination out of the whole input space.",
     ALL, [("checked offsets", L + " RawStructure::get"), ("length checks before slicing", L + " Structures::next"), ("search bounds", L + " EntryPoint::search")])
prop("C03", "Using decoded values never panics",
     "Converting, comparing, iterating, doing arithmetic on and printing any value a decoder can return never panics and never overflows.",
     "all values of the decoded types, including those only malformed or vendor specific tables produce",
     TESTS + "they print and convert only the values of those tables.",
     ALL, [("conversions and Display implementations", S), ("bit field iterators", "src/bitfield.rs")])
prop("C04", "Every iteration moves forward, ends, and stays ended",
     "A walk over any table yields finitely many items, and so do the string lists, record lists and bit-field iterations. After a walk has reported its end, a framing error or (from version 3 on) the end-of-table structure, it yields nothing more. However an iteration is driven (step by step, by skipping or counting, or continued from a clone) it goes through the same items.",
     "all buffers and entry points; all histories of calls to next",
     TESTS + "an endless walk needs a structure whose extent is computed as zero or a position that wraps.",
     [L, "src/bitfield.rs", S], [("walk position", L + " Structures::next"), ("string iteration", L + " StructureStrings::next"), ("record iterators", S + "003_enclosure.rs, 009_system_slots.rs, 014_group_associations.rs, 015_system_event_log")], over=("inputs", "histories"))
prop("C05", "The walk frames structures exactly as the bytes lay them out",
     "The n-th step reports the structure that starts where the previous one's string area (terminated by a double zero byte) ended, with that structure's own type, length, handle and formatted bytes and the table's version. Formatted areas lie before the smaller of the declared table length and the buffer's end: a header length below four or reaching to or past that limit, and a string area without terminator in the buffer, are reported as errors carrying the structure's offset. The walk ends when fewer than four bytes remain before the limit.",
     "all buffers, all entry points, any number of steps",
     TESTS + "framing is a relation between all byte positions of arbitrary tables and arbitrarily long walks.",
     [L], [("structure walk", L + " Structures::next"), ("string area end", L + " find_nulnul")], over=("inputs", "histories"))
prop("C06", "An entry point is accepted exactly when it is well-formed",
     "Searching a buffer considers the first paragraph (16-byte aligned) that starts with an entry-point anchor of either generation. The result is that entry point exactly when its fixed part and its declared length lie inside the buffer, the declared length covers the fixed part, the major version is at least two and the bytes over the declared length sum to zero; otherwise it is the error that names the first of these that fails, and 'not found' exactly when no paragraph starts with an anchor.",
     "all buffers of any length, all anchor positions",
     TESTS + "acceptance is a predicate on up to 255 bytes at any offset.",
     [L], [("search", L + " EntryPoint::search"), ("anchor scan", L + " find_signature")])
prop("C07", "Entry point fields and accessors report the stored bytes",
     "For an accepted entry point every field equals the little-endian value at its specified offset, the generation-independent accessors agree with those fields (the 32-bit address and 16-bit length widened without change), and versions compare by major, then minor number.",
     "all accepted buffers, all entry point values, all pairs of versions",
     TESTS + "offset or width slips only show for values the samples do not contain.",
     [L], [("accessors", L + " EntryPoint"), ("version order", L + " SmbiosVersion")])
prop("C08", "The type code alone selects how a structure is presented",
     "Each well-framed structure is presented as the kind its type code names, and codes without a dedicated decoder come out as raw structures that keep code, length, handle, version and formatted bytes. A value fetched from a raw structure by its specified offset is exactly the little-endian bytes there, and an error exactly when they do not lie inside the formatted area after the header.",
     "all 256 type codes, all structures, all offsets and widths",
     TESTS + "they contain few type codes and fetch few offsets.",
     [L], [("dispatch", L + " Structures::next"), ("raw access", L + " RawStructure::get, get_slice, get_string")])
FIELD = "Every field of a decoded structure of this group is the specified function of the bytes at the offset the SMBIOS specification gives that field (little-endian, with the specified masks and units), and depends on no other byte except the documented version and length conditions."
for i, (id, title, what, files) in enumerate([
    ("C09", "Firmware, system, baseboard and enclosure fields are exact", "types 0, 1, 2 and 3", ["000_bios.rs", "001_system.rs", "002_baseboard.rs", "003_enclosure.rs"]),
    ("C10", "Processor and cache fields are exact", "types 4 and 7", ["004_processor.rs", "007_cache.rs"]),
    ("C11", "Ports, slots, languages, groups, event log fields are exact", "types 8, 9, 11, 12, 13, 14 and 15 with their lists of records", ["008_port_connector.rs", "009_system_slots.rs", "011_oem_strings.rs", "012_system_configuration_options.rs", "013_bios_language.rs", "014_group_associations.rs", "015_system_event_log/mod.rs"]),
    ("C12", "Memory, pointing device and battery fields are exact", "types 16 to 22", ["016_physical_memory_array.rs", "017_memory_device.rs", "018_memory_error_32.rs", "019_memory_array_mapped_address.rs", "020_memory_device_mapped_address.rs", "021_built_in_pointing_device.rs", "022_portable_battery.rs"]),
]):
    prop(id, title, FIELD + " The group: " + what + ".",
         "all contents of all structures of these types, all lengths, all SMBIOS versions",
         TESTS + "a shifted offset, wrong width or wrong mask agrees with them whenever the sample bytes happen to match.",
         [S + f for f in files], [("decoder of the type", S + f) for f in files])
prop("C13", "A field is present exactly when version and length provide it",
     "An optional field is reported present exactly when the table's SMBIOS version defines it and the structure is long enough to hold it (for the types that look at both), and (where the specification reserves a value to say so) does not hold the value that marks it as not available; it is absent otherwise, never made up from neighbouring bytes. A structure is rejected for its length exactly when no layout defined for it fits that length, with an error that names its type and handle and the length it would have needed.",
     "all SMBIOS versions 0.0 to 255.255 and all structure lengths 4 to 255, all structure types",
     TESTS + "they cover one or two version and length pairs per type.",
     [S], [("layout selection", S), ("length error", L + " MalformedStructureError")], over=("inputs", "configurations"))
prop("C14", "Text fields are the strings their numbers refer to",
     "Each text field, string list item and string lookup yields exactly the text that its string number refers to in the structure's own string area (numbers start at one, zero means no text), and a number for which there is no (valid) string ends in an error that names the number, the structure's type and its handle.",
     "all string areas, all string numbers 0 to 255, all text fields",
     TESTS + "they use few string areas, mostly with all references valid.",
     [L, S], [("string lookup", L + " RawStructure::find_string"), ("string iteration", L + " StructureStrings"), ("languages", S + "013_bios_language.rs")])
prop("C15", "Coded values decode to the meaning SMBIOS assigns",
     "Every code of every enumerated field decodes to the meaning the SMBIOS specification assigns to it; codes without a meaning come out as the undefined (or OEM) variant carrying the code itself. Every named flag of a flag word (memory type detail, operating modes, processor status and characteristics, SRAM types, board features) stands for the bits SMBIOS assigns to it.",
     "all codes (8-bit, 16-bit for processor families) of all enumerations",
     TESTS + "they touch a few codes of each table.",
     [S, L], [("From<u8> / From<u16> conversions", S)])
prop("C16", "Bit fields report every bit exactly once with its meaning",
     "Iterating a characteristics bit field yields every bit from the lowest to the highest exactly once, with its position, whether it is set and its specified meaning; the significant iteration yields exactly the set bits that have a meaning, the reserved iteration exactly the maximal ranges of reserved bits of one description. The stored number is kept unchanged.",
     "all values of all eight bit field types",
     TESTS + "they check single values, against 2^8 to 2^64 possible ones.",
     ["src/bitfield.rs", S], [("iterators", "src/bitfield.rs Iter, Significants, Reserved"), ("layouts", S)])
prop("C17", "Every value prints the text of its meaning",
     "The printed form (plain and alternate) of every coded value, flag, revision, date, device and error is the documented text for that value, with the value's own numbers in it; an error names its cause exactly when it has one.",
     "all values of all printable types",
     TESTS + "they print a few values.",
     [S, L, "src/bitfield.rs"], [("Display implementations", S + ", " + L)])
prop("C18", "Derived quantities are computed exactly",
     "Sizes in bytes, capacities, log addresses, voltages and element kinds computed from stored values equal the exact result of the specified formula for every stored value, without truncation.",
     "all stored values",
     TESTS + "boundaries (units, granularity bits, FFh escapes, multipliers) are not all exercised.",
     [S], [("RomSize, CacheSize, CacheSize2, DesignCapacity, AccessMethod, Voltage", S)])
prop("C19", "Decoded records convert back to the bytes they came from",
     "Converting a decoded device-and-function number, peer device, event log type or descriptor back to bytes gives the original bytes, and collecting bit positions into a number gives the number with exactly those bits.",
     "all bytes and all sets of positions",
     TESTS + "they try few values.",
     [S + "009_system_slots.rs", S + "015_system_event_log", "src/bitfield.rs"], [("reverse conversions", S), ("FromIterator<Position>", "src/bitfield.rs")])
prop("C20", "Equality and hashing go by content",
     "Two decoded values are equal exactly when all their parts are equal (texts and lists of records by their contents, wherever they lie in memory), != is the opposite of ==, values that are equal feed a hasher the same data, and a clone equals the value it was made from.",
     "all pairs of values of all public types",
     TESTS + "they compare values with themselves or with literals, never two nearly equal ones, and never hash.",
     [L, "src/bitfield.rs", S], [("PartialEq and Hash of record lists", S + "003_enclosure.rs, 009_system_slots.rs, 015_system_event_log/mod.rs"), ("derived implementations", S)])
prop("C21", "Everything handed out borrows from the caller's buffer alone",
     "Structures, strings, raw bytes and record lists stay usable after the iterator, raw structure and entry point they came from are gone, and no program in which they outlive the buffer (or the buffer is changed while they live) compiles. Entry points, versions, errors and coded values own their data. All of them can be sent to and shared between threads, and iterators can be cloned.",
     "all programs that use the public API",
     "A test is one program that compiles; the guarantee is about all programs, most of all those that must not compile.",
     [L, "src/bitfield.rs", S], [("lifetime parameters of the public types", L + " Structures, RawStructure, Structure"), ("lifetimes of text fields", S)], over=("programs",))
prop("C22", "Decoding has no effects and needs no operating system",
     "Searching, walking, decoding, converting and printing allocate nothing, do no input or output, keep no state from one call to the next and never write to the caller's buffer: the results depend on the bytes alone. The crate builds without std, and behaves the same with and without it.",
     "all functions of the crate, both feature configurations, all histories of calls",
     "Tests run with std, in one process, and cannot see what a function does besides returning its result.",
     [L, "src/bitfield.rs", S], [("no_std attribute and std feature", L), ("statics", L + " find_signature")], over=("histories", "configurations"))
exec(open(os.path.join(V, "tools", "moreprops.py")).read()) if os.path.exists(os.path.join(V, "tools", "moreprops.py")) else None
NA = globals().get("NA", [])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, V)
from props import PROPS
checks = []
for p in P:
    if p["id"] not in PROPS:
        continue
    q = PROPS[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": f"bash /verif/run.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough bash /verif/run.sh {p['id']}",
                   "technique": q.get("technique", "abstract interpretation of the compiler's MIR: gated value-flow terms with state joins, loop summaries and a linear-arithmetic domain, compared with reference terms"),
                   "level": q["level"], "level_note": q["note"] if "note" in q else "All inputs at once within the stated assumptions; an obligation counts as held when its negation is proven unsatisfiable in the abstract domain, a violation is reported only when a valuation of the derived condition confirms it. Trusts rustc's MIR, the models of formatting and UTF-8 validation, and the frozen transcription of SMBIOS in /verif/harness."})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": NA,
     "notes": "No hooks in /repo. Nothing of /repo is executed: the analyser reads the MIR that rustc produces from /repo's working tree. KNOWN_FINDINGS.txt lists the repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

"""What each property's check analyses and by which rule."""
ALLDEC = [["dec_bios", "dec_system", "dec_baseboard"], ["dec_enclosure", "dec_processor", "dec_cache"],
          ["dec_port", "dec_oem", "dec_group"], ["dec_physical", "dec_memory", "dec_pointing", "dec_portable"]]
PANICS = {"panic", "overflow", "bounds"}
LITTLE = ["little-endian target", "64-bit target"]
BASE = ["rustc's MIR of /repo and the standard library is what is compiled", "models of core::fmt, str::from_utf8 and slice searching in driver/src/intrin.rs and harness/src/models.rs"] + LITTLE
FRAMED = BASE + ["buffers shorter than 2^32 bytes"]


def p(groups, kinds, rule, **k):
    d = dict(groups=groups, kinds=set(kinds), rule=rule, level="other", assumptions=k.pop("assumptions", BASE))
    d.update(k)
    return d


WHOLE = "Abstract interpretation of the MIR over all inputs at once (gated value-flow terms, states joined at merges, loops replaced by inferred summaries). "
PROPS = {
    "C01": p(
        [["wk_all", "wk_many"], ["wk_kind", "wk_get", "st_"], ["se_"]] + ALLDEC + [["dsp_", "tab_", "flags_", "bf_text", "bf_collect", "dq_", "rd_", "dx_", "us_"], ["sm_"], ["sk_"]],
        {"oob", "utf8"},
        WHOLE + "Rule: at every raw-pointer read, unchecked index or slice construction reachable from the public API the accessed range lies inside the object it was derived from, and every string is built from bytes that passed UTF-8 validation.",
        floor=50),
    "C02": p(
        [["wk_all", "wk_many"], ["wk_kind", "wk_get", "st_at", "st_find_0"], ["se_"], ["st_oem", "st_options", "st_find_1"], ["sm_"], ["sk_"]] + ALLDEC,
        PANICS,
        WHOLE + "Rule: no panic, arithmetic overflow, out-of-range index or failed unwrap is reachable from entry-point search, the structure walk, any structure decoder or string lookup, for any buffer and any entry point.",
        floor=300),
    "C03": p(
        [["dsp_"], ["tab_", "dq_", "rd_", "dx_", "bf_text"], ["bf_c_bios", "bf_collect"], ["bf_c_l", "bf_c_s", "bf_c_post"], ["us_", "eqh_", "it_"]],
        PANICS,
        WHOLE + "Rule: no panic, arithmetic overflow or out-of-range index is reachable from the conversions, accessors, iterators and formatting of values the decoders return.",
        floor=100),
    "C04": p(
        [["wk_all"], ["wk_many"], ["us_", "st_oem", "st_options"], ["bf_c_"], ["sm_walk"], ["sk_"], ["it_"]],
        {"check", "term"},
        WHOLE + "Rule: every loop of the walk has a strictly decreasing measure; a walk that reported its end, a framing error or the end-of-table structure yields nothing more; skipping, counting, a clone and a plain sequence of steps report the same items.",
        names=r"^w\.(ended|stays|more)|^b\.(end|more)|^s\.step|^u\.|^i\.", floor=6),
    "C05": p(
        [["wk_many"], ["wk_all"], ["sm_walk"], ["sk_"]], {"check"},
        WHOLE + "Rule: after any number of steps the next step reports exactly the structure (or the framing error) that the bytes at the running position determine; the reference framing is computed independently from the buffer.",
        names=r"^w\.", floor=10, assumptions=FRAMED),
    "C06": p(
        [["se_any"], ["sm_search", "sk_"]], {"check"},
        WHOLE + "Rule: the result of the search equals a reference decision on the bytes after the first anchor: which error, or acceptance.",
        names=r"^a\.", floor=20, deadline=120),
    "C07": p(
        [["se_any"], ["sm_search", "sk_"], ["se_access", "se_version"]], {"check"},
        WHOLE + "Rule: each field and accessor of an accepted entry point equals the bytes at its specified offset; versions order by major then minor number.",
        names=r"^a\.v|^x\.", floor=20, deadline=120),
    "C08": p(
        [["wk_kind"], ["wk_get"]] + ALLDEC, {"check"},
        WHOLE + "Rule: for every type code the structure handed out is the one the code names; codes without a decoder come out raw, and values fetched from a raw structure by offset are exactly the bytes there, or an error when not all inside.",
        names=r"^k\.|^g\.|^v\.", floor=20),
    "C09": p(
        [["dec_bios"], ["dec_system"], ["dec_baseboard", "dec_enclosure"], ["us_elements"]], {"check"},
        WHOLE + "Rule: every field of the firmware, system, baseboard and enclosure structures equals a function of the bytes at the offset SMBIOS gives it, for all byte contents, lengths and versions.",
        names=r"^f\.", floor=40),
    "C10": p(
        [["dec_processor"], ["dec_cache"]], {"check"},
        WHOLE + "Rule: as above for the processor and cache structures.", names=r"^f\.", floor=30),
    "C11": p(
        [["dec_port"], ["dec_system_slots"], ["dec_system_event_log"], ["dec_oem", "dec_bios_language", "dec_group"], ["st_options"], ["us_group", "us_peers", "us_events"]], {"check"},
        WHOLE + "Rule: as above for port connectors, slots (with peer devices), configuration strings, languages, group associations and event logs (with their record types).", names=r"^f\.", floor=40),
    "C12": p(
        [["dec_physical"], ["dec_memory_device"], ["dec_memory_error", "dec_memory_array"], ["dec_pointing", "dec_portable"]], {"check"},
        WHOLE + "Rule: as above for memory arrays, devices, errors and address maps, pointing devices and batteries.", names=r"^f\.", floor=60),
    "C13": p(
        ALLDEC, {"check"},
        WHOLE + "Rule: an optional field is present exactly when the SMBIOS version and the structure's own length say it is there, and a structure is rejected for its length only when it is shorter than its version requires, with an error naming the structure and the length it needs.",
        names=r"^p\.|^e\.(accepted|length|slice|kind|short)", floor=100),
    "C14": p(
        ALLDEC + [["st_at", "st_find_0"], ["st_find_1"], ["st_find_2"], ["st_oem"], ["st_options"], ["sm_find", "sm_oem", "sm_options", "sm_languages"], ["sk_text"]], {"check"},
        WHOLE + "Rule: each text field is the string its number refers to (none for zero), and a reference to a string that is not there is an error naming that number, type and handle.",
        names=r"^s\.|^e\.(string|count)", floor=100, deadline=45),
    "C15": p(
        [["tab_", "flags_"], ["dq_element", "dq_voltage"]], {"check"},
        WHOLE + "Rule: for all codes the decoded enumeration value equals a frozen transcription of the SMBIOS tables, reserved codes keeping their number; every named flag is the bits the tables give it.",
        names=r"^t\.|^q\.(element|voltage)", floor=140),
    "C16": p(
        [["bf_c_bios"], ["bf_c_log", "bf_c_slot", "bf_c_language"], ["bf_c_post"], ["dq_wrap"]], {"check"},
        WHOLE + "Rule: iterating a bit field reports every bit once, in order, with its set state and its specified meaning; the filtered iterations report exactly the set meaningful bits and the maximal reserved ranges.",
        names=r"^b\.|^q\.wrap", floor=100),
    "C17": p(
        [["dsp_"], ["dx_", "bf_text"]], {"check"},
        WHOLE + "Rule: the text of every value (plain and alternate) equals a frozen reference text as a function of the value.",
        names=r"^d\.", floor=80),
    "C18": p(
        [["dq_"]], {"check"},
        WHOLE + "Rule: quantities computed from stored values equal exact arithmetic over the specified formula.",
        names=r"^q\.", floor=20),
    "C19": p(
        [["rd_"], ["bf_collect"]], {"check"},
        WHOLE + "Rule: converting a decoded value back gives the bytes it came from, for all bytes.",
        names=r"^r\.|^b\.collect|^b\.position", floor=10),
    "C20": p(
        [["eq_b", "eq_c", "eq_l"], ["eq_e", "eq_p", "eq_s"], ["eq_g", "eq_m", "eq_o", "eq_r"], ["eqh_", "it_"]], {"check"},
        WHOLE + "Rule: two values of a public type compare equal exactly when all their parts do (lists of records: when they hold the same bytes), equal lists tell a hasher the same, and no Hash implementation of the crate looks at addresses.",
        names=r"^h\.", floor=180, extra=["hashes"],
        assumptions=BASE + ["lists of up to three records; structures of many fields are compared with copies that differ in one field"]),
    "C21": p(
        [], set(),
        "Type-level witnesses: programs that compile only if everything handed out borrows from the caller's buffer alone and can be sent and shared, and programs that must be rejected by the borrow checker (each beside a twin that differs in one line and must compile).",
        floor=150, extra=["borrow"], assumptions=["rustc's borrow checker"],
        technique="type-level encodings and compile-fail witnesses with compiling twins, type-checked against /repo's current tree",
        note="The compiler decides; the witnesses name every text field, record list and iterator of the public API."),
    "C22": p(
        [], set(),
        "Effect analysis of the MIR of every function of the crate, generic bodies included, in both builds (with and without std): every callee lies in core, bitflags, uuid or the crate itself and is not an atomic, volatile or architecture operation; no static can change; no cast makes shared memory writable; the crate builds without std and its functions have the same bodies in both builds.",
        floor=3000, extra=["effects"], rerun=[["wk_all"], ["wk_many"], ["wk_kind", "wk_get", "st_at", "st_find_0"], ["se_"]] + ALLDEC + [["tab_", "flags_", "dsp_", "dq_", "rd_", "dx_"], ["sm_", "us_", "sk_"], ["bf_c"]],
        assumptions=["bitflags and uuid without their std features have no effects", "functions of core outside sync::atomic, arch and the volatile accesses have no effects"],
        technique="call-graph and effect analysis over the compiler's MIR of every function of the crate, in both feature configurations",
        note="Every call site, static and pointer cast of the crate is looked at; a call that leaves the allowed set is reported with file, line and function."),
}

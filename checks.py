"""What each check builds and runs."""
SAN = ["-std=c++17", "-O1", "-g1", "-DNDEBUG", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
       "-fno-sanitize=null,vptr,alignment,object-size", "-fno-sanitize-recover=all"]
TSAN = ["-std=c++17", "-O1", "-g1", "-DNDEBUG", "-fsanitize=thread"]

FLAVOURS = {
    "asan": ("clang++", SAN, []),
    # random delays at function entries
    "tsan": ("clang++", TSAN + ["-finstrument-functions-after-inlining"], ["-ldl"]),
    "asanc": ("clang++", SAN + ["-finstrument-functions-after-inlining"], ["-ldl"]),
    "chaos": ("clang++", ["-std=c++17", "-O1", "-g1", "-DNDEBUG", "-finstrument-functions-after-inlining", "-DCHAOS_PTHREAD"], ["-ldl"]),
}

# debug builds of the library: no NDEBUG
DBG = ["-std=c++17", "-g1", "-fno-omit-frame-pointer"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
CLANG_ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=null,vptr,alignment,object-size", "-fno-sanitize-recover=all"]
FLAVOURS.update({
    "gcc_d0": ("g++", DBG + ["-O0", "-fsanitize=address,undefined", "-fno-sanitize=null,vptr,alignment,object-size", "-fno-sanitize-recover=all"], []),
    "clang_d2": ("clang++", DBG + ["-O2"] + CLANG_ASAN, []),
    "gcc_d3": ("g++", DBG + ["-O3"], []),
    "nobt_d1": ("clang++", DBG + ["-O1", "-DNO_BACKTRACE_SUPPORT"] + CLANG_ASAN, []),
    "tsan_d": ("clang++", DBG + ["-O1", "-fsanitize=thread", "-finstrument-functions-after-inlining"], ["-ldl"]),
})

KIND_SRC = ["kinds_and.cpp", "kinds_or.cpp", "kinds.cpp", "kind_int.cpp", "kind_str.cpp", "kind_fp.cpp", "kind_bool.cpp", "kind_i64.cpp", "kind_trk.cpp"]
BINARIES = {
    "engine": {"flavour": "asan", "src": KIND_SRC + ["engine.cpp", "engine_main.cpp"]},
    "fault": {"flavour": "asan", "defs": ["-DMVAULT_VERIF_SMALL_CHUNKS"], "src": ["fault.cpp"]},
    "fault_normal": {"flavour": "asan", "src": ["fault.cpp"]},
    "conv": {"flavour": "asan", "defs": ["-DMVAULT_VERIF_SMALL_CHUNKS"], "src": ["conv.cpp", "csv_normal.cpp"],
             "alt": {"libdir": "CsvParser", "flags": ["-UMVAULT_VERIF_SMALL_CHUNKS", "-Dmvlt=mvltn", "-DVF_PARSE=parseNormal"], "src": ["csv_normal.cpp"]}},
}

RULES = {
    "P13": "Random schemas of readable types with hostile names and values, saved from vaults and sets with random columns and separators; the file is checked by an independent RFC 4180 reader, "
           "then loaded into another vault and compared value by value. Non-trivial: at least one record and one column were saved.",
    "P14": "Generated well-formed files (known records) and arbitrary bytes, read by the parser built with 16-byte blocks and with the normal ones, with sizes around the block limits, plus files above the real limit. "
           "Oracle: the generator's records, an independent reader, and equality of both builds. Non-trivial: the file has at least one byte or record.",
    "P15": "Random and extreme values of the ten readable types and hostile texts; 60 conversions per case, each compared with big-number text arithmetic and strtod. Non-trivial: every case.",
    "P25": "Random files (valid, invalid, short, long, empty lines, unknown columns, colliding unique values) loaded in the four modes into vaults, several loads per vault; records and error list compared with a model. "
           "Non-trivial: the file has at least one line.",

    "engine": "Seeded random histories of public operations on several vaults, record sets, references and stored requests at once; "
              "every result and every observable view is compared with a reference model. A case (one history) is non-trivial when the monitors "
              "looked at a vault with at least one record and one key; two cases are the same when their whole operation logs agree. "
              "distinct_states_seen counts the distinct model states at which every handle was audited.",
}

ENGINE = {"P01": (6000, 60000)}
PROPS = {}
for i in range(1, 13):
    p = "P%02d" % i
    PROPS[p] = {"rule": "engine", "jobs": [{"bin": "engine", "quick": 6000, "thorough": 100000, "chunk": 50}]}

TECHNIQUES = {
    "engine": "runtime monitoring: reference-model oracle over random operation histories, under ASan/UBSan/LSan",
}
LEVEL_NOTES = {
    "engine": "Every observed result and view of the explored histories agreed with an independent in-memory model, with no sanitizer report. "
              "Assurance is limited to the histories run; trusts the model, the sanitizers and the two compilers.",
}

TECHNIQUES.update({
    "P13": "runtime monitoring: independent csv reader and value oracle over generated save/load round trips, under ASan/UBSan",
    "P14": "runtime monitoring: generator oracle and differential block sizes over generated files, under ASan/UBSan",
    "P15": "runtime monitoring: decimal-text oracle over generated conversions, under ASan/UBSan",
    "P25": "runtime monitoring: line-accounting model over generated loads, under ASan/UBSan",
})
for _k in ("P13", "P14", "P15", "P25"):
    LEVEL_NOTES[_k] = ("The generated inputs all behaved as the independent oracle says, with no sanitizer report. Limited to the inputs run; "
                       "trusts the oracle in src/conv.cpp and src/tytext.h, and for P14 that the hook only changes the two block-size constants.")
PROPS["P13"] = {"rule": "P13", "jobs": [{"bin": "conv", "quick": 100000, "thorough": 3000000}]}
PROPS["P14"] = {"rule": "P14", "jobs": [{"bin": "conv", "quick": 250000, "thorough": 8000000}, {"bin": "conv", "args": ["--big", "1"], "quick": 8, "thorough": 80}]}
PROPS["P15"] = {"rule": "P15", "jobs": [{"bin": "conv", "quick": 120000, "thorough": 4000000}]}
PROPS["P25"] = {"rule": "P25", "jobs": [{"bin": "conv", "quick": 100000, "thorough": 3000000}]}

RULES["P24"] = ("Saves and loads of random tables under a fault: missing directory, directory, /dev/full, size limit, no descriptor, unreadable file, I/O error injected at a random byte "
                "(interposed read/write), and harmless short or interrupted transfers. Oracle: the return value agrees with what the file holds (independent reader), no partial record, vault unchanged and usable. "
                "Every case applies one fault; two cases are the same when fault, position and contents agree.")
TECHNIQUES["P24"] = "runtime monitoring: I/O fault injection with a truthfulness oracle, under ASan/UBSan"
LEVEL_NOTES["P24"] = "Explored faults and positions were all reported truthfully. Positions are sampled, not enumerated; faults are injected at read/write calls of the file under test; close errors are not injected."
PROPS["P24"] = {"rule": "P24", "jobs": [{"bin": "fault", "quick": 8000, "thorough": 300000}, {"bin": "fault_normal", "quick": 4000, "thorough": 150000}]}

BINARIES["fmt"] = {"flavour": "asan", "src": ["fmt.cpp"]}
RULES["P16"] = ("Random schemas of 14 types (user types included) with hostile names and values and random histories; ToJson of vaults, sets and references under random options is read by an own strict RFC 8259 reader "
                "and compared record by record with a model. Non-trivial: a document was produced while a record and a key existed.")
RULES["P17"] = ("The same histories; printed tables (vault, set, containers of references, single records) are captured from fd 1 and must be the table of the model: widths are taken from the border line, "
                "everything else is predicted, ties may come in any order; string dumps are compared as multisets. Non-trivial: at least one row was shown.")
TECHNIQUES["P16"] = "runtime monitoring: strict JSON reader and model oracle over generated histories and options, under ASan/UBSan"
TECHNIQUES["P17"] = "runtime monitoring: table reconstruction oracle over captured output of generated histories, under ASan/UBSan"
LEVEL_NOTES["P16"] = LEVEL_NOTES["P17"] = "Every observed document, table and dump agreed with the model, with no sanitizer report. Limited to the generated histories; trusts the readers in src/fmt.cpp. NaN is excluded as a key value."
PROPS["P16"] = {"rule": "P16", "jobs": [{"bin": "fmt", "quick": 60000, "thorough": 3000000}]}
PROPS["P17"] = {"rule": "P17", "jobs": [{"bin": "fmt", "quick": 60000, "thorough": 3000000}]}

CONC = ["conc.cpp", "chaos.cpp"]
BINARIES["conc_tsan"] = {"flavour": "tsan", "src": CONC}
BINARIES["conc_asan"] = {"flavour": "asanc", "src": CONC}
BINARIES["conc"] = {"flavour": "chaos", "src": CONC}
RULES["P18"] = ("2-6 threads run 20-70 random operations each (63 kinds: records, keys, queries, listings, files, sets) on one or two shared vaults with own references and sets, disturbed by random delays at function entries; "
                "once under ThreadSanitizer and once under ASan/UBSan/LSan; afterwards every handle is audited and the stored objects are counted. Every case is non-trivial; two cases are the same when workload, schedule seed and end state agree.")
RULES["P19"] = ("lin: 2-4 threads, up to 36 timestamped operations of 28 kinds on a shared vault and own sets; a Wing-Gong search with memoisation must find a sequential order consistent with real time in which a reference table gives every recorded result. "
                "cons: 3-8 threads, up to 400 operations each, with counters: created minus erased, erased at most once, last acknowledged update, two-value updates and unique values in every atomic view. Non-trivial: at least two operations overlapped (lin), a record was created (cons).")
RULES["P20"] = ("lock: 2-7 threads nest random read and write acquisitions over 1-3 mutexes with injected delays and spurious wake-ups; monitors keep the holders of every mutex and guard plain data. "
                "scenario: shared reads, writer priority over late readers, nested release, two mutexes. limits: crowds of up to 300 readers, nesting to depth 70000, up to 120 mutexes held by one thread and released in any order, mutexes that come and go at one address. Locks also under ASan/LSan and ThreadSanitizer. Every case is non-trivial.")
RULES["P21"] = ("progress: the P18 mix over one or two vaults without sanitizer, with delays at every function entry and mutex call and spurious wake-ups; starve: writers with a fixed number of updates against readers that overlap without a gap; "
                "lock: nested acquisitions. All threads must finish their operations; the driver reports a case without progress for 45 s. Every case is non-trivial.")
TECHNIQUES["P18"] = "runtime monitoring: ThreadSanitizer and AddressSanitizer over disturbed random concurrent workloads, with an end-state audit"
TECHNIQUES["P19"] = "runtime monitoring: offline linearizability checker over recorded concurrent histories, conservation monitors over long runs"
TECHNIQUES["P20"] = "runtime monitoring: holder-tracking lock monitor with delay and spurious wake-up injection, ThreadSanitizer on guarded data"
TECHNIQUES["P21"] = "runtime monitoring: progress watchdog over disturbed concurrent workloads (bounded liveness)"
LEVEL_NOTES["P18"] = "No race, memory error or broken end state in the executed schedules. Schedules are sampled; races that need an overlap that never happened are not seen. Vault assignment, move, destruction and DropVault are not run concurrently (documented as not thread-safe)."
LEVEL_NOTES["P19"] = "Every recorded history was linearizable and every long run balanced. Histories are short (at most 40 operations) and schedules sampled; trusts the sequential table in src/conc.cpp."
LEVEL_NOTES["P20"] = "No violation in the executed acquisitions and scenarios. Priority is judged after the writer is seen asleep in the lock; schedules are sampled."
LEVEL_NOTES["P21"] = "Every executed workload finished. Bounded form only: a stall shorter than the watchdog or a schedule that was not reached is not seen."
PROPS["P18"] = {"rule": "P18", "jobs": [{"bin": "conc_tsan", "args": ["--mode", "stress"], "quick": 1200, "thorough": 60000}, {"bin": "conc_asan", "args": ["--mode", "stress"], "quick": 1200, "thorough": 60000}]}
PROPS["P19"] = {"rule": "P19", "jobs": [{"bin": "conc", "args": ["--mode", "lin"], "quick": 6000, "thorough": 300000}, {"bin": "conc", "args": ["--mode", "cons"], "quick": 400, "thorough": 20000}]}
PROPS["P20"] = {"rule": "P20", "jobs": [{"bin": "conc", "args": ["--mode", "lock"], "quick": 3000, "thorough": 150000}, {"bin": "conc", "args": ["--mode", "scenario"], "quick": 1500, "thorough": 60000}, {"bin": "conc", "args": ["--mode", "limits"], "quick": 600, "thorough": 20000}, {"bin": "conc_asan", "args": ["--mode", "limits"], "quick": 200, "thorough": 8000}, {"bin": "conc_tsan", "args": ["--mode", "lock"], "quick": 600, "thorough": 30000}]}
PROPS["P21"] = {"rule": "P21", "jobs": [{"bin": "conc", "args": ["--mode", "progress"], "quick": 2000, "thorough": 100000, "hang": 45, "hang_is_violation": True},
                                        {"bin": "conc", "args": ["--mode", "starve"], "quick": 80, "thorough": 4000, "hang": 45, "hang_is_violation": True},
                                        {"bin": "conc", "args": ["--mode", "lock"], "quick": 1000, "thorough": 50000, "hang": 45, "hang_is_violation": True}]}

BINARIES["misc"] = {"flavour": "asan", "src": ["misc.cpp"]}
BINARIES["misc_tsan"] = {"flavour": "tsan", "src": ["misc.cpp", "chaos.cpp"]}
RULES["P22"] = ("Random histories over 2-6 holders and over the four containers with 14 value types (owning, polymorphic, pointer, large), deleters and text conversion; after every operation the type, text, value under the right and refusal under wrong types of the holders, "
                "the container's entries and the calls of the custom deleter are compared with a model, and stored objects are counted. Non-trivial: a value was held.")
RULES["P23"] = ("Families of identifiers of one thread, threads started together, forked processes and short threads, file names with random prefixes, and large families: form, version, variant, pairwise difference, "
                "balance of all 122 free bits, of all their pairs and against the previous identifier (8 standard deviations). Every case is non-trivial.")
TECHNIQUES["P22"] = "runtime monitoring: model oracle over random holder and container histories, deleter log, under ASan/UBSan/LSan"
TECHNIQUES["P23"] = "runtime monitoring: format, uniqueness and bit-statistics monitors over generated families, ThreadSanitizer"
LEVEL_NOTES["P22"] = "Every observed view agreed with the model in the explored histories, with no sanitizer report. The custom deleter is judged to run at a reset (or erasure from a container) only."
LEVEL_NOTES["P23"] = "No repeated or malformed identifier among those generated; uniqueness beyond the families is only supported by the bit statistics."
PROPS["P22"] = {"rule": "P22", "jobs": [{"bin": "misc", "quick": 60000, "thorough": 3000000}]}
PROPS["P23"] = {"rule": "P23", "jobs": [{"bin": "misc", "quick": 1600, "thorough": 40000}, {"bin": "misc", "args": ["--family", "400000"], "quick": 8, "thorough": 100}, {"bin": "misc_tsan", "args": ["--kind", "1"], "quick": 40, "thorough": 1000}]}

DBGSRC = ["debug.cpp", "nosystem.cpp"]
BINARIES["debug_gcc0"] = {"flavour": "gcc_d0", "src": DBGSRC}
BINARIES["debug_clang2"] = {"flavour": "clang_d2", "src": DBGSRC}
BINARIES["debug_gcc3"] = {"flavour": "gcc_d3", "src": DBGSRC}
BINARIES["debug_gcc3_real"] = {"flavour": "gcc_d3", "src": ["debug.cpp"]}
BINARIES["debug_nobt"] = {"flavour": "nobt_d1", "src": DBGSRC}
BINARIES["debug_release"] = {"flavour": "asan", "src": DBGSRC}
BINARIES["engine_gcc0"] = {"flavour": "gcc_d0", "src": BINARIES["engine"]["src"] + ["nosystem.cpp"]}
BINARIES["engine_clang2"] = {"flavour": "clang_d2", "src": BINARIES["engine"]["src"] + ["nosystem.cpp"]}
BINARIES["conc_dbg"] = {"flavour": "tsan_d", "src": CONC + ["nosystem.cpp"]}
RULES["P26"] = ("The library built without NDEBUG (gcc -O0 and -O3, clang -O1, -O2 and without stack support, with both formats): 22 refused operations with their exact results in visitors and predicates to depth 1200, in threads, "
                "from objects of static and thread storage duration; the random histories of P01-P12 with every result compared with the model; the concurrent mix of P18 under ThreadSanitizer. "
                "A case that fails is run again in a release build and only counts when it passes there; release builds are judged against debug builds in the same way. The shell call of the diagnostics is replaced by a counter, except in one workload.")
TECHNIQUES["P26"] = "runtime monitoring: result oracle over random histories in debug builds, re-run in the release build, under ASan/UBSan/TSan"
LEVEL_NOTES["P26"] = "Every explored case gave the same results with and without NDEBUG, with no sanitizer report. Five build configurations of two compilers; the format is set while no other thread runs."
PROPS["P26"] = {"rule": "P26", "jobs": [
    {"bin": "debug_gcc0", "against": "debug_release", "quick": 800, "thorough": 30000},
    {"bin": "debug_clang2", "against": "debug_release", "quick": 800, "thorough": 30000},
    {"bin": "debug_gcc3", "against": "debug_release", "quick": 800, "thorough": 30000},
    {"bin": "debug_nobt", "against": "debug_release", "quick": 300, "thorough": 10000},
    {"bin": "debug_gcc3_real", "args": ["--real", "1"], "against": "debug_release", "quick": 16, "thorough": 300},
    {"bin": "engine_gcc0", "against": "engine", "quick": 800, "thorough": 60000, "chunk": 25},
    {"bin": "conc_dbg", "args": ["--mode", "stress"], "against": "conc_tsan", "quick": 120, "thorough": 6000},
    # the other way round: wrong in the release build only
    {"bin": "debug_release", "against": "debug_gcc0", "quick": 800, "thorough": 30000},
    {"bin": "engine", "against": "engine_gcc0", "quick": 1500, "thorough": 60000, "chunk": 25},
]}

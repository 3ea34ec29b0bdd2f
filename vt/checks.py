"""Which targets decide which property, with budgets per tier.

A tier is a list of groups; the targets of one group run concurrently, groups
run one after another."""

PT = ["pt.cpp"]
BINS = {
    "kdf": ("prod", ["h_kdf.cpp"] + PT),
    "kdf-nommap": ("nommap", ["h_kdf.cpp"] + PT),
    "kdf-san": ("san", ["h_kdf.cpp"] + PT),
    "hash": ("prod", ["h_hash.cpp"] + PT),
    "hash-san": ("san", ["h_hash.cpp"] + PT),
    "aes": ("prod", ["h_aes.cpp"] + PT),
    "aes-san": ("san", ["h_aes.cpp"] + PT),
    "enc": ("prod", ["h_enc.cpp"] + PT),
    "enc-san": ("san", ["h_enc.cpp"] + PT),
    "enc-fuzz": ("fuzz", ["h_enc.cpp"] + PT),
    "lim": ("prod", ["h_lim.cpp"] + PT),
    "lim-san": ("san", ["h_lim.cpp"] + PT),
    "fault": ("prod", ["h_fault.cpp"] + PT),
    "fault-san": ("san", ["h_fault.cpp"] + PT),
    "os": ("prod", ["h_os.cpp", "parsenum_c.c"] + PT),
    "os-nommap": ("nommap", ["h_os.cpp", "parsenum_c.c"] + PT),
    "os-san": ("san", ["h_os.cpp", "parsenum_c.c"] + PT),
    "main": ("prod", ["h_main.cpp", "@main"] + PT),
    "main-san": ("san", ["h_main.cpp", "@main"] + PT),
    "tty": ("prod", ["h_tty.cpp"] + PT),
    "tty-san": ("san", ["h_tty.cpp"] + PT),
    "cli": ("prod", None),
    "cli-san": ("san", None),
}


def N(b, t, secs, jobs=8, **kw):
    return dict(kind="native", bin=b, target=t, secs=secs, jobs=jobs, **kw)


def F(b, native, t, secs, jobs=8, **kw):
    return dict(kind="fuzz", bin=b, native=native, target=t, secs=secs, jobs=jobs, **kw)


def P(module, t, secs, jobs=8, **kw):
    return dict(kind="python", module=module, target=t, secs=secs, jobs=jobs, **kw)


CPU = "hardware paths that this machine offers (SHANI, SSE2, AES-NI) plus the portable ones; ARM code cannot run here"
REF = "OpenSSL's SHA-256, HMAC and AES and the harness's own PBKDF2/scrypt (anchored to RFC vectors) are the reference"

CHECKS = {
    "C01": dict(
        level="exploration",
        technique="differential property-based testing against an independent scrypt, plus enumerated large parameters",
        note="Every output byte is compared with an independent implementation; random, exhaustive small-box and selected huge parameters (B > 4 GiB; V of 8 GiB on the SSE2 and of 8 and 20 GiB on the portable path; thorough: 24 GiB).",
        assumptions=[REF, CPU],
        quick=[[N("kdf", "kdf_huge_p", 1, 1), N("kdf", "kdf_vectors", 20, 1), N("kdf", "kdf_big", 60, 2)],
               [N("kdf", "kdf_huge_known", 400, 1), N("kdf", "kdf_grid", 60, 3),
                N("kdf-san", "kdf_random", 40, 1), N("kdf", "kdf_random", 80, 3)]],
        thorough=[[N("kdf", "kdf_huge_p", 1, 1), N("kdf", "kdf_vectors", 60, 1), N("kdf", "kdf_big", 200, 2)],
                  [N("kdf", "kdf_huge_rp", 1, 1), N("kdf-nommap", "kdf_random", 100, 4)],
                  [N("kdf", "kdf_huge_n8", 1, 1), N("kdf-san", "kdf_random", 120, 7)],
                  [N("kdf", "kdf_huge_known", 400, 1)],
                  [N("kdf", "kdf_huge_ref", 800, 1)],
                  [N("kdf", "kdf_huge_n16", 1, 1)],
                  [N("kdf", "kdf_huge_n24", 1, 1)],
                  [N("kdf", "kdf_grid", 30), N("kdf-nommap", "kdf_grid", 30), N("kdf-san", "kdf_grid", 60)],
                  [N("kdf", "kdf_random", 400)]]),
    "C02": dict(
        level="exploration",
        technique="property-based testing of the whole 64-bit parameter space with a simulated memory limit, and allocation-fault injection",
        note="Accept/reject classification is an exact model; work-heavy valid parameters are only reached under a memory limit.",
        assumptions=["allocation failure is simulated by wrapping malloc, posix_memalign and mmap"],
        quick=[[N("kdf", "kdf_params", 12, 4), N("kdf", "kdf_nomem", 12, 2), N("kdf", "kdf_first", 12, 2)],
               [N("kdf-san", "kdf_params", 10, 4), N("kdf-san", "kdf_nomem", 8, 3)]],
        thorough=[[N("kdf", "kdf_params", 150, 4), N("kdf", "kdf_nomem", 100, 2), N("kdf", "kdf_first", 100, 2)],
                  [N("kdf-san", "kdf_params", 100, 4), N("kdf-nommap", "kdf_params", 100, 2), N("kdf-nommap", "kdf_nomem", 100, 2)]]),
    "C03": dict(
        level="exploration",
        technique="differential property-based testing (chunked, interleaved, every CPU path) against OpenSSL, with enumerated lengths and > 4 GiB messages",
        note="All lengths 0..319 with every split exhaustively; the rest sampled.",
        assumptions=[REF, CPU],
        quick=[[N("hash", "hash_huge", 300, 6), N("hash", "pbkdf2_long", 60, 1), N("hash", "pbkdf2_iters", 60, 1)],
               [N("hash", "ref_vectors", 5, 1), N("hash", "hash_lengths", 20)],
               [N("hash", "hash_chunks", 10, 4), N("hash", "pbkdf2_random", 10, 4)],
               [N("hash-san", "hash_chunks", 8, 4), N("hash-san", "pbkdf2_random", 8, 4)]],
        thorough=[[N("hash", "hash_huge", 400, 6), N("hash", "pbkdf2_long", 100, 1), N("hash", "pbkdf2_iters", 100, 1)],
                  [N("hash", "ref_vectors", 5, 1), N("hash", "hash_lengths", 20), N("hash-san", "hash_lengths", 60)],
                  [N("hash", "hash_chunks", 200, 4), N("hash", "pbkdf2_random", 200, 4)],
                  [N("hash-san", "hash_chunks", 200, 4), N("hash-san", "pbkdf2_random", 200, 4)]]),
    "C04": dict(
        level="exploration",
        technique="stateful differential property-based testing of AES-CTR histories against OpenSSL on the AES-NI and software paths, plus long streams over every counter carry",
        note="Streams beyond 2^28 blocks on the software path and beyond 2^32 blocks with AES-NI (thorough: on both).",
        assumptions=[REF, CPU],
        quick=[[N("aes", "ctr_long", 100, 6), N("aes", "ctr_64g_ni", 250, 3), N("aes", "ref_vectors", 5, 1)],
               [N("aes", "aesctr_splits", 20)],
               [N("aes", "aes_block", 6, 3), N("aes", "aesctr_history", 12, 5)],
               [N("aes-san", "aes_block", 5, 2), N("aes-san", "aesctr_history", 10, 6)]],
        thorough=[[N("aes", "ctr_64g", 800, 3), N("aes", "ctr_long", 200, 4), N("aes", "ref_vectors", 5, 1)],
                  [N("aes", "aesctr_splits", 20), N("aes-san", "aesctr_splits", 20)],
                  [N("aes", "aes_block", 60, 3), N("aes", "aesctr_history", 200, 5)],
                  [N("aes-san", "aes_block", 60, 2), N("aes-san", "aesctr_history", 200, 6)]]),
    "C05": dict(
        level="exploration",
        technique="differential property-based testing against an independent codec of the file format, both directions, through every interface",
        note="Random and enumerated lengths; the reference codec shares no code with the tree.",
        assumptions=[REF, CPU, "the salt is supplied through a simulated /dev/urandom in the in-process targets"],
        quick=[[N("enc", "enc_huge", 120, 3), N("enc", "enc_large", 30, 3), N("enc", "enc_lengths", 60, 2)],
               [N("enc", "enc_format", 15, 3), N("enc", "dec_conform", 15, 3), N("enc", "format_params", 15, 2)],
               [N("enc-san", "enc_format", 10, 3), N("enc-san", "dec_conform", 10, 3), N("enc-san", "format_params", 10, 2)],
               [P("cli", "cli_roundtrip", 15, 8, bins=["cli"])]],
        thorough=[[N("enc", "enc_huge", 300, 3), N("enc", "enc_large", 60, 3), N("enc", "enc_lengths", 60, 2)],
                  [N("enc", "enc_format", 200, 3), N("enc", "dec_conform", 200, 3), N("enc", "format_params", 200, 2)],
                  [N("enc-san", "enc_format", 200, 3), N("enc-san", "dec_conform", 200, 3), N("enc-san", "format_params", 200, 2)],
                  [P("cli", "cli_roundtrip", 150, 5, bins=["cli"]), P("cli", "cli_roundtrip_san", 150, 3, bins=["cli-san"])]]),
    "C06": dict(
        level="exploration",
        technique="stateful property-based testing of encrypt/decrypt histories over all interfaces with chunked I/O, plus enumerated block-boundary lengths",
        note="Histories mix successful and failing operations; every length around the 64 KiB block boundaries is enumerated.",
        assumptions=[REF, CPU],
        quick=[[N("enc", "enc_huge", 120, 3), N("enc", "enc_large", 30, 3), N("enc", "enc_lengths", 60, 2)],
               [N("enc", "enc_history", 15, 4), N("enc-san", "enc_history", 15, 4)],
               [P("cli", "cli_roundtrip", 15, 5, bins=["cli"]), P("cli", "cli_roundtrip_san", 15, 3, bins=["cli-san"])]],
        thorough=[[N("enc", "enc_huge", 300, 3), N("enc", "enc_large", 60, 3), N("enc", "enc_lengths", 60, 2)],
                  [N("enc-san", "enc_lengths", 200, 4), N("enc", "enc_history", 200, 4)],
                  [N("enc", "enc_history", 150, 4), N("enc-san", "enc_history", 150, 4)],
                  [P("cli", "cli_roundtrip", 150, 5, bins=["cli"]), P("cli", "cli_roundtrip_san", 150, 3, bins=["cli-san"])]]),
    "C07": dict(
        level="exploration",
        technique="mutation-based property testing with a reference decision procedure; exhaustive single-byte and single-bit changes of sample files",
        note="Exhaustive single-site changes of 18 file/interface combinations; compound edits sampled.",
        assumptions=[REF],
        quick=[[N("enc", "tamper_bits", 120, 7), N("enc", "tamper_huge", 120, 1)],
               [N("enc", "tamper_random", 15, 5), N("enc", "tamper_large", 15, 2), N("enc", "verify_bytes", 8, 1)],
               [N("enc", "tamper_tags", 8, 8)],
               [N("enc-san", "tamper_random", 8, 6), N("enc-san", "verify_bytes", 5, 2)],
               [P("cli", "cli_tamper", 15, 8, bins=["cli"])]],
        thorough=[[N("enc", "tamper_bits", 300, 7), N("enc", "tamper_huge", 300, 1)],
                  [N("enc", "tamper_random", 300, 4), N("enc", "tamper_large", 300, 3), N("enc", "verify_bytes", 60, 1)],
                  [N("enc", "tamper_tags", 100, 8)],
                  [N("enc-san", "tamper_random", 200, 6), N("enc-san", "verify_bytes", 60, 2)],
                  [P("cli", "cli_tamper", 150, 8, bins=["cli"])]]),
    "C08": dict(
        level="exploration",
        technique="coverage-guided fuzzing (libFuzzer, ASAN and UBSAN) and structured random headers with a classification oracle",
        note="Inputs are valid files, hostile headers with correct checksums, and raw bytes; every verdict is compared with a reference classifier.",
        assumptions=["expensive parameters are cut off by limits, or by a stand-in for the KDF that records its arguments"],
        quick=[[F("enc-fuzz", "enc-san", "dec_fuzz", 25, 8)],
               [N("enc-san", "dec_bytes", 20, 5), N("lim-san", "info_any", 15, 3)]],
        thorough=[[F("enc-fuzz", "enc-san", "dec_fuzz", 500, 8)],
                  [N("enc-san", "dec_bytes", 250, 5), N("lim-san", "info_any", 250, 3)]]),
    "C09": dict(
        level="exploration",
        technique="property-based testing of the program with every cause of early failure and every kind of destination, in process with faults and as a real process",
        note="The destination is absent, an existing file, unwritable, or standard output; the bytes of existing files and the directory listing are compared.",
        assumptions=["the input file is a different file than the output"],
        quick=[[P("cli", "cli_untouched", 20, 8, bins=["cli"])],
               [N("main", "failures", 12, 4), P("ptycli", "pty", 12, 4, bins=["cli"])]],
        thorough=[[P("cli", "cli_untouched", 300, 8, bins=["cli"])],
                  [N("main", "failures", 200, 4), P("ptycli", "pty", 200, 4, bins=["cli"])]]),
    "C10": dict(
        level="exploration",
        technique="model-based property testing with a simulated machine (memory, resource limits, clock speed), both sides of every boundary",
        note="The verdict is an exact function of the simulated limits.",
        assumptions=["speed estimate is taken as reported by the simulated clock; see C23 and C12 for how speed and memory are determined"],
        quick=[[N("lim", "limits", 20, 5), N("lim-san", "limits", 20, 3)]],
        thorough=[[N("lim", "limits", 300, 5), N("lim-san", "limits", 300, 3)]]),
    "C11": dict(
        level="exploration",
        technique="model-based property testing with a simulated machine; the chosen parameters are read back from the header",
        note="Maximality is decided by an independent exact model.",
        assumptions=["see C10"],
        quick=[[N("lim", "pickparams", 20, 4), N("lim", "pick_real", 12, 2), N("lim-san", "pickparams", 15, 2)]],
        thorough=[[N("lim", "pickparams", 300, 4), N("lim", "pick_real", 200, 2), N("lim-san", "pickparams", 300, 2)]]),
    "C12": dict(
        level="exploration",
        technique="model-based property testing over simulated system limits and query failures",
        note="Both the address-space (mmap) and the data-segment (no mmap) builds.",
        assumptions=["the limits of the machine are simulated by wrapping getrlimit, sysconf and sysinfo"],
        quick=[[N("os", "memtouse", 15, 5), N("os-san", "memtouse", 15, 3)]],
        thorough=[[N("os", "memtouse", 150, 4), N("os-nommap", "memtouse", 150, 2), N("os-san", "memtouse", 150, 2)]]),
    "C13": dict(
        level="exploration",
        technique="property-based testing of explicit parameters through the library and the program's own option handling; enumerated option boxes",
        note="Option combinations around every bound are enumerated (3528 command lines); library parameters are sampled over all values.",
        assumptions=["in the option box the library call is replaced by a recorder"],
        quick=[[N("main", "param_box", 10, 1), N("lim", "explicit", 15, 4), N("lim-san", "explicit", 15, 3)]],
        thorough=[[N("main", "param_box", 10, 1), N("lim", "explicit", 200, 4), N("lim-san", "explicit", 200, 3)]]),
    "C14": dict(
        level="fault_enumeration",
        technique="fault injection at every byte position of input and output (enumerated and random), with a completeness oracle on the output",
        note="Every read and write position of several data sizes is failed, persistently and transiently; flush and close failures too.",
        assumptions=["I/O faults are injected below stdio with custom streams"],
        quick=[[N("fault", "io_enum", 60, 8)],
               [N("fault", "io_random", 12, 4), N("main", "failures", 12, 4)],
               [N("fault-san", "io_random", 10, 6)],
               [P("cli", "cli_full", 15, 8, bins=["cli"])]],
        thorough=[[N("fault", "io_enum", 60, 8)],
                  [N("fault", "io_random", 200, 4), N("main", "failures", 200, 4)],
                  [N("fault-san", "io_random", 200, 6)],
                  [P("cli", "cli_full", 150, 8, bins=["cli"])]]),
    "C15": dict(
        level="fault_enumeration",
        technique="enumerated and random fault injection into every fallible system and library call, with leak and misuse tracking",
        note="Each single call of each public operation is failed in turn (enumerated); combinations and memory ceilings are sampled.",
        assumptions=["calls are failed by renaming them in the object files; calls made inside libc and OpenSSL are not failed"],
        quick=[[N("fault", "fault_enum", 60, 8)],
               [N("fault", "fault_random", 12, 3), N("fault", "fault_limit", 8, 1), N("fault-san", "fault_random", 12, 3), N("fault-san", "fault_limit", 8, 1)],
               [N("os", "passfile", 8, 2), N("os", "passpipe", 8, 2), N("os", "cpuperf", 8, 1), N("main", "failures", 8, 2), N("fault", "io_random", 8, 1)],
               [P("cli", "cli_shim", 15, 6, bins=["cli", "lib:shim"]), N("tty", "passtty", 12, 2)]],
        thorough=[[N("fault", "fault_enum", 60, 8), ],
                  [N("fault", "fault_random", 250, 3), N("fault", "fault_limit", 250, 1), N("fault-san", "fault_random", 250, 3), N("fault-san", "fault_limit", 250, 1)],
                  [N("os", "passfile", 100, 2), N("os", "passpipe", 100, 2), N("os", "cpuperf", 100, 1), N("main", "failures", 100, 2), N("fault", "io_random", 100, 1)],
                  [P("cli", "cli_shim", 150, 6, bins=["cli", "lib:shim"]), N("tty", "passtty", 150, 2)]]),
    "C16": dict(
        level="exploration",
        technique="stateful property-based testing of request histories against a reference HMAC_DRBG over a simulated entropy source",
        note="Histories cross reseeds, 64 KiB request splits, short reads and entropy failures; outputs compared byte for byte.",
        assumptions=["/dev/urandom is simulated; so is the hardware generator, except where its real output is only checked for freshness"],
        quick=[[N("os", "drbg", 15, 4), N("os", "drbg_hw", 10, 2), N("os-san", "drbg", 15, 2)],
               [P("cli", "cli_salt", 6, 8, bins=["cli"])]],
        thorough=[[N("os", "drbg", 300, 4), N("os", "drbg_hw", 150, 2), N("os-san", "drbg", 300, 2)],
                  [P("cli", "cli_salt", 60, 8, bins=["cli"])]]),
    "C17": dict(
        level="exploration",
        technique="property-based testing of every passphrase source against a reference of the documented rule, with read faults",
        note="All methods; lengths around the 2048 limit; line-ending and multi-line variants; faults.",
        assumptions=["passphrases contain no NUL"],
        quick=[[N("os", "passfile", 12, 3), N("os", "passpipe", 12, 3), N("os", "passenv", 6, 1), N("os", "passmethod", 6, 1)],
               [N("main", "failures", 6, 3), N("main", "cmdline", 6, 3)],
               [P("cli", "cli_pass", 12, 6, bins=["cli"]), N("tty", "passtty", 8, 2)],
               [P("ptycli", "pty", 12, 8, bins=["cli"])]],
        thorough=[[N("os", "passfile", 150, 3), N("os", "passpipe", 150, 3), N("os", "passenv", 60, 1), N("os", "passmethod", 60, 1)],
                  [N("main", "failures", 60, 3), N("main", "cmdline", 60, 3)],
                  [P("cli", "cli_pass", 150, 6, bins=["cli"]), N("tty", "passtty", 150, 2)],
                  [P("ptycli", "pty", 100, 8, bins=["cli"])]]),
    "C18": dict(
        level="exploration",
        technique="property-based testing of terminal sessions: a simulated terminal with signals at chosen points of the code, and real pseudo-terminals",
        note="Entries, mismatches, end of file, read errors, and each handled signal before, during and after every terminal call.",
        assumptions=["signals that cannot be caught (SIGKILL, SIGSTOP) are excluded"],
        quick=[[N("tty", "passtty", 15, 5), N("tty-san", "passtty", 15, 3)],
               [P("ptycli", "pty", 25, 8, bins=["cli"])]],
        thorough=[[N("tty", "passtty", 250, 5), N("tty-san", "passtty", 250, 3)],
                  [P("ptycli", "pty", 350, 8, bins=["cli"])]]),
    "C19": dict(
        level="exploration",
        technique="property-based testing with scanning of freed heap blocks, static variables and the dead stack for any piece of a key or passphrase",
        note="Production build; every interface and outcome, including injected faults.",
        assumptions=["registers, stdio's own buffers and memory inside OpenSSL and libc are not scanned", "B, V and XY of scrypt itself are not claimed"],
        quick=[[N("fault", "wipe", 15, 5), N("fault", "wipe_cookie", 8, 1), N("main", "failures", 8, 2)],
               [N("os", "passfile", 8, 3), N("os", "passpipe", 8, 3), N("fault", "wipe_prims", 8, 2)], [N("fault", "fault_enum", 30, 8)],
               [P("cli", "cli_shim", 20, 6, bins=["cli", "lib:shim"]), N("tty", "passtty", 12, 2)]],
        thorough=[[N("fault", "wipe", 250, 5), N("fault", "wipe_cookie", 60, 1), N("main", "failures", 150, 2)],
                  [N("os", "passfile", 150, 3), N("os", "passpipe", 150, 3), N("fault", "wipe_prims", 150, 2)], [N("fault", "fault_enum", 30, 8)],
                  [P("cli", "cli_shim", 200, 6, bins=["cli", "lib:shim"]), N("tty", "passtty", 150, 2)]]),
    "C20": dict(
        level="exploration",
        technique="model-based property testing of main() over generated argument vectors, differential numeric parsing, enumerated option boxes",
        note="main.c runs in process with recorders in place of the library; an independent model decides acceptance and effect.",
        assumptions=["getopt runs with the process-wide reset between cases, as documented for it"],
        quick=[[N("main", "param_box", 10, 1), N("main", "cmdline", 20, 4), N("main-san", "cmdline", 20, 3)],
               [N("os", "parsenum_int", 8, 3), N("os", "parsenum_double", 8, 3), N("os-san", "parsenum_int", 8, 1), N("os-san", "parsenum_double", 8, 1)],
               [P("cli", "cli_roundtrip", 10, 8, bins=["cli"])]],
        thorough=[[N("main", "param_box", 10, 1), N("main", "cmdline", 300, 4), N("main-san", "cmdline", 300, 3)],
                  [N("os", "parsenum_int", 100, 3), N("os", "parsenum_double", 100, 3), N("os-san", "parsenum_int", 100, 1), N("os-san", "parsenum_double", 100, 1)],
                  [P("cli", "cli_roundtrip", 100, 8, bins=["cli"])]]),
    "C21": dict(
        level="exploration",
        technique="property-based testing against exact integer references, enumerated string grids and every power-of-ten boundary",
        note="A grid of 410,000 strings is exhaustive; the rest sampled.",
        assumptions=[],
        quick=[[N("os", "humansize_grid", 20, 2), N("os", "humansize", 10, 3), N("os", "humansize_parse", 10, 3)],
               [N("os-san", "humansize", 6, 4), N("os-san", "humansize_parse", 6, 4)]],
        thorough=[[N("os", "humansize_grid", 20, 2), N("os", "humansize", 150, 3), N("os", "humansize_parse", 150, 3)],
                  [N("os-san", "humansize", 100, 4), N("os-san", "humansize_parse", 100, 4)]]),
    "C22": dict(
        level="exploration",
        technique="property-based testing of info and verbose output against an exact model of the printed report",
        note="All header parameter values; simulated machine for the verbose reports.",
        assumptions=["see C10"],
        quick=[[N("lim", "info_any", 15, 4), N("lim-san", "info_any", 15, 4)],
               [N("lim", "limits", 8, 3), N("lim", "explicit", 8, 3)],
               [P("cli", "cli_info", 15, 8, bins=["cli"])]],
        thorough=[[N("lim", "info_any", 200, 4), N("lim-san", "info_any", 200, 4)],
                  [N("lim", "limits", 100, 3), N("lim", "explicit", 100, 3)],
                  [P("cli", "cli_info", 150, 8, bins=["cli"])]]),
    "C23": dict(
        level="exploration",
        technique="property-based testing with a simulated clock and machine speed; the estimate is compared with the simulated work rate",
        note="Tick sizes, start offsets, rollovers, jitter and clock failures are generated.",
        assumptions=["the salsa20/8 cores computed are charged to a simulated clock"],
        quick=[[N("os", "cpuperf", 15, 4), N("os", "timediff", 10, 1), N("os-san", "cpuperf", 15, 3)]],
        thorough=[[N("os", "cpuperf", 250, 4), N("os", "timediff", 60, 1), N("os-san", "cpuperf", 250, 3)]]),
    "C24": dict(
        level="exploration",
        technique="property-based testing of every failure cause with an oracle on messages and exit status",
        note="All error codes through the reporting function and through main(); message length and content sampled.",
        assumptions=["message texts are those documented in the sources' error table"],
        quick=[[N("os", "print_error", 8, 2), N("os", "warn_any", 8, 2), N("os", "warn_syslog", 6, 1), N("main", "failures", 10, 3)],
               [N("os-san", "print_error", 6, 2), N("os-san", "warn_any", 6, 2), N("os-san", "warn_syslog", 5, 1), N("main-san", "failures", 8, 3)],
               [P("cli", "cli_untouched", 12, 4, bins=["cli"]), P("cli", "cli_full", 12, 4, bins=["cli"])]],
        thorough=[[N("os", "print_error", 100, 2), N("os", "warn_any", 100, 2), N("os", "warn_syslog", 60, 1), N("main", "failures", 150, 3)],
                  [N("os-san", "print_error", 60, 2), N("os-san", "warn_any", 60, 2), N("os-san", "warn_syslog", 40, 1), N("main-san", "failures", 100, 3)],
                  [P("cli", "cli_untouched", 150, 4, bins=["cli"]), P("cli", "cli_full", 150, 4, bins=["cli"])]]),
}

# Nothing is listed that is not claimed.
NOT_APPLICABLE = {}

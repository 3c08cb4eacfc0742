"""Per-property parameters of the checks: binary, (runs, seconds) per tier, how distinct states are counted."""
ASSUME = [
    "x86-64, clang build of the current tree with AddressSanitizer; asserts are on, as in the shipped build",
    "glibc stdio, OpenBLAS (one thread) and libm are the installed ones and are trusted",
    "a clean batch is evidence over the sampled runs, not a proof",
]
_STUB_IO = "disk: files live behind the simulated I/O layer (fopen/open/read wrapped)"
_STUB_MEM = "allocator: operator new/malloc wrapped (contents, failures, accounting); memory comes from the real heap under AddressSanitizer"
_STUB_CLK = "clock and random numbers: simulated"
_STUB_SCH = "threads: real threads run one at a time; pthread mutex/condition/create/join, sleeps and initialisation guards are the simulator's"
COMPONENTS = {
    "e2e": {"real": ["all of libpocketkaldi (C API, front end, network, decoder, language models)", "OpenFst reader", "gemmlowp object code (linked, not on this path)", "OpenBLAS"],
            "stub": [_STUB_IO, _STUB_MEM, _STUB_CLK, _STUB_SCH]},
    "conc": {"real": ["all of libpocketkaldi (C API, front end, network, decoder, language models)", "OpenFst reader", "gemmlowp object code (linked, not on this path)", "OpenBLAS (not pre-empted inside)"],
            "stub": [_STUB_IO, _STUB_MEM, _STUB_CLK, _STUB_SCH]},
    "hist": {"real": ["all of libpocketkaldi (C API, front end, network, decoder, language models)", "OpenFst reader", "OpenBLAS"],
             "stub": [_STUB_IO, _STUB_MEM + "; no quarantine: freed memory is reused at once", _STUB_CLK, _STUB_SCH]},
    "load": {"real": ["all of libpocketkaldi (C API, front end, network, decoder, language models)", "OpenFst reader", "OpenBLAS"],
             "stub": [_STUB_IO, _STUB_MEM, _STUB_CLK, _STUB_SCH]},
    "cli": {"real": ["src/main.cc", "all of libpocketkaldi", "OpenFst reader", "OpenBLAS"], "stub": [_STUB_IO, _STUB_MEM, _STUB_CLK, "standard output: captured in memory"]},
    "fbank": {"real": ["src/fbank.cc, src/srfft.cc, src/vector.cc, src/matrix.cc"], "stub": [_STUB_MEM]},
    "am": {"real": ["src/am.cc, src/nnet.cc, src/matrix.cc, src/vector.cc, src/configuration.cc, OpenBLAS"], "stub": [_STUB_IO, _STUB_MEM]},
    "pool": {"real": ["src/pool.h", "half of the runs: all of libpocketkaldi"], "stub": [_STUB_MEM, _STUB_IO, "node type of the pool runs: a history node of the driver"]},
    "hash": {"real": ["src/hashtable.h, src/hashtable.cc"], "stub": [_STUB_MEM, "key type: driver-defined hash"]},
    "conv": {"real": ["tool/*.py converters, each a real process", "the loaders of src/am.cc, src/nnet.cc, src/vector.cc, src/fst.cc", "CPython, numpy"],
             "stub": ["the converters' disk: open/read/write/close/rename/fsync of their files go through a preloaded shim; files are real, in a private directory", "OpenFst's Python module: a text reader of the driver",
                      _STUB_IO, _STUB_MEM]},
    "lm": {"real": ["src/fst.cc (LmFst, DeltaLmFst, CachedFst), src/symbol_table.cc"], "stub": [_STUB_IO, _STUB_MEM]},
    "gemm": {"real": ["src/gemmlowp (eight_bit_int_gemm entry points, worker pool, kernels)"], "stub": [_STUB_MEM, _STUB_CLK, _STUB_SCH]},
}
_T = "distinct (final transcript, length) pairs"
TABLE = {
    "C01": dict(bin="e2e", quick=(9000, 50), thorough=(200000, 2400), states=_T,
                tech="seeded slicing histories, final results compared with one-call decoding",
                note="Random models, audio and slicings of the real recogniser; bit-for-bit comparison."),
    "C02": dict(bin="e2e", quick=(12000, 50), thorough=(200000, 1800), states="distinct (calls, bytes) histories",
                tech="seeded call histories with rejected calls, counts checked after every call",
                note="Every returned count is compared with the arithmetic definition."),
    "C03": dict(bin="fbank", quick=(12000, 50), thorough=(300000, 1800), states="distinct (samples, pushes) histories",
                tech="seeded push histories on interleaved streams, bit comparison with one-shot and single-window extraction",
                note="Real extractor; every push is checked for promptness, every row against extraction of its window alone."),
    "C04": dict(bin="am", quick=(18000, 50), thorough=(400000, 1800), states="distinct (frames, rows, contexts, batch) histories",
                tech="seeded frame histories on interleaved streams against an executable reference network",
                note="Real acoustic model loaded from generated files; double-precision reference, tolerance 2e-4 relative."),
    "C05": dict(bin="e2e", quick=(6000, 50), thorough=(150000, 2400), states="distinct (partial transcript, refresh point) pairs",
                tech="seeded histories against an executable reference search",
                note="Reference: independent features, network and exhaustive minimum-cost search in double precision; ties within a rounding tolerance are accepted."),
    "C06": dict(bin="e2e", quick=(7500, 50), thorough=(150000, 2400), states=_T,
                tech="seeded histories against an executable reference search",
                note="Reference: independent features, network and exhaustive minimum-cost search; compared where the optimum stays inside the beam."),
    "C07": dict(bin="e2e", quick=(6000, 50), thorough=(150000, 2400), states="distinct (final transcript, score) pairs",
                tech="seeded histories, scores against an executable reference",
                note="Score times frames against the cost of the cheapest path with the reported words, within a rounding tolerance."),
    "C08": dict(bin="pool", quick=(7500, 50), thorough=(200000, 2400), states="distinct (operations, collections, nodes) histories / final transcripts",
                tech="seeded allocation, re-rooting and collection histories against a reachability model; long decodes against a reference search",
                note="Real pool template with a history node of the driver, and the real decoder over many collections."),
    "C10": dict(bin="conc", quick=(3600, 60), thorough=(100000, 3000), states="distinct interleavings (hash of the switch sequence)",
                tech="seeded scheduler over threads driving utterances (pre-emption at every memory access), compared bit for bit with each utterance alone",
                note="Real recogniser shared by 2-4 simulated threads; pre-emption points are first-party loads, stores and basic blocks; memory is sequentially consistent."),
    "C09": dict(bin="load", quick=(4500, 50), thorough=(60000, 2400), states="distinct (frames, words, bytes) histories",
                tech="seeded long streams of periodic audio, peak live memory of the second half against the first",
                note="Real recogniser; every allocation of the code under test is accounted by the allocator seam."),
    "C11": dict(bin="hist", quick=(4500, 60), thorough=(100000, 3000), states="distinct sets of observations",
                tech="seeded process histories over recognizers and utterances, each utterance compared with itself in a fresh process",
                note="Real recogniser; recycled memory is handed out at once with arbitrary contents."),
    "C13": dict(bin="load", quick=(7500, 50), thorough=(150000, 2400), states="distinct fault sequences",
                tech="seeded load histories with injected open failures, read errors, truncation and damage",
                note="Real loaders over the simulated I/O layer; transcripts after an accepted load against the intact model."),
    "C14": dict(bin="load", quick=(6000, 50), thorough=(100000, 2400), states="distinct read-splitting histories",
                tech="seeded short reads and interruptions on every file, transcripts compared with whole reads",
                note="Real loaders over the simulated I/O layer; interruptions only where the I/O layer itself retries (libstdc++ streams)."),
    "C15": dict(bin="load", quick=(7500, 50), thorough=(150000, 2400), states="distinct outcome sequences",
                tech="seeded resource histories with injected I/O and allocation failures, live memory and handles compared between repetitions",
                note="Every allocation and handle of the code under test is accounted by the seams."),
    "C16": dict(bin="load", quick=(60000, 50), thorough=(800000, 1200), states="distinct header sequences",
                tech="seeded audio headers with damage, truncation, read errors and short reads against the format's definition",
                note="Real header reader over the simulated I/O layer."),
    "C18": dict(bin="load", quick=(9000, 50), thorough=(200000, 3000), states="distinct (answers, failures) outcomes",
                tech="seeded interleavings of utterances with injected allocation failures, answers compared with the failure-free history",
                note="Real recogniser; failures at any allocation of the code under test, one or several in a row."),
    "C12": dict(bin="gemm", quick=(12000, 50), thorough=(400000, 2400), states="distinct interleavings (hash of the switch sequence)",
                tech="seeded scheduler over callers and pool workers (basic-block pre-emption, spurious wake-ups), bit comparison with single-threaded runs",
                note="Real gemmlowp code; the pthread calls are the simulator's, memory is sequentially consistent."),
    "C17": dict(bin="e2e", quick=(12000, 50), thorough=(200000, 1800), states="distinct (rejected calls, bytes) histories",
                tech="twin executions with and without injected rejected calls",
                note="Two real utterances in lock step, compared bit for bit after every call."),
    "C21": dict(bin="lm", quick=(18000, 50), thorough=(400000, 1800), states="distinct sequences of answers",
                tech="seeded lookup histories, cached against uncached bit for bit and against an executable definition",
                note="Real LmFst, DeltaLmFst and CachedFst on generated back-off models of any depth."),
    "C23": dict(bin="load", quick=(3000, 50), thorough=(60000, 2400), states="distinct (early, late) work profiles",
                tech="seeded long streams of periodic audio, simulated work (executed basic blocks, bytes copied) late against early",
                note="Real recogniser; work is counted by the simulator's own instrumentation, so it is exact and repeatable."),
    "C22": dict(bin="hash", quick=(24000, 50), thorough=(500000, 1800), states="distinct (contents, failures) outcomes",
                tech="seeded operation histories with injected allocation failures against std::map",
                note="Real hash table template with driver-defined keys and hashes."),
    "C24": dict(bin="conv", quick=(3000, 50), thorough=(60000, 2400), states="distinct (output, exit status) outcomes",
                tech="seeded conversion histories with injected full disks, I/O errors, lost writes, crashes at any byte and early ends of input, every file left behind judged by the recogniser's own loaders",
                note="The real converters as processes, their I/O behind a preloaded shim; OpenFst's Python module is a stand-in."),
    "C19": dict(bin="cli", quick=(9000, 50), thorough=(150000, 2400), states="distinct (output, exit status) pairs",
                tech="seeded lists of audio files with injected open failures, read errors and malformed files, output and exit status of the whole program against the property's definition",
                note="The real program, main() included, over the simulated I/O layer; each line is compared with a fresh one-call decode of that file."),
    "C20": dict(bin="cli", quick=(12000, 50), thorough=(200000, 2400), states="distinct (words, sequence of layouts and faults)",
                tech="seeded line layouts, short reads, read errors and malformed lines, everything read spelled out in a transcript and compared with the intended text",
                note="The real loaders and program; a generated graph makes the transcript list every word of the word list."),
}

"""What each check runs."""
import os
_COV = " -O1 -g -DNDEBUG -fsanitize-coverage=trace-pc -fno-builtin -U_FORTIFY_SOURCE -include " + os.path.join(os.path.dirname(os.path.abspath(__file__)), "mc", "tracepc.h")
FLAVOURS = {
    # like the shipped build: optimised, assertions off
    "rel":    dict(cflags="-O2 -g -DNDEBUG"),
    "reldiff": dict(cflags="-O2 -g -DNDEBUG", rdiff=True),
    # literal command limit scaled from 64 KiB to 16 bytes by the hook in src/job.h
    "scaled": dict(cflags="-O2 -g -DNDEBUG -DRS_VERIF_MAX_DELTA_CMD=16"),
    "scaleda": dict(cflags="-O2 -g -DRS_VERIF_MAX_DELTA_CMD=16"),
    # address sanitizer, array bounds, assertions on
    "san":    dict(cflags="-O1 -g -fsanitize=address,bounds -fno-sanitize-recover=all -fno-omit-frame-pointer", hflags="-fsanitize=address,bounds -fno-sanitize-recover=all"),
    "sanscaled": dict(cflags="-O1 -g -fsanitize=address,bounds -fno-sanitize-recover=all -fno-omit-frame-pointer -DRS_VERIF_MAX_DELTA_CMD=16", hflags="-fsanitize=address,bounds -fno-sanitize-recover=all"),
    "santrace": dict(cflags="-O1 -g -fsanitize=address,bounds -fno-sanitize-recover=all -fno-omit-frame-pointer", hflags="-fsanitize=address,bounds -fno-sanitize-recover=all", cmake=["-DENABLE_TRACE=ON"]),
    # memory accesses instrumented for the harness' own scheduler (the tsan runtime is not linked)
    "instr":  dict(cflags="-O1 -g -DNDEBUG -fsanitize=thread -fno-builtin -U_FORTIFY_SOURCE"),
    # every basic block executed is counted
    "cov":    dict(cflags=_COV, hflags="-fno-builtin -U_FORTIFY_SOURCE"),
    "covscaled": dict(cflags=_COV + " -DRS_VERIF_MAX_DELTA_CMD=16", hflags="-fno-builtin -U_FORTIFY_SOURCE"),
    "trace":  dict(cflags="-O2 -g -DNDEBUG", cmake=["-DENABLE_TRACE=ON"]),
}
AR_WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=time"
HARNESS = {
    "rt": dict(src=["rt.c"]),
    "big": dict(src=["big.c"]),
    "openx": dict(src=["openx.c"]),
    "patchx": dict(src=["patchx.c"]),
    "sigx": dict(src=["sigx.c"]),
    "whole": dict(src=["whole.c"]),
    "sums": dict(src=["sums.c"]),
    "lookup": dict(src=["lookup.c"]),
    "mem": dict(src=["mem.c"], ldflags=AR_WRAP),
    "work": dict(src=["work.c"], ldflags="-Wl,--wrap=memcpy,--wrap=memset,--wrap=memmove,--wrap=memcmp,--wrap=calloc,--wrap=realloc,--wrap=time,--wrap=fread,--wrap=fwrite,--wrap=fseek,--wrap=fseeko"),
    "frees": dict(src=["frees.c"], ldflags=AR_WRAP),
    "indep": dict(src=["indep.c"], ldflags=AR_WRAP),
    "threads": dict(src=["indep.c"], cflags="-DTHREADS -O1 -fno-builtin -U_FORTIFY_SOURCE", ldflags=AR_WRAP + ",--wrap=memcpy,--wrap=memset,--wrap=memmove,--wrap=memcmp"),
    "sched": dict(src=["sched.c"]),
    "stream": dict(src=["stream.c"], ldflags=AR_WRAP),
}
CHECKS = {}
def chk(id, technique, level, level_note, rule, bounds, parts, assumptions=()):
    CHECKS[id] = dict(technique=technique, level=level, level_note=level_note, rule=rule, bounds=bounds, parts=parts, assumptions=list(assumptions))
def P(harness, flavour, mode, **kw): return dict(harness=harness, flavour=flavour, mode=mode, **kw)
def PY(py, flavour, mode, **kw): return dict(py=py, flavour=flavour, mode=mode, **kw)


TRUST = "Trusts the compiler, the harness and the reference implementations in mc/ref.h (checked against published test vectors); nothing outside the stated bounds is claimed."

chk("C01", "bounded exhaustive enumeration of (old, new, parameters) run through the real signature/load/delta/patch code", "exploration",
    "Every file pair in the bound goes through the real pipeline, with two literal-size limits (shipped 64 KiB, and 16 bytes by the hook so that small inputs reach every split). " + TRUST,
    "one evaluation = one delta and patch of one (old,new) pair; non-trivial = the delta has both literal and copy commands; distinct by (new file, delta, type, block length)",
    "all files over 2 letters (|old|<=5, |new|<=7) and 3 letters (3,5), block length 1..4, 4 signature types, NULL signature; all segment sequences (blocks, part blocks, literals of boundary lengths, tails) depth 3-4; all single edits of files up to 100 bytes; all byte values; every literal length 0..68 Ki and around 2^16..2^18, every number of joined blocks; block counts at every table size up to 40000; virtual old files over 4 GiB; thorough: longer files, depth 4-5, all strong lengths tried",
    [P("rt", "rel", "C01"), P("rt", "scaled", "C01-scaled")])

chk("C02", "explicit-state model checking of the real rs_job_iter() (snapshot/restore of heap and globals): all environment choices from every reachable state", "model_checking",
    "The state graph is closed under every choice of input amount, end-of-input timing and output space in the bound, so it covers all buffer schedules of any length for each listed job; larger data with fixed schedule families. The implementation itself is the transition function. " + TRUST,
    "state = complete heap + library globals + position of the caller; transition = one rs_job_iter call; every terminal state must have the output of the one-call run; distinct = distinct (job, terminal) outcomes",
    "jobs: signature, load, delta, patch over ~2660 small inputs (files to 12 bytes, block lengths 1..5, 4 types, literal limit scaled to 16 bytes; block lengths 33..130; every literal and copy encoding); input 0/1/2/all new bytes, eof early/late/again, output space 0,1,2,3,5,all, basis callback full/partial/own buffer; plus 840 larger inputs x ~290 cyclic schedules with the shipped limit",
    [P("stream", "scaled", "C02-scaled"), P("sched", "rel", "C02")])
chk("C03", "explicit-state model checking of the real rs_job_iter() with the buffer contract asserted on every transition; schedule families under AddressSanitizer", "model_checking",
    "Input lies on read-only pages ending at an inaccessible page, output ends at an inaccessible page and is preceded by a canary, the heap is an arena with red zones; assertions of the library are on. No-loop: cycles without progress are excluded on the closed graph. " + TRUST,
    "as C02; on every transition: pointers and counts advance together, nothing else is written, blocked only if more input or space is needed, one call with everything finishes",
    "as C02, plus 322 inputs x ~350 schedules in exactly sized heap buffers under AddressSanitizer and bounds checking, with both literal limits",
    [P("stream", "scaleda", "C03-scaled"), P("sched", "rel", "C03"), P("sched", "san", "C03-san"), P("sched", "sanscaled", "C03-san")])
chk("C04", "bounded exhaustive enumeration of file pairs; every delta compared with a reference greedy block scan", "exploration",
    "The literal bytes and the joining of copies in each delta are compared with an independent greedy matcher. " + TRUST,
    "as C01; non-trivial = the delta has both literal and copy commands", "as C01",
    [P("rt", "rel", "C04"), P("rt", "scaled", "C04-scaled")])
chk("C05", "bounded exhaustive enumeration of file pairs; every delta parsed by an independent strict decoder", "exploration",
    "Every delta in the bound is decoded by a reader written from the format description. " + TRUST,
    "as C01", "as C01, plus signatures of virtual old files over 4 GiB", [P("rt", "rel", "C05"), P("rt", "scaled", "C05-scaled")])
chk("C06", "bounded exhaustive enumeration of (file length, block length, strong length, type); content compared with reference sums", "exploration",
    "Every signature in the bound is compared byte for byte with one built by independent MD4, BLAKE2b, rollsum and RabinKarp code. " + TRUST,
    "one evaluation = one signature; distinct by parameters and content", "all file lengths to 3 blocks and 2 bytes for 41 block lengths x 4 types x 4 fills; every strong length; every block length to 2500 (thorough 5000) and every one around each power of two to 2^21 (thorough 2^24); blocks of 2^22 to 2^28 bytes (thorough 2^30); all byte values at all positions; 0..70001 blocks; defaulted parameters; streaming, whole-file, pipes",
    [P("sigx", "rel", "C06"), P("sigx", "san", "C06-san")])
chk("C07", "exhaustive enumeration of well-formed command sequences executed by the real patch job against a reference interpreter", "exploration",
    "All command encodings and widths, sequences to depth 3-4, under several buffer schedules and basis-callback behaviours. " + TRUST,
    "one evaluation = one delta under one schedule and callback mode; distinct by delta bytes", "every opcode with boundary lengths and offsets, all sequences of up to 3 commands from a 20-command alphabet, callback full/1 byte/half/own buffer; all sequences of up to 5 commands (thorough 6) from 12 literals and adjacent, overlapping, repeated copies; literals and copies of 14 lengths to 2^63-1 at every width (their first bytes)",
    [P("patchx", "rel", "C07"), P("patchx", "san", "C07-san")])
chk("C08", "exhaustive enumeration of byte strings and of all truncations and single-byte changes of valid deltas against a reference classifier", "exploration",
    "Result kind and output prefix are compared with a classifier written from the format description; memory errors are caught by guard pages and AddressSanitizer. " + TRUST,
    "one evaluation = one byte string; distinct by bytes", "all strings of up to 3 bytes after the magic, all values of each byte of a set of valid deltas, all truncations, all wrong magics in each byte; several schedules",
    [P("patchx", "rel", "C08"), P("patchx", "san", "C08-san")])
chk("C09", "exhaustive enumeration of signature headers, truncations and changes against a reference parser", "exploration",
    "Acceptance, error kind and the use of every loaded entry (found by a delta) are compared with a reference parser. " + TRUST,
    "one evaluation = one byte string loaded; distinct by bytes", "header field products over all boundary values, all truncations, every entry looked up, several schedules, all magics in each byte",
    [P("sigx", "rel", "C09"), P("sigx", "san", "C09-san")])
chk("C10", "fault enumeration over callback invocations: every error code at every call of every callback", "exploration",
    "For the basis callback and for both callbacks of rs_job_drive, of every kind of job. " + TRUST,
    "one evaluation = one run with one fault; distinct by (run, callback, index, code)", "every result code, every callback index, errors with every amount of data beside them (none, part, all, too much, no buffer), over/under-delivering basis callbacks, under AddressSanitizer and with assertions off",
    [P("patchx", "rel", "C10-ndebug"), P("patchx", "san", "C10")])
chk("C11", "fault enumeration: every I/O operation of every whole-file call x fault kind, single faults and pairs", "fault_enumeration",
    "Streams are memory-backed with unbuffered and buffered stdio; output must be complete whenever the call succeeds and the stream closes cleanly. " + TRUST,
    "one evaluation = one call with one fault plan; distinct by (call, stream, operation index, fault kind, buffers)", "read/write/seek errors once and permanent, short reads and writes, partial then error, read error followed by end of file, at every operation index; buffer sizes 1..default",
    [P("whole", "rel", "C11")])
chk("C12", "bounded exhaustive enumeration of buffer sizes x stream kinds x read chunkings; results compared with streaming in one call", "exploration",
    "Whole-file, callback-driven and manual interfaces. " + TRUST, "one evaluation = one whole-file or driven run; distinct by (data, buffers, stream kind, chunking)",
    "input and output buffer sizes 1..20 and boundary values, regular files, pipes, streams positioned off the start, unknown sizes, 1/3/odd-byte reads; block lengths around and over the buffer sizes and 64 KiB; rdiff with 30 x 14 buffer size settings", [P("whole", "rel", "C12"), PY("mcrdiff", "reldiff", "C12")])
chk("C13", "fault enumeration on the real rdiff program: size limit at every output byte, reset socket at every input byte, full device, closed pipes, system call faults, damaged inputs, option product", "fault_enumeration",
    "The exit status is compared with the completeness of the output as judged by independent Python references. System call faults need strace; without ptrace that part is skipped and reported as not completed. Trusts the kernel and popt.",
    "one evaluation = one rdiff process; distinct = cases (command line x fault)", "3 commands x 4 buffer settings x files/stdin/stdout x every byte offset; ~5000 option combinations; ~180 wrong command lines; all truncations and (for the leading bytes all, then 11) values of each byte of a signature and a delta; 12 system call faults x every occurrence",
    [PY("mcrdiff", "reldiff", "C13"), PY("mcrdiff", "reldiff", "C13-sys")])
chk("C14", "exhaustive enumeration of path states x commands x force x user; file system snapshot before and after", "exploration",
    "Runs rdiff and rs_file_open as root and as an unprivileged user in scratch directories; content, type, mode, inode and modification time of everything in the directory are compared.",
    "one evaluation = one process; distinct = cases", "23 output states (absent, contents, permissions, links, link loops, directories, fifo, devices, socket, same as an input, unreachable) x 3 commands x force x user x 5 input states",
    [PY("mcrdiff", "reldiff", "C14")])
chk("C15", "exhaustive enumeration of operation sequences on the real rolling checksums against recomputation", "exploration",
    "All operation sequences to the depth, all byte values, all window lengths in the bound. " + TRUST, "state = window reached by a sequence; every state compared with the reference; distinct by (window, history class)",
    "sequences of update/rollin/rollout/rotate to depth 6-7 over boundary bytes, all byte pairs, window lengths 0..~2100 and powers of two", [P("sums", "rel", "C15"), P("sums", "san", "C15-san")])
chk("C16", "exhaustive enumeration of lengths, splits and alignments against reference MD4/BLAKE2b", "exploration", TRUST,
    "one evaluation = one digest; distinct by data and parameters", "all lengths 0..~1200, all 2- and 3-way splits of lengths around block boundaries, alignments 0..15, lengths crossing 512 MiB (bit count over 32 bits)", [P("sums", "rel", "C16"), P("sums", "san", "C16-san")])
chk("C17", "exhaustive enumeration of small signatures and lookup histories against linear search; adversarial and large tables", "exploration", TRUST,
    "state = one loaded signature; transition = one lookup; distinct by signature bytes", "all signatures of up to 4 entries over 5 weak sums x 3 contents (6 over fewer), every lookup in 3 orders; collision patterns with every count to 400; counts around every table size to 2^20 (thorough 2^23)",
    [P("lookup", "rel", "C17"), P("lookup", "san", "C17-san")])
chk("C18", "bounded exhaustive enumeration as C01/C12 with statistics recomputed from the decoded delta or signature", "exploration", TRUST, "as C01 and C12", "as C01 (literal lengths near multiples of 256); whole-file runs over buffer sizes; deltas without signature in three pieces of 0 to 32 MiB each; rdiff --statistics",
    [P("rt", "rel", "C18"), P("rt", "scaled", "C18-scaled"), P("whole", "rel", "C18"), PY("mcrdiff", "reldiff", "C18"), P("sums", "rel", "C18-text")])
chk("C19", "exhaustive enumeration of sizes at all boundaries x types x block lengths x strong lengths against the documented rules", "exploration", TRUST,
    "one evaluation = one rs_sig_args call (and use of what it returns); distinct by arguments", "all sizes 0..70000 and around all powers of two and squares to 2^63-1, all types incl. unknown, block lengths and strong lengths at all boundaries; whole-file calls on regular files (sparse, around every power of two from 2^30 to 2^62), pipes, sockets, memory and custom streams", [P("sums", "rel", "C19"), P("sums", "san", "C19-san")])
chk("C20", "stateless exploration of the real code: all interleavings of calls of 2-3 tasks, nesting in callbacks, all short histories; thread schedules preempted at every conflicting access", "model_checking",
    "Thread part: the library is compiled with -fsanitize=thread instrumentation and linked to our own runtime; the accesses two tasks have in common (none on the current tree, except inside shared read-only objects) are the scheduling points. " + TRUST,
    "state = (task, position); transition = one API call or instrumented access; each task's results must equal its solo run", "12 task kinds, all pairs and chosen triples, all interleavings of calls; all histories of up to 2 earlier tasks; sizing, signature and load calls with all 108 argument sets (defaults included) after every other one; whole-file calls one after the other on the same streams; 3 fresh-memory fill patterns; threads: all pairs, up to 2 preemptions at conflicting accesses",
    [P("indep", "rel", "C20"), P("whole", "rel", "C20-files"), P("threads", "instr", "C20-threads")])
chk("C21", "explicit-state model checking: free at every reachable state of every job under an allocation ledger; enumerated faults in whole-file calls and indexing", "model_checking",
    "Every malloc/free of the library goes through a checking arena (double and foreign frees, leaks, red zones). " + TRUST, "as C02; at every state the job (and signature) is freed in every allowed order",
    "as C02; whole-file calls with every truncation, damage and I/O fault; every allocation failing while indexing", [P("stream", "scaled", "C21-scaled"), P("frees", "rel", "C21")])
chk("C22", "exhaustive enumeration of byte strings and lengths against a reference codec, buffers ending at inaccessible pages", "exploration", TRUST,
    "one evaluation = one encode and decode; distinct by input", "all strings of up to 2-3 bytes, all lengths to ~1000, every position x every byte value, lengths of 256 MiB and more", [P("sums", "rel", "C22"), P("sums", "san", "C22-san")])
chk("C23", "exhaustive enumeration of levels x messages x sizes and of every trace setting over whole operations", "exploration", TRUST,
    "one evaluation = one message, one formatted text or one operation under one trace setting; distinct by parameters", "all level pairs, message lengths 0..~5000, all buffer sizes up to the full text, boundary statistics; trace-enabled builds",
    [P("sums", "rel", "C23"), P("sums", "san", "C23-san"), P("sums", "trace", "C23-trace"), P("sums", "santrace", "C23-trace-san")])
chk("C24", "exhaustive enumeration of 32/64-bit boundary offsets, lengths and totals with virtual files over 4 GiB", "exploration", TRUST,
    "one evaluation = one job on a boundary value; distinct by delta bytes", "39 boundary values for offset and length at every width; literals (also with all input and output space in one call), copies, one-call inputs and a complete pipeline of more than 2^32 bytes; old-file offsets to 2^44; a virtual old file of nearly 2^63 bytes read by rs_patch_file at every power of two from 2^30; copies of up to 2^63-1 bytes run to their end; sparse files; block lengths to 2^31-1; 2 and 4 GiB of input on top of input already held; a signature of 59.7 million blocks (2 GiB of sums); statistics text to 2^63", [P("big", "rel", "C24"), P("sums", "rel", "C24-text")])
chk("C25", "exhaustive enumeration of jobs x data shapes x input and output schedules x stream lengths, with every allocation of the library counted", "exploration", TRUST,
    "one evaluation = one job (or whole-file call) on one stream length; transitions = allocations; distinct by (case, schedule, peak)",
    "signature, delta, delta without signature, patch; block lengths 1..64 with the literal limit scaled to 16 and 16..70000 with the shipped one; 5 data shapes; 12 x 12 (7 x 7) amounts of input and output per call in 4 patterns; streams of n, 2n and 4n bytes; signatures of 0..131073 blocks loaded 7 ways; whole-file calls under 4 x 3 buffer settings; rdiff on 3 and 48 MB",
    [P("mem", "rel", "C25"), P("mem", "scaled", "C25-scaled"), PY("mcrdiff", "reldiff", "C25")])
chk("C26", "exhaustive enumeration of jobs x data shapes x schedules x stream lengths, and of signature sizes and sum patterns, counting every basic block executed and byte moved by the library", "exploration",
    "The count is exact and repeatable, so growth faster than the data shows without timing anything. " + TRUST,
    "one evaluation = one job, index or whole-file call on one length; transitions = rs_job_iter calls; distinct by (case, schedule, count)",
    "signature, load, delta, delta without signature, patch; block lengths 1..64 (literal limit 16) and 16..70000 (shipped limit); 6 data shapes; 7 x 7 (4 x 4) amounts of input and output per call in 3 patterns; streams of n, 2n, 4n and 8n bytes; signatures of 1..131072 blocks (thorough 2^20) with 7 patterns of weak sums; real old files of 64..16384 blocks with 8 kinds of content; whole-file calls under 5 x 4 buffer settings",
    [P("work", "cov", "C26"), P("work", "covscaled", "C26-scaled")])

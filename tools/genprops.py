#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here because one JSON line per property is unreadable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Round trip: patching the old file with the delta rebuilds the new file exactly",
  """For every old file, new file and valid choice of signature type, block length and strong-sum length,
  making a signature of the old file, computing a delta of the new file against it, and applying that delta to the
  old file succeeds and yields exactly the bytes of the new file.  This includes empty files, files shorter than a
  block, new data of any length between matches, and an absent or empty signature.""",
  ["inputs", "configurations"],
  "all (old file, new file, signature type, block length, strong length), up to a strong-sum collision",
  "Tests use a few dozen file pairs, all below about 26 KB, so literal runs above 64 KiB, wide offsets and most alignments never occur.",
  ["src/delta.c", "src/patch.c", "src/mksum.c", "src/readsums.c", "src/sumset.c", "src/emit.c", "src/netint.c", "src/tube.c", "src/scoop.c", "src/prototab.c"],
  [("scan/flush state functions emit covering commands", "src/delta.c:rs_delta_s_scan,rs_delta_s_flush"), ("patch interpreter", "src/patch.c:rs_patch_s_run")],
  [("scan_pos/basis_len", "pending miss or match", "src/job.h")], ["rs_job_iter", "rs_*_file", "rdiff"],
  "RS_VERIF_MAX_DELTA_CMD (optional scaling of the literal split threshold)")
p("C02", "Streaming results do not depend on how input and output are sliced into buffers",
  """For signature generation, signature loading, delta generation against a non-empty signature, and patching, the
  concatenated output bytes and the final result are the same whatever sequence of input amounts, output space
  (including none) and end-of-input timing the caller supplies across calls.  When there is no signature, the delta
  may split its literal data differently but must still describe the same new file.""",
  ["schedules", "inputs"], "all sequences of (bytes presented, output space, eof early/late) per call, all inputs",
  "The repository's tests drive a handful of fixed buffer sizes; a schedule that blocks exactly between two bytes of one command or checksum is not reached.",
  ["src/job.c", "src/scoop.c", "src/tube.c", "src/mksum.c", "src/readsums.c", "src/delta.c", "src/patch.c", "src/netint.c"],
  [("scoop keeps unconsumed input", "src/scoop.c"), ("tube keeps undelivered output", "src/tube.c"), ("resumable state functions", "src/job.c:rs_job_work")],
  [("scoop_*", "input taken but not yet used", "src/job.h"), ("write_buf/copy_len", "output owed", "src/job.h")], ["rs_job_iter"],
  "RS_VERIF_MAX_DELTA_CMD")
p("C03", "Buffer contract: exact accounting, no out-of-bounds access, guaranteed progress",
  """A streaming call reads only the input presented, never modifies it, writes only into the output space given,
  advances the caller's pointers and counts consistently by what it consumed and produced, and never touches memory
  outside its own allocations.  A call that has all the remaining input, the end-of-input flag and enough output
  space finishes the job, no job ever loops forever or reports an internal error, and blocked means more input or
  more output space is really needed.""",
  ["schedules", "inputs"], "every reachable job state, every next call the caller may make from it",
  "Tests only look at final files; a stray read past the input end, a wrong count or a stuck state needs a specific blocking point.",
  ["src/scoop.c", "src/tube.c", "src/job.c", "src/delta.c", "src/patch.c", "src/mksum.c", "src/readsums.c"],
  [("avail_in/avail_out bookkeeping", "src/scoop.c, src/tube.c"), ("no-progress check", "src/job.c:rs_job_iter")],
  [("rs_buffers_t", "caller visible cursor", "src/librsync.h")], ["rs_job_iter"], "RS_VERIF_MAX_DELTA_CMD")
p("C04", "Deltas find shared blocks: no more literal data than a greedy block scan leaves",
  """Wherever, scanning the new file left to right, the bytes at the current position equal a whole block of the old
  file (or the end of the new file equals the old file's short last block), the delta copies them rather than
  sending them; matches of consecutive old blocks are joined into one copy.  So a delta never carries more literal
  bytes than this greedy scan, at whatever alignment the shared data occurs and however many blocks the old file has.""",
  ["inputs", "configurations"], "all (old file, new file, signature parameters)",
  "Tests check that patching works, and a delta with missed matches still patches correctly; only a few weak-sum values are unit tested.",
  ["src/delta.c", "src/sumset.c", "src/hashtable.h", "src/rollsum.h", "src/rabinkarp.h", "src/checksum.h"],
  [("rolling weak sum over every offset", "src/delta.c:rs_delta_s_scan"), ("hash lookup", "src/sumset.c:rs_signature_find_match"), ("match extension", "src/delta.c:rs_appendmatch")],
  [("weak_sum", "rolling checksum of the window", "src/job.h")], ["delta output"])
p("C05", "Deltas follow the documented format; copies only name existing old-file bytes",
  """Every delta produced is the documented magic followed by complete literal and copy commands and one final end
  command with nothing after it, each length is positive, and interpreting it with an independent decoder gives the
  new file.  Every copy command lies entirely inside the old file that the signature describes, and lengths and
  offsets are encoded so that any conforming reader decodes the same values.""",
  ["inputs", "configurations"], "all (old file, new file, signature parameters), all literal and copy sizes",
  "Tests decode deltas only with the same library, so a consistent encoder/decoder error is invisible, and large lengths or offsets never occur.",
  ["src/emit.c", "src/netint.c", "src/prototab.c", "src/delta.c", "doc/format.md"],
  [("command selection by width", "src/emit.c:rs_emit_copy_cmd,rs_emit_literal_cmd"), ("integer width", "src/netint.c:rs_int_len")],
  [], ["delta output"])
p("C06", "Signatures have exactly the documented content for every file and parameter set",
  """A signature is the header (type, block length, strong-sum length) followed by one entry per block of the old file
  in order, the last block possibly short, each entry being the weak sum and the truncated strong sum of exactly that
  block as defined for the signature type (rollsum or RabinKarp; MD4 or BLAKE2b).  An empty file gives only the header.""",
  ["inputs", "configurations"], "all files, block lengths, strong lengths and the four signature types",
  "Tests compare a few stored signatures for one block length; a wrong short block, truncation or header for other parameters is unseen.",
  ["src/mksum.c", "src/sumset.c", "src/checksum.c", "src/rollsum.c", "src/rabinkarp.c", "src/mdfour.c", "src/blake2/blake2b-ref.c"],
  [("block loop", "src/mksum.c:rs_sig_s_generate"), ("sum calculation", "src/checksum.c")], [], ["signature output"])
p("C07", "Patch executes every well-formed delta, from any encoder, as documented",
  """Any delta that follows the documented format, using any of the literal and copy encodings at any parameter width
  (also wider than needed), copy commands in any order, overlapping or repeated, and any positive length, produces
  exactly the bytes obtained by executing its commands one by one on the old file.  This holds whether the basis
  reader returns all the bytes asked for or only some, in the given buffer or in one of its own.""",
  ["inputs", "programs", "schedules"], "all well-formed command sequences, all short-read patterns of the basis reader, all output slicings",
  "The library's own encoder never emits most of the command space and the tests only patch what it emits.",
  ["src/patch.c", "src/prototab.c", "src/netint.c", "src/fileutil.c"],
  [("command table", "src/prototab.c"), ("copy loop", "src/patch.c:rs_patch_s_copying")], [("basis_pos/basis_len", "rest of the current copy", "src/job.h")], ["rs_patch_begin", "rs_patch_file"])
p("C08", "Malformed or truncated deltas are always reported, never accepted, never crash",
  """A delta that has a wrong magic number, a reserved command, a zero or negative length, a negative offset, a copy
  beyond the old file, or ends anywhere before its end command makes patching finish with an error of the matching
  kind (bad magic, corrupt, unexpected end of input) and never with success.  Whatever the bytes, patching neither
  crashes, overruns memory nor runs forever, and what it wrote before the error is what the valid commands before
  the fault produce.""",
  ["inputs"], "all byte strings presented as a delta",
  "The suite has a handful of corrupt deltas; the space of corruptions is every byte string and every truncation point.",
  ["src/patch.c", "src/tube.c", "src/scoop.c", "src/netint.c", "src/prototab.c", "src/fileutil.c"],
  [("parameter validation", "src/patch.c:rs_patch_s_literal,rs_patch_s_copy"), ("input-ended detection", "src/tube.c:rs_tube_catchup, src/scoop.c")], [], ["rs_job_iter result", "rs_patch_file result"])
p("C09", "Malformed or truncated signatures are reported; valid ones load completely",
  """Loading a signature succeeds exactly when it is a complete header with a known type, a block length of at least
  one and a strong-sum length between one and the type's maximum, followed by zero or more complete entries, and then
  every entry is used for matching.  Anything else (unknown type, bad lengths, cut in the header or inside an entry)
  ends with an error (bad magic, corrupt or bad parameter, unexpected end of input) without crash, overrun or endless loop.""",
  ["inputs"], "all byte strings presented as a signature, with or without a known file size",
  "Tests load only signatures the library has just made, plus a few bad headers.",
  ["src/readsums.c", "src/sumset.c", "src/netint.c", "src/scoop.c"],
  [("header validation", "src/readsums.c:rs_loadsig_s_*"), ("argument validation", "src/sumset.c:rs_sig_args")], [], ["rs_loadsig_begin", "rs_loadsig_file"])
p("C10", "Errors from caller callbacks stop the operation and are returned unchanged",
  """If the basis-read, input or output callback reports an error at any call, the operation stops at once, returns
  exactly that error to the caller and calls no further callbacks, and the output delivered by then is a correct
  prefix of the full output.  A basis callback that claims more bytes than asked for never makes the library write
  past the output space, and one that delivers nothing does not make it loop or succeed.""",
  ["fault_sequences", "inputs"], "an error of every kind at every callback invocation, all operations",
  "No test injects a callback failure; the failing call index and error code multiply over every operation.",
  ["src/patch.c", "src/job.c"], [("callback result propagation", "src/patch.c:rs_patch_s_copying, src/job.c:rs_job_drive")], [], ["rs_job_iter", "rs_job_drive"])
p("C11", "Whole-file calls never report success when a read, write or seek lost data",
  """If any read, write or seek on the old, new, signature or delta stream fails or comes up short at any point, the
  whole-file signature, load, delta or patch call returns an error, unless every byte was nevertheless transferred;
  when it returns success and the output stream closes cleanly, the output is complete and correct.  Short reads and
  writes that do not lose data change nothing.""",
  ["fault_sequences", "crash_points"], "a fault of each kind (error once, error sticky, short transfer, end of file, seek failure) at every I/O call of every operation",
  "No test makes a stream fail; the failure must hit one particular read, write or seek.",
  ["src/whole.c", "src/buf.c", "src/fileutil.c"], [("fill/drain error checks", "src/buf.c"), ("basis read", "src/fileutil.c:rs_file_copy_cb")], [], ["rs_sig_file", "rs_loadsig_file", "rs_delta_file", "rs_patch_file"])
p("C12", "Whole-file, callback-driven and streaming interfaces give identical results",
  """The whole-file calls, the callback-driven loop and manual streaming produce the same output bytes and result for
  the same data and parameters, for every setting of the input and output buffer sizes, and whether the streams are
  regular files, pipes or streams of unknown size positioned anywhere.  The command-line tool's buffer-size options
  likewise never change its output.""",
  ["configurations", "inputs", "schedules"], "all buffer sizes from one byte up, all stream kinds, all read-chunk patterns of the underlying stream",
  "Tests try five buffer sizes on regular files only.",
  ["src/whole.c", "src/buf.c", "src/job.c", "src/fileutil.c"], [("buffer refill with leftover", "src/buf.c:rs_infilebuf_fill"), ("drain", "src/buf.c:rs_outfilebuf_drain")], [("rs_inbuflen, rs_outbuflen", "buffer size overrides", "src/whole.c")], ["rs_*_file", "rs_job_drive", "rdiff -I -O"])
p("C13", "rdiff exits 0 only if its whole output was written, non-zero on any failure",
  """The command-line tool exits with status 0 only when the complete, correct output has reached its destination; a
  full disk, a closed pipe, a read error, a corrupt, truncated or missing input, or a bad option, action or argument
  count gives a non-zero status and a message.  Every accepted combination of hash, rolling-sum, block-size, sum-size
  and buffer options, with files or standard input and output, makes signature, delta and patch round-trip.""",
  ["fault_sequences", "configurations"], "every output byte position at which the device can fill up, every command, every option combination",
  "Test scripts run successful commands and a couple of syntax errors; none makes output fail.",
  ["src/rdiff.c", "src/fileutil.c", "src/isprefix.c", "src/whole.c"], [("result to exit status", "src/rdiff.c:main"), ("open/close helpers", "src/fileutil.c")], [], ["exit status", "output file", "stderr"])
p("C14", "Files are never overwritten without --force, and inputs are never changed",
  """Without the force option an output path that already exists, whatever its contents or permissions, is left
  untouched and the command (or the library's open helper) fails; with it the file is replaced by exactly the new
  output.  No operation modifies or creates any file other than its output, and an input that is missing or
  cannot be opened leaves no changed output behind.""",
  ["configurations", "histories"], "all commands, output-path states (absent, empty, non-empty, unreadable, unwritable, directory, dangling or live link), force on/off, short and long option forms",
  "One script checks one existing file per command.",
  ["src/fileutil.c", "src/rdiff.c"], [("existence check before opening for write", "src/fileutil.c:rs_file_open")], [], ["file system state before/after", "exit status"])
p("C15", "Rolling checksums depend only on the window contents, not on how it was reached",
  """For both rolling checksums, after any sequence of adding data in bulk, rolling bytes in, rolling bytes out and
  rotating, the digest and count equal those of computing the checksum afresh over the bytes now in the window, for
  every byte value and every window length.  The values are the documented ones, so signatures interoperate.""",
  ["histories", "inputs"], "all operation sequences, all byte values, all window lengths",
  "Unit tests follow one operation sequence over one 256-byte pattern.",
  ["src/rollsum.c", "src/rollsum.h", "src/rabinkarp.c", "src/rabinkarp.h", "src/checksum.h", "src/checksum.c"],
  [("incremental update algebra", "src/rollsum.h, src/rabinkarp.h")], [("count,s1,s2 / count,hash,mult", "checksum state", "src/rollsum.h, src/rabinkarp.h")], ["RollsumDigest", "rabinkarp_digest", "weaksum_digest"])
p("C16", "Strong checksums are standard MD4 and BLAKE2b values, however data is fed in",
  """The MD4 digest, computed in one call or fed through the incremental interface in any division into pieces, at any
  memory alignment and for any length, equals the standard MD4 of the concatenated bytes; the strong sums used in
  signatures equal standard MD4 or 32-byte BLAKE2b of the block.""",
  ["inputs", "histories"], "all messages lengths around and above every internal block boundary, all splits, all alignments",
  "Unit tests check a dozen one-shot MD4 vectors and no incremental split.",
  ["src/mdfour.c", "src/blake2/blake2b-ref.c", "src/checksum.c"], [("tail buffering", "src/mdfour.c:rs_mdfour_update"), ("block compression", "src/blake2/blake2b-ref.c")], [("tail, tail_len, totalN", "incremental MD4 state", "src/mdfour.h")], ["rs_mdfour*", "rs_calc_strong_sum"])
p("C17", "Block lookup finds a matching block exactly when one exists",
  """Looking up data in a loaded signature returns the position of a block whose weak and (stored length of) strong
  sums both equal those of the data whenever there is such a block, and reports no match otherwise, for any number of
  blocks, any collisions or repetitions of weak sums, and any weak-sum value including zero and all ones.  Among identical
  blocks the same, first one is reported each time, and looking up never changes later answers.""",
  ["inputs", "histories"], "all multisets of block sums up to a size, all insertion orders, all probe sequences, adversarial weak-sum collisions",
  "Unit tests insert 256 well-spread keys once; real files rarely collide.",
  ["src/sumset.c", "src/hashtable.c", "src/hashtable.h"], [("open addressing with bloom filter", "src/hashtable.h"), ("lazy strong sum compare", "src/sumset.c:rs_block_match_cmp")], [("ktable/etable/kbloom", "hash table", "src/hashtable.h")], ["rs_signature_find_match", "delta output", "hashtable find/add/iterate"])
p("C18", "Reported statistics equal what the operation really did",
  """For every completed operation the reported numbers of literal and copy commands, their data bytes and command
  bytes, and signature blocks and block length equal those counted in the delta or signature itself, and the reported
  input and output byte totals equal the bytes read and written.  This holds for every input and every buffering.""",
  ["inputs", "schedules"], "all operations, inputs and bufferings",
  "No test checks statistics values.",
  ["src/stats.c", "src/emit.c", "src/patch.c", "src/mksum.c", "src/readsums.c", "src/buf.c", "src/whole.c"], [("counters", "src/emit.c, src/patch.c, src/mksum.c, src/readsums.c, src/buf.c")], [("rs_stats_t", "counters", "src/librsync.h")], ["rs_job_statistics", "stats argument of whole-file calls"])
p("C19", "Recommended and defaulted signature parameters are always valid and safe",
  """For every old-file size (or unknown) and every requested type, block length and strong length, parameter
  resolution either fails with a bad-magic or bad-parameter error or yields values accepted everywhere: a known type,
  a positive block length, and a strong length of at least one and at most the type's maximum.  Values the caller gave
  are kept, omitted ones follow the documented rules (maximum strength; block length near the square root of the size with a
  256-byte minimum), and the minimum strength grows enough with the file size to keep accidental collisions below about 1 in 2^32.""",
  ["inputs", "configurations"], "all sizes from -1 to 2^63-1 at every boundary, all parameter choices",
  "Unit tests sample a handful of sizes.",
  ["src/sumset.c", "src/util.c", "src/whole.c", "src/mksum.c"], [("argument resolution", "src/sumset.c:rs_sig_args"), ("integer sqrt / log2", "src/util.c")], [], ["rs_sig_args", "signature header"])
p("C20", "Jobs are independent: interleaving, threads and history never change output",
  """Running other jobs interleaved between (or from a basis callback inside) a job's calls, running jobs that share no
  objects in several threads under any schedule, and whatever was run or freed before, never changes any job's output,
  result or statistics.  A loaded signature can serve any number of deltas, one after the other or interleaved, each
  the same as if it were the only one.""",
  ["schedules", "histories"], "all interleavings of job steps up to a depth, all thread preemptions at conflicting accesses, all heap fill contents, job sequences",
  "Tests run one job at a time in one thread in a fresh process.",
  ["src/job.c", "src/util.c", "src/trace.c", "src/sumset.c", "src/delta.c", "src/patch.c", "src/mksum.c"], [("all state in the job object, zeroed on creation", "src/job.c:rs_job_new, src/util.c")], [], ["outputs of concurrent jobs"])
p("C21", "Jobs and signatures can be freed at any point without leak or damage",
  """Freeing a job after any number of calls, whether finished, failed or abandoned, and freeing a signature in any
  state releases everything the library allocated exactly once and nothing else; a signature loaded by a job stays
  usable after the job is freed, and one used by a delta stays with the caller.  Failure to allocate the lookup table
  is reported as a memory error and leaves the signature usable and freeable.""",
  ["histories", "crash_points", "fault_sequences"], "abandonment at every reachable state of every kind of job, allocation failure at each allocation of table building",
  "Tests never abandon jobs and never fail an allocation.",
  ["src/job.c", "src/sumset.c", "src/hashtable.c", "src/buf.c", "src/whole.c", "src/util.c"], [("ownership flag", "src/job.c:rs_job_free"), ("rs_build_hash_table", "src/sumset.c")], [("job_owns_sig", "who frees the signature", "src/job.h")], ["allocator trace"])
p("C22", "Base64 and hex helpers encode standardly and decode back exactly",
  """For every byte string, base64 encoding uses the standard alphabet without padding and hex encoding gives two
  lower-case digits per byte, both terminated; decoding the base64 text restores exactly the original bytes and
  returns exactly their number.  Encoders write nothing past the terminator, and the in-place decoder nothing past the end of the text.""",
  ["inputs"], "all byte strings",
  "No test covers these helpers.",
  ["src/base64.c", "src/hex.c"], [("bit packing", "src/base64.c")], [], ["rs_base64", "rs_unbase64", "rs_hexify"])
p("C23", "Logging and statistics text are bounded, level-filtered and side-effect free",
  """Only messages at or above the chosen severity are delivered, to the chosen sink, each as one terminated message
  whatever its length that names the calling function unless flagged not to, and formatted statistics never write past the size given, are always terminated, and are the
  full text when it fits.  Listing a signature shows every block with its whole strong sum. Turning on any trace level or sink changes no output, result or statistic of any operation,
  and every result code has a description.""",
  ["configurations", "inputs"], "all severity levels, message lengths, buffer sizes and operations",
  "Tests run with one level and never look at truncation.",
  ["src/trace.c", "src/stats.c", "src/msg.c", "src/command.c", "src/hex.c", "src/sumset.c"], [("level check", "src/trace.c:rs_log0"), ("snprintf chain", "src/stats.c")], [("rs_trace_level, rs_trace_impl", "global logging settings", "src/trace.c")], ["trace callback", "rs_format_stats"])
p("C24", "Offsets and lengths beyond 32 bits are handled exactly",
  """Old-file offsets and copy or literal lengths are handled as 64-bit values everywhere: copies at offsets beyond
  2 GiB and 4 GiB ask the basis reader for exactly those positions, signatures whose blocks span more than 4 GiB give
  correct offsets in the delta, and totals in statistics do not wrap.  Lengths and counts that cannot be represented are
  rejected, never silently truncated.""",
  ["inputs"], "all offsets and lengths at and around every power-of-two width boundary",
  "Tests never use data over 26 KB (one optional large-file test is not in the suite).",
  ["src/patch.c", "src/delta.c", "src/sumset.c", "src/emit.c", "src/netint.c", "src/fileutil.c", "src/prototab.c"], [("rs_long_t arithmetic", "src/sumset.c:rs_signature_find_match, src/patch.c")], [], ["copy callback arguments", "delta bytes", "statistics"])
p("C25", "Memory stays bounded however long the streams are and however slowly they move",
  """The memory a signature, delta or patch job holds is bounded by the block length, the literal limit and the amount of
  input presented at once, whatever the length of the stream, its contents and the amounts of input and output space per
  call; a loaded signature and its index take memory in proportion to its blocks.  The whole-file calls and the
  command-line tool likewise use memory fixed by their buffers and the block length, all of it is released at the end,
  and lookups and repeated deltas against a signature hold on to nothing.""",
  ["schedules", "inputs", "configurations"], "all stream lengths, contents and sequences of input amounts and output space",
  "Tests use files of a few KB and never measure memory; growth needs input that keeps arriving while output is taken slowly.",
  ["src/scoop.c", "src/delta.c", "src/tube.c", "src/buf.c", "src/whole.c", "src/sumset.c", "src/hashtable.c", "src/patch.c"],
  [("scoop sizing", "src/scoop.c:rs_scoop_input"), ("amount scanned at once", "src/delta.c:rs_getinput"), ("growth of the sum table", "src/sumset.c:rs_signature_add_block")],
  [("scoop_alloc", "size of the internal input buffer", "src/job.h")], ["malloc/free", "rdiff under an address space limit"])
p("C26", "Work grows in proportion to the data, however sliced and whatever repeats",
  """The work of making or loading a signature, indexing it, computing a delta and patching grows no faster than the bytes
  going in and out, whatever the amounts of input and output space per call, and scanning new data costs about the same
  per byte whatever the block length and however many blocks the signature has, also when blocks repeat thousands of
  times or nothing matches.  (Different blocks that share one weak sum are compared one by one; data made of them is
  excepted.)  The whole-file calls read, write and position their streams about as often as their buffers and the copy
  commands require, and never read or write a byte of a sequential stream twice.""",
  ["schedules", "inputs", "configurations"], "all stream lengths, contents, block counts and sequences of input amounts and output space",
  "Tests use files of a few KB and never measure work; growth shows only with many blocks, repeated content or small buffers together.",
  ["src/delta.c", "src/scoop.c", "src/tube.c", "src/hashtable.h", "src/hashtable.c", "src/sumset.c", "src/sumset.h", "src/checksum.h", "src/patch.c", "src/fileutil.c", "src/buf.c", "src/whole.c"],
  [("rolling instead of recomputing", "src/delta.c:rs_delta_s_scan"), ("strong sum only after the weak sum", "src/sumset.c:rs_block_match_cmp"), ("identical blocks are indexed once", "src/sumset.c:rs_build_hash_table"), ("doubling of the sum table", "src/sumset.c:rs_signature_add_block"), ("mixing of weak sums", "src/hashtable.h:mix32")],
  [("scoop_next", "place in the internal input buffer", "src/job.h")], ["basic blocks executed and bytes moved in the library", "operations on the streams"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    s = x["statement"]; n = sum(s.count(c+" ") for c in ".") + 1
    assert n <= 3, (x["id"], n)

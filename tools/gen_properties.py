#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "One-shot compression is lossless for every input and setting",
 "For every input buffer, every preset level, every combination of parameters the setters accept and every thread count, a successful one-shot compression yields a stream that decompresses to exactly the original bytes. This includes empty input, inputs larger than the dictionary, and contexts used before for something else.",
 ["inputs", "configurations", "histories"],
 "all byte strings x all accepted parameter settings x 1..N threads x previous uses of the context",
 "The fuzzer draws a few hundred random buffers from one generator with one seed and mostly preset levels; match-finder and encoder corner cases (dictionary edges, block overlap, incompressible/compressible switches, lc/lp/pb, long matches, 2-byte chains) depend on data/parameter combinations that are not sampled.",
 ["fl2_compress.c", "lzma2_enc.c", "radix_engine.h", "radix_mf.c", "range_enc.c", "lzma2_dec.c"],
 [("block loop with overlap and reset", "fl2_compress.c FL2_compressBuffer"), ("chunk encoder", "lzma2_enc.c LZMA2_encode"), ("match table", "radix_engine.h RMF_*buildTable")],
 observe=["bytes written by FL2_compress*/FL2_compressCCtx, decoded by an independent decoder"])

prop("C02", "Streaming compression is lossless for every call history",
 "For every sequence of streaming compression calls (buffered input, direct dictionary filling, output pulled in slices or copied to caller buffers of any size, flushes at any point, dual buffering, time limits, any thread count, changes of the literal/position parameters between calls), once the end-of-stream call reports completion the concatenated output decodes to exactly the bytes accepted. No accepted byte is lost, duplicated or reordered.",
 ["histories", "inputs", "configurations", "schedules"],
 "all legal call histories x all split points of input and output x buffer modes x schedules of the background thread",
 "The existing tests run a handful of fixed call patterns with a 1 MiB minimum dictionary and one seed, so dictionary shift, overlap, reset, buffer exchange and output-pending states are crossed only a few times, never in combination with flushes or tiny outputs.",
 ["fl2_compress.c", "dict_buffer.c", "lzma2_enc.c"],
 [("dictionary buffer exchange", "dict_buffer.c DICT_shift/DICT_getBlock"), ("block dispatch", "fl2_compress.c FL2_compressStream_internal"), ("output slices", "fl2_compress.c FL2_copyCStreamOutput")],
 [("unprocessed", "accepted bytes not yet handed to the compressor", "dict_buffer.h start/end"), ("pending", "compressed bytes not yet read by the caller", "fl2_compress.c outThread/outPos")],
 ["return values, buffer positions and emitted bytes of the FL2_CStream API"])

prop("C03", "Emitted streams are well-formed and honour the settings",
 "Every stream the compressor emits is a legal LZMA2 stream that a standard decoder accepts: legal chunk sequence starting with a dictionary reset, chunk sizes within limits, no match reaching before a dictionary reset or further back than the dictionary size announced in the property byte. The announced properties, the omission of the property byte, the trailing checksum, and a dictionary reset at least every dictionary size times reset interval bytes follow the parameters in force; while blocks overlap, no reset comes before the next block would exceed that interval, and with the interval 0 none follows the first.",
 ["inputs", "configurations", "histories"],
 "all inputs x accepted parameters x one-shot and streaming histories",
 "The repository only decodes with its own decoder, which tolerates several illegal streams (it ignores distances beyond the announced dictionary when the output buffer is large and does not look at reset positions), so an illegal stream passes every existing test.",
 ["fl2_compress.c", "lzma2_enc.c", "dict_buffer.c", "lzma2_dec.c"],
 [("control byte selection", "lzma2_enc.c LZMA2_encode"), ("property byte", "fl2_compress.c FL2_getProp"), ("reset interval", "fl2_compress.c FL2_compressBuffer, dict_buffer.c DICT_shift")],
 observe=["chunk headers and match distances of the emitted stream, parsed by an independent decoder"])

prop("C04", "A completed flush makes all accepted input decodable",
 "After a streaming flush call reports completion (returns 0), the output already delivered to the caller, without any later output, decodes to every byte accepted so far. The stream then continues normally and later output appends to it.",
 ["histories", "inputs", "schedules"],
 "all call histories with flushes at any point, all output sizes, synchronous, dual-buffer and time-limited operation, all schedules",
 "The existing tests flush a few times and only check the final round trip, never what a reader could decode at the moment the flush completed; timing of the background thread decides the outcome in dual-buffer mode.",
 ["fl2_compress.c", "dict_buffer.c"],
 [("flush", "fl2_compress.c FL2_flushStream")],
 observe=["bytes emitted at the return of FL2_flushStream()==0"])

prop("C05", "Output never exceeds its bounds; the bound function suffices",
 "No compression or decompression call writes outside the destination range it was given, reads outside the source range, or reports a size larger than the destination. One-shot compression succeeds whenever the destination has at least the size returned by the bound function, and reports the too-small error (never success, never overflow) when the destination is smaller than what the stream needs.",
 ["inputs", "configurations", "histories"],
 "all inputs, parameters and destination capacities including 0, 1 and one less than needed",
 "Tests use compressBound-sized buffers nearly always; a one-byte overflow or an off-by-one in the final marker/hash check shows only at an exact capacity for specific data.",
 ["fl2_compress.c", "fl2_decompress.c", "fl2_common.c", "lzma2_dec.c", "lzma2_enc.c"],
 [("capacity checks", "fl2_compress.c FL2_compressBuffer/FL2_compressCCtx"), ("FL2_compressBound", "fl2_common.c")],
 observe=["canary bytes around the destination, return values"])

prop("C06", "Damaged or truncated streams are never accepted as good",
 "Decompressing a stream with a checksum that was truncated at any point, or altered anywhere in its compressed data, end marker or checksum, never reports success with output different from the original, through any decoding interface. A stream cut before its end is reported as an error by one-shot calls and as unfinished by streaming calls.",
 ["inputs", "histories", "configurations"],
 "all truncation points and alterations x one-shot/streaming x threads x decoder variants",
 "Tests corrupt a few random positions of a few streams and mostly look for crashes; acceptance depends on exactly which byte changed and which decoding path is taken.",
 ["fl2_decompress.c", "lzma2_dec.c"],
 [("hash check", "fl2_decompress.c FL2_decompressDCtx / FL2_decompressStream stages"), ("status handling", "lzma2_dec.c LZMA2_decodeToDic")],
 observe=["return codes and produced bytes of every decompression entry point"])

prop("C07", "All decoding interfaces agree with the LZMA2 format",
 "For every byte sequence, one-shot and streaming, single- and multi-threaded, portable and assembly decoding give the same verdict and the same bytes, which are those the LZMA2 format defines: a legal stream decodes to its content and an illegal chunk sequence, control byte, property or size is rejected. The size query returns exactly the decoded size for every stream that decodes.",
 ["inputs", "configurations"],
 "all byte sequences (all chunk sequences up to a bound, with truncations and size errors) x all decoding interfaces and thread counts",
 "Tests decode only what the library's own encoder emits, which never produces most legal chunk sequences (state reset without properties, uncompressed chunks without dictionary reset in every context) nor the illegal ones.",
 ["lzma2_dec.c", "lzma_dec_x86_64.S", "fl2_decompress.c"],
 [("chunk state machine", "lzma2_dec.c LZMA2_parseControl/LZMA2_decodeToDic"), ("MT splitting", "fl2_decompress.c FL2_decompressCtxBlocksMt / LZMA2_parseInput"), ("size query", "lzma2_dec.c LZMA2_getUnpackSize")],
 observe=["return codes and bytes of FL2_decompress*, FL2_decompressStream, FL2_findDecompressedSize"])

prop("C08", "Streaming decompression is independent of buffer splits",
 "For every legal stream and every way of splitting input and output into calls, streaming decompression delivers exactly the original bytes in order, consumes exactly the stream's bytes and no byte after its end, returns 0 exactly when everything was delivered and 1 before. A call that has both input and output space makes progress; called repeatedly without space or data it finally reports an error rather than looping forever. This holds for any thread count, memory limit and time limit.",
 ["histories", "inputs", "schedules", "configurations"],
 "all partitions of input and output (including 0- and 1-byte buffers) x threads x limits x trailing data",
 "Tests use a few random split sizes on a few streams, and only check the final result; header bytes, chunk headers, checksum bytes and the multi-threaded hand-over split at every offset are not reached.",
 ["fl2_decompress.c", "lzma2_dec.c"],
 [("stage machine", "fl2_decompress.c FL2_decompressStream_blocking"), ("MT input buffering", "fl2_decompress.c FL2_decompressStreamMt")],
 [("stage", "property byte, data, hash, finished", "fl2_decompress.c FL2_DStream stage")],
 ["return value, input.pos, output.pos after every FL2_decompressStream call"])

prop("C09", "The thread pool runs every job exactly once and never deadlocks",
 "Every job handed to a thread pool is executed exactly once (jobs not yet started when the pool is freed may be dropped, none runs afterwards); a wait that reports completion returns only after all jobs queued before it have finished, a timed wait that gives up says so, and freeing the pool waits for running jobs and terminates. No interleaving of callers and workers deadlocks or loses a wake-up.",
 ["schedules", "histories"],
 "all interleavings of workers and the calling thread, for all sequences of add/addRange/wait/timed wait/free",
 "Each existing test sees one OS schedule; the lost-wakeup and early-return windows are a few instructions wide.",
 ["fl2_pool.c", "fl2_pool.h", "fl2_threading.h", "fl2_threading.c"],
 [("worker loop", "fl2_pool.c FL2POOL_thread"), ("wait", "fl2_pool.c FL2POOL_waitAll"), ("queue", "fl2_pool.c FL2POOL_addRange")],
 [("queueIndex/queueEnd", "next job and end of the queued range", "fl2_pool.c"), ("numThreadsBusy", "workers inside a job", "fl2_pool.c")],
 ["job start/end and API call/return events under a controlled scheduler"])

prop("C10", "Time limits and cancellation are safe at any moment",
 "With a time limit set, a compression or decompression call that gives up returns the time-out code and loses nothing: repeating the call (or waiting) as documented finally completes with the same bytes as without a time limit. Cancelling at any moment terminates, leaves no worker running, and the object can be initialised and used again with correct results.",
 ["schedules", "histories"],
 "all moments at which a time-out or cancel can fall relative to the background work x all continuation histories",
 "Whether a time-out or cancel falls before, inside or after a background step is decided by the OS scheduler; the tests see one outcome and never cancel decompression.",
 ["fl2_compress.c", "fl2_decompress.c", "fl2_pool.c", "radix_mf.c"],
 [("timed wait", "fl2_compress.c FL2_waitCStream, fl2_decompress.c FL2_waitDStream"), ("cancel", "FL2_cancelCStream, FL2_cancelDStream, RMF_cancelBuild")],
 observe=["return codes, emitted bytes and termination under a controlled scheduler with virtual time"])

prop("C11", "Parameters are validated, reported and applied as documented",
 "Setting a parameter inside its documented range stores that value and leaves all others unchanged, a value outside is rejected with the documented error and changes nothing, and reading returns the value in force; selecting a preset level replaces exactly the level-dependent parameters with the values of that level. While a stream is in progress only the literal/position parameters can be changed, and they can be changed again after it ends or fails.",
 ["histories", "configurations"],
 "all sequences of set/get/init/compress/end/error calls and all values including out-of-range ones",
 "The tests set parameters in a few fixed orders and rarely read them back; interactions (level after single parameters, high-compression switch, set during/after a failed operation) are not sampled.",
 ["fl2_compress.c", "fast-lzma2.h"],
 [("setters/getters", "fl2_compress.c FL2_CCtx_setParameter/getParameter"), ("parameter lock", "fl2_compress.c lockParams")],
 observe=["return values of set/get/getLevelParameters along a call history"])

prop("C12", "A reused object behaves like a new one, even after errors",
 "After any history of use (completed, failed, cancelled or abandoned operations, with other sizes, parameters or thread counts), initialising a compression or decompression object for a new operation gives the same observable behaviour as a newly created object with the same parameters (block boundaries may follow buffers kept from a larger dictionary; the data is the same). Nothing of the previous operation leaks into the new one: no stale data, error, end state or property.",
 ["histories", "fault_sequences", "inputs"],
 "all histories of operations on one object, each ended at an arbitrary point",
 "The tests reuse contexts after successful runs mainly; the number of (how the last operation ended) x (what changed) x (next operation) combinations is not covered.",
 ["fl2_compress.c", "fl2_decompress.c", "dict_buffer.c", "radix_mf.c", "lzma2_dec.c"],
 [("init functions", "FL2_initCStream, FL2_initDStream, FL2_beginFrame, DICT_init, RMF_applyParameters")],
 observe=["return codes, positions and bytes of operations following arbitrary histories"])

prop("C13", "Results do not depend on thread scheduling",
 "For a fixed call history, parameters and thread count, the compressed bytes produced by synchronous operation and the result of multi-threaded decompression are the same in every run, whatever the interleaving of the worker threads. No interleaving makes an operation fail, hang or crash.",
 ["schedules"],
 "all interleavings of the match-table builders, encoders and decoder workers",
 "Every test run sees one schedule per call on an idle machine; the shared-table hand-over and slice dispatch go wrong only in particular interleavings.",
 ["fl2_compress.c", "radix_mf.c", "radix_engine.h", "atomic.h", "fl2_decompress.c", "fl2_pool.c"],
 [("job distribution by atomic index", "radix_mf.c RMF_getNextList*, atomic.h"), ("slice dispatch", "fl2_compress.c FL2_compressCurBlock_blocking")],
 observe=["digest of the output under many controlled schedules"])

prop("C14", "Decoder memory limits are respected without changing results",
 "With a memory limit set on multi-threaded streaming decompression, input and output buffers held by the decoder stay within the limit (plus a fixed overhead), and exceeding it only switches the decoder to single-threaded operation: the delivered bytes, positions and final result are the same as without a limit. The decoder keeps working whatever the moment of the switch.",
 ["inputs", "histories", "configurations"],
 "all limits x stream shapes x split patterns x moments of switching",
 "The tests use two limits with one stream; the hand-over copies overlapping input and partially decoded output and depends on where in the stream the limit is hit.",
 ["fl2_decompress.c"],
 [("limit check and switch", "fl2_decompress.c FL2_decompressStreamMt / FL2_lzma2DecMt*")],
 observe=["allocations of the decoder, return codes, positions, bytes"])

prop("C15", "Allocation and thread-creation failures are reported, never harmful",
 "If any memory allocation or thread creation fails at any point, the call involved reports an error (or continues correctly with fewer resources), nothing crashes, leaks or deadlocks, and the object can still be freed. Retrying with resources available works.",
 ["fault_sequences", "histories"],
 "all positions of a failing allocation/thread creation in all call histories",
 "No existing test injects a failure.",
 ["fl2_compress.c", "fl2_decompress.c", "fl2_pool.c", "radix_mf.c", "dict_buffer.c", "lzma2_enc.c", "lzma2_dec.c"],
 [("error paths of all constructors and init functions", "FL2_create*, FL2_init*, FL2_beginFrame, RMF_createMatchTable, DICT_init, LZMA_constructEncoder")],
 observe=["return codes, live allocations after free, crash/hang of the process with the n-th allocation failing"])

prop("C16", "Progress, remaining-size and memory-estimate queries are truthful",
 "Progress counters never run backwards within a stream nor exceed the bytes accepted, the remaining-output query equals the bytes that can still be read, and the decoder's progress equals the bytes decoded when it is idle. The memory an object allocates never exceeds what the matching estimate function announced beyond a small fixed overhead.",
 ["histories", "configurations", "schedules"],
 "all call histories x parameters x thread counts x moments of the query",
 "Tests call these functions but do not compare their results with anything.",
 ["fl2_compress.c", "fl2_decompress.c", "radix_mf.c", "dict_buffer.c"],
 [("progress accounting", "FL2_getCStreamProgress, FL2_getDStreamProgress"), ("estimates", "FL2_estimate*, RMF_memoryUsage, LZMA2_encMemoryUsage")],
 observe=["query results after every call, bytes allocated"])

prop("C17", "Separate objects can be used from different threads at once",
 "Contexts, streams and the context-free functions share no mutable state: when several threads use the library at the same time, each with objects and buffers of its own, every thread sees exactly what it would see if it were alone - the same results, bytes, positions, error codes and counters - under every interleaving of the callers and of their worker threads, and freeing the objects releases everything.",
 ["schedules", "histories"],
 "all interleavings of several callers, each with an arbitrary call history of its own",
 "Every existing test has one calling thread; a static buffer, cached object or shared table is invisible to it.",
 ["fl2_compress.c", "fl2_decompress.c", "lzma2_enc.c", "lzma2_dec.c", "radix_mf.c", "radix_engine.h", "dict_buffer.c", "fl2_pool.c", "util.c"],
 [("all state lives in the objects", "FL2_CCtx_s, FL2_CStream, FL2_DCtx_s, FL2_DStream_s, LZMA2_ECtx, FL2_matchTable"), ("context-free functions", "FL2_compressMt, FL2_decompressMt, FL2_getLevelParameters")],
 observe=["each caller's own history of calls and results, recorded per thread"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")

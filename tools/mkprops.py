#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os

def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files,
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=list(observe), hook_needed=hook))

props = [
P("C01", "Exit status 0 means the target holds the indexed image",
  "Whenever an extraction exits with status 0, every byte range listed by the index is present in the target, at its offset and with exactly its declared length, and its SHA-256 equals the declared chunk id. This holds for every index file, prior target content, set of stores and store behaviour, including stores that lie, change or fail during the run.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "for all index files (well formed or not), initial target contents, store lists and store answers/faults",
  "The e2e tests run nine fixed scenarios and one corrupted answer; they never combine lying stores, stale local data, repeated ids with different lengths, zero-length or unrepresentable entries, or stores changing mid-run.",
  ["main.c", "store.c", "store-local.c", "store-http.c", "target.c", "caibx.c"],
  [("length and id comparison before every write", "main.c:entry_cb, store-http.c:store_http_get_chunk, store-local.c:store_local_get_chunk"),
   ("prefix check by content hash", "target.c:target_check_chunk"),
   ("failure of any entry fails the run", "caibx.c:caibx_iterate_entries, main.c:main")],
  [("target content", "bytes in the target file or device", "target.c"), ("index entries", "offset/length/id list", "caibx.c")],
  ["exit status", "target content after exit"]),
P("C02", "Only verified chunk data is ever written to the target",
  "At every moment of every run, whether it later succeeds or not, the only data written into the target is, for some index entry, data whose SHA-256 is that entry's chunk id, at that entry's offset and with its length. Data that does not hash to the requested id is never written, whichever store, cache or buffer it came from.",
  ["inputs", "histories", "fault_sequences", "crash_points"],
  "for all stores (HTTP, scanned local, side-loaded local, target itself), all their answers and contents, at each write of each run",
  "The tests look at the target only after the run and never at writes of failing runs; one corrupted answer is tried.",
  ["main.c", "store-http.c", "store-local.c", "target.c", "sha.c"],
  [("hash comparison on download", "store-http.c:store_http_get_chunk"), ("hash comparison on local read", "store-local.c:store_local_get_chunk"),
   ("reuse of the previous buffer only for the same chunk", "main.c:entry_cb")],
  [("buffer", "last retrieved chunk", "main.c:entry_cb")], ["every write system call on the target"]),
P("C03", "An interrupted extraction can always be completed by re-running it",
  "If a run ends early at any point (killed between or in the middle of writes, write error, stores failing), a later run with the same index and working stores completes the image exactly as an uninterrupted run would. The number of leading chunks already in place never decreases from one run to the next, and each run that obtains at least one more chunk increases it.",
  ["crash_points", "fault_sequences", "histories"],
  "for every crash point (each write, each prefix of a write), and every sequence of interrupted runs",
  "test_resumption prepares one clean two-chunk prefix by hand; no test kills a run, tears a write or repeats interruptions.",
  ["main.c", "target.c", "utils.c"],
  [("resume scan", "main.c:entry_cb (resuming)"), ("content check", "target.c:target_check_chunk"), ("in-order writes", "caibx.c:caibx_iterate_entries")],
  [("resuming", "still inside the verified prefix", "main.c:entry_cb")], ["target content after every interruption", "exit status"]),
P("C04", "The prefix already in place is neither downloaded nor rewritten",
  "In every run, none of the chunks of the longest prefix of the index that is already correct in the target is requested from an HTTP store for that prefix or written again. What counts as in place is decided by content alone, for any target content: stale, torn, shifted, too short or accidentally equal.",
  ["inputs", "histories"],
  "for all target contents and all indices",
  "One test covers one two-chunk prefix; torn, near-miss, short targets and long prefixes are not tried and writes are not observed.",
  ["main.c", "target.c"],
  [("resume scan", "main.c:entry_cb"), ("content check", "target.c:target_check_chunk")], [],
  ["HTTP requests", "writes on the target"]),
P("C05", "Stores are asked in order; missing falls through, failing is dropped",
  "Each chunk that has to be retrieved is looked up in the stores in command-line order, the first store that has it intact supplies it, and later stores are not asked for it. A store that does not have the chunk (or has only bad data for it) is passed over for that chunk only; a store that has failed for good is never asked again in that run, while the remaining stores keep being used.",
  ["histories", "configurations", "fault_sequences"],
  "for all ordered store lists and all sequences of per-store outcomes",
  "Tests use at most one local and one HTTP store, with no failing store; fall-through order and deactivation are never observed.",
  ["store.c", "main.c"],
  [("ordered chain walk, active flag", "store.c:store_chain_get_chunk"), ("append in order, growth", "store.c:store_chain_append"), ("argument order", "main.c:csn, main.c:casync")],
  [("active", "store still usable", "store.c:struct substore")], ["sequence of HTTP requests per store", "exit status"]),
P("C06", "Extraction succeeds whenever every chunk is obtainable",
  "Once index, target and all stores of a run have been opened and scanned: if, for every chunk not already in place, some configured store that has not failed for good delivers it intact when asked, the extraction completes and exits 0. This is independent of the number, order, size or content of the other stores, of which of them lack, corrupt or refuse the chunk, and of how many chunks the image and the stores consist of.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "for all images (empty, one chunk, thousands, beyond 4 GiB), store lists (empty, tiny, huge seeds) and foreign store misbehaviour",
  "Tests use 3-4 chunk images in 1 MiB files with one or two stores; tiny or empty seeds, empty images, many chunks, duplicate ids and large offsets are not reached.",
  ["main.c", "store.c", "store-local.c", "index.c", "target.c", "store-http.c"],
  [("chain fall-through", "store.c:store_chain_get_chunk"), ("chunk lookup", "index.c:index_insert, index.c:index_query"), ("64-bit offsets", "caibx.c, target.c, utils.c")],
  [("index", "id -> location table", "index.c")], ["exit status", "target content"]),
P("C07", "Repeated chunks are not downloaded again",
  "A chunk that occurs several times in a row in the index is retrieved once for that whole run of repetitions. When the target is also given as a store ahead of the HTTP stores, every distinct chunk is downloaded at most once per run however its occurrences are interleaved, and chunks verified in the already present prefix are not downloaded at all.",
  ["inputs", "histories"],
  "for all repetition patterns, numbers of chunks and resume points",
  "Two tests with four chunks and one duplicate each; interleavings of lookups and insertions, prefix chunks and large numbers of chunks are not reached.",
  ["main.c", "target.c", "index.c"],
  [("last chunk reuse", "main.c:entry_cb"), ("target index", "target.c:target_add_chunk, target.c:target_get_chunk"), ("sorted lookup", "index.c")],
  [("last_id", "id of the buffered chunk", "main.c:entry_cb")], ["HTTP requests"]),
P("C08", "A side-loaded index is only a hint",
  "A side-loaded index that is missing, malformed, made with other chunk sizes, or wrong about the store in any way (stale, bit-rotted store, ranges beyond the end, impossible lengths) never leads to wrong data, a crash or the loss of the store. It is discarded, and from the first wrong entry met the store serves exactly what it would serve had it been scanned from the start.",
  ["inputs", "configurations", "histories"],
  "for all pairs of (side-loaded index, store content) and all query sequences",
  "One matching index and one bit-rot case are tested; out-of-range, oversized, zero-length, empty, mismatching and malformed indices are not.",
  ["store-local.c", "caibx.c", "index.c"],
  [("verify on read, rescan on mismatch", "store-local.c:store_local_get_chunk"), ("parameter check and fallback to scanning", "store-local.c:store_sideload_index, store-local.c:store_local_new")],
  [("INDEX_FLAG_VALIDATED", "entry checked against the data", "store-local.c")], ["exit status", "HTTP requests for chunks the local store holds", "target content"]),
P("C09", "Local stores are chunked exactly as casync does",
  "For every local store content and every valid set of chunk sizes, scanning finds exactly the chunks the casync algorithm defines: 48-byte buzhash window, boundary where hash mod D equals D-1 once the minimum is reached, forced boundary at the maximum, remainder as the last chunk. Every such chunk can be retrieved from the store by its id, independent of store size and of how the data is read.",
  ["inputs", "configurations"],
  "for all byte strings and all accepted (min, avg, max)",
  "One pseudo-random 100 MiB stream with default sizes, fed in 512-byte pieces, is tested through the unit interface; other sizes, adversarial content, short tails and the file scanning loop are not.",
  ["chunker.c", "store-local.c", "index.c"],
  [("rolling hash", "chunker.c:chunker_scan"), ("file loop", "chunker.c:chunker_scan_fd"), ("discriminator", "chunker.c:chunker_init")],
  [("h, window, chunk_size", "rolling state", "chunker.h:struct chunker")], ["which indexed chunks are found in a local store"]),
P("C10", "Incremental chunking does not depend on how the data is fed",
  "Feeding the same bytes to the chunker in pieces of any sizes (including empty and single-byte pieces) gives the same boundaries and chunk ids. At a boundary no further byte is consumed until the chunker is reset, and a reset chunker behaves like a new one.",
  ["inputs", "schedules"],
  "for all byte strings and all ways to split them into feed calls",
  "partial_window_feed tries eight splits of one 128-byte string that contains no boundary.",
  ["chunker.c", "chunker.h"],
  [("window fill and rolling update", "chunker.c:chunker_scan"), ("reset", "chunker.c:chunker_reset")],
  [("window_fill", "bytes collected before hashing starts", "chunker.h")], ["return values of the chunker calls, chunk ids"]),
P("C11", "HTTP failures are retried with backoff and bounded before disabling",
  "A download that fails to connect, resolve or in time is attempted at most 10 times, pausing 0.2 s after the first failure and doubling up to 10 s, and if any attempt succeeds its chunk is used as if it had succeeded at once. Each download left unrecovered by this, or answered with an HTTP error other than 404/410, makes the store pass for that chunk and counts one failure; a completed download resets the count, 404/410 leave it unchanged, and the store is disabled for the rest of the run exactly when the count exceeds 10.",
  ["fault_sequences", "histories"],
  "for all sequences of per-attempt outcomes over the life of a store",
  "No test contains a transient failure, a retry, an error status or a disabled store.",
  ["store-http.c", "store.c"],
  [("retry loop and backoff", "store-http.c:retried_curl_easy_perform"), ("error counter", "store-http.c:increase_error_counter, store_http_get_chunk")],
  [("error_count", "unrecovered failures since the last completed download", "store-http.c:struct store_http")], ["attempts per URL", "pauses", "requests after disabling"]),
P("C12", "No HTTP answer but a 200 carrying the right data yields a chunk",
  "An HTTP answer supplies a chunk only if its final status is 200 and its body decompresses to data with the requested id. Every other completed answer (404, 410, other statuses with or without a body, empty, truncated, oversized, uncompressed, undecodable or wrong data) makes the store pass for that chunk without ending the run, and has no effect on the processing of later answers.",
  ["inputs", "fault_sequences", "histories"],
  "for all response statuses and bodies, and all sequences of them on one store",
  "Only 200/404 answers with intact zstd bodies, and one wrong-content body, are tested, and never a good answer after a bad one.",
  ["store-http.c"],
  [("status check before data", "store-http.c:store_http_data_cb"), ("magic check", "store-http.c:handle_data"), ("id check", "store-http.c:store_http_get_chunk"), ("per-request reset", "store-http.c:store_http_get_chunk")],
  [("state", "STARTED / STREAMING / FAILED", "store-http.c:struct http_request_ctx"), ("decode_buffer", "undecoded bytes", "store-http.c:struct store_http")], ["which store ends up supplying the chunk", "exit status"]),
P("C13", "The decoded chunk does not depend on how the body is delivered",
  "For every way the transport splits a response body into pieces (including single bytes and splits inside the zstd header), plain or encrypted, the decoded chunk is the same. A partially delivered body of an attempt that is retried leaves no trace in the result of the next attempt.",
  ["schedules", "inputs", "fault_sequences"],
  "for all segmentations of all intact bodies and all partial earlier attempts",
  "Local test servers deliver each small body in one piece and never fail half-way.",
  ["store-http.c", "encrypt.c"],
  [("decode buffer", "store-http.c:decode_buffer_absorb, store_http_data_cb"), ("streaming decompression", "store-http.c:handle_data"), ("per-attempt state", "store-http.c:retried_curl_easy_perform")],
  [("decode_buffer_fill", "received but undecoded bytes", "store-http.c")], ["accepted chunk / target content"]),
P("C14", "A chunk id maps to exactly one URL of the casync store layout",
  "A chunk is requested from an HTTP store at BASE/xxxx/ID.cacnk, where ID is the lower-case hex id, xxxx its first four digits and BASE the given URL without its fragment and without one trailing slash; if the store is encrypted, .enc is appended. No other URL is requested, whatever the base URL and the order of requests.",
  ["inputs", "configurations"],
  "for all chunk ids and base URLs (length, path, trailing slash, fragment)",
  "One base URL with and without a fragment is used.",
  ["store-http.c", "chunk.c"],
  [("URL construction", "store-http.c:set_url, chunk.c:chunk_format_id"), ("base URL normalisation", "store-http.c:store_http_new")],
  [("baseurl, url_buf", "prefix and buffer of URLs", "store-http.c")], ["requested URLs"]),
P("C15", "Chunk encryption is XChaCha20 keyed by key and chunk id alone",
  "Encrypting or decrypting a chunk XORs it with the XChaCha20 keystream of the configured 256-bit key and the first 24 bytes of the chunk id, starting at block 0, independent of chunk length, of how it is cut into pieces and of what was processed before. The key forms key:, env: and file: with the same 64 hex digits are equivalent, and every key that is not exactly 64 hex digits (after stripping line ends of a file) is refused before anything is fetched or written.",
  ["inputs", "histories"],
  "for all keys, ids, lengths, segmentations, orders of chunks and key specifications",
  "Test vectors of one key/nonce up to 128+ bytes; longer data, several chunks in a row and key forms other than key: are not exercised end to end.",
  ["encrypt.c", "store-http.c", "csn-tool.c", "utils.c"],
  [("HChaCha20 subkey", "encrypt.c:hchacha20"), ("restart per chunk", "encrypt.c:encrypt_restart"), ("key parsing", "encrypt.c:encrypt_parse_keyspec, utils.c:parse_hex")],
  [("cipher", "keystream position", "encrypt.h:struct encrypt_ctx")], ["csn-tool output bytes", "decoded chunks from an encrypted store"]),
P("C16", "csn-tool crypt converts files faithfully and never overwrites",
  "csn-tool crypt exits 0 only if, for each input named by a chunk id, the derived or given output holds exactly the converted input or already existed before; an existing output file is never modified. Converting twice yields the original, the derived name toggles .cacnk and .cacnk.enc in the same directory, a list on standard input is processed in order up to the first failure, and a failed conversion leaves no output file behind that a later run would take for finished.",
  ["histories", "inputs", "fault_sequences"],
  "for all sequences of invocations over a directory of chunk files, with write faults",
  "No test runs csn-tool.",
  ["csn-tool.c", "encrypt.c", "utils.c"],
  [("name checks", "csn-tool.c:chunk_id_from_path"), ("no overwrite", "csn-tool.c:encrypt_one (access)"), ("list mode", "csn-tool.c:do_crypt")],
  [], ["directory contents after each invocation", "exit status"]),
P("C17", "Malformed indices are rejected without touching the target",
  "An index file is accepted exactly if its size, magics, feature flags, chunk sizes, table header and table footer are consistent as the .caibx format requires; entries whose end does not lie after the previous end by 1 to 2^32-1 bytes make the run fail when reached. A rejected index ends the run with a failure exit status, no crash, no store access and no modification of the target.",
  ["inputs"],
  "for all field values and file sizes (every field, each truncation, pairs of faults)",
  "Tests only ever supply valid indices.",
  ["caibx.c", "chunker.c", "main.c"],
  [("header checks", "caibx.c:load_index_header, validate_table_header, validate_table_footer, caibx_load_header"), ("chunk size checks", "chunker.c:chunker_params_set")],
  [], ["exit status", "target content", "requests"]),
P("C18", "Short or interrupted I/O is transparent, hard I/O errors are fatal",
  "Reads and writes that return fewer bytes than asked or are interrupted by signals change nothing about the outcome of a run. A hard error while writing the target or reading the index makes the run exit non-zero, a hard error while a chunk is read from the target or from a store at most loses that store, and no such error is ever reported as success without the image being complete.",
  ["fault_sequences", "schedules"],
  "for all placements of short counts, EINTR and hard errors over all I/O calls of a run",
  "Regular files in the tests never return short counts, EINTR or errors.",
  ["utils.c", "chunker.c", "target.c", "store-local.c", "caibx.c"],
  [("retry loops", "utils.c:readall, preadall, pwriteall, writeall"), ("scan loop", "chunker.c:chunker_scan_fd")],
  [], ["exit status", "target content", "system calls"]),
P("C19", "The hash does not depend on the hashing backend or its faults",
  "With the kernel crypto backend selected, chunk hashes and hence the whole run are the same as with the software implementation. This holds for every pattern of partial transfers, interruptions and failures of the kernel interface; after such a failure hashing continues correctly in software.",
  ["fault_sequences", "inputs"],
  "for all chunk lengths and all sequences of kernel interface results",
  "The kcapi tests need AF_ALG, do not run here, and contain no partial transfer or failure.",
  ["sha.c"],
  [("send/recv loop and fallback", "sha.c:sha_once")],
  [("kcapi_fd", "backend in use", "sha.c")], ["exit status, requests and target content under an emulated AF_ALG socket"]),
P("C20", "patchdd makes the destination start with the source",
  "patchdd exits 0 only if the destination then begins with exactly the source's bytes, everything behind them is unchanged, and the data has been flushed to the device. It refuses a destination smaller than the source without writing to it, never writes data that is already in place ahead of the first difference of a 1 MiB block, and never modifies the source.",
  ["inputs", "fault_sequences", "crash_points"],
  "for all source/destination contents and sizes, with I/O faults and interruptions",
  "No test runs patchdd.",
  ["patchdd.c", "utils.c"],
  [("block compare and write", "patchdd.c:main, memcmp_offset"), ("fsync", "patchdd.c:main")],
  [], ["writes on the destination", "exit status", "contents"]),
P("C21", "The casync command line is equivalent to the csn one",
  "An invocation as casync with --store and --seed options (in any form and order, --seed-output ignored) before 'extract INDEX TARGET' behaves exactly like csn with INDEX, TARGET and those stores in the same order. Help requests and unusable command lines end without a crash, without reporting a successful extraction of anything else, and without touching the target.",
  ["inputs", "configurations"],
  "for all argument lists",
  "No test uses the casync command line.",
  ["main.c"],
  [("getopt mapping", "main.c:casync"), ("store construction", "main.c:append_store_from_arg"), ("dispatch by program name", "main.c:main")],
  [], ["requests", "target content", "exit status"]),
P("C22", "Nothing but the image range of the target is modified",
  "A run never creates a missing target, never truncates it, never writes outside the byte range described by the index, and never modifies the index, side-loaded indices, local stores or any other file. This holds for successful, failing and killed runs.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "for all runs of csn/casync, including failing and interrupted ones",
  "Tests compare only the image range of the target after successful runs.",
  ["main.c", "target.c", "store-local.c"],
  [("open modes", "target.c:target_new (O_RDWR without O_CREAT), store-local.c, main.c (O_RDONLY)"), ("positioned writes", "target.c:target_write")],
  [], ["file system state before and after each run", "write calls"]),
P("C23", "Every run ends, whatever it is given and whatever fails",
  "As long as each single system call returns and each answer of a store is finite, every run of csn, casync, csn-tool and patchdd ends by itself after finitely many steps, for all indices, files, command lines, file sizes, I/O errors, interruptions, premature ends of files and answers of stores. A run asks an HTTP store at most 10 times per entry, gives up transfers that stall, asks each store at most once per entry, and no input or fault makes it loop or wait for ever.",
  ["inputs", "fault_sequences", "histories", "configurations"],
  "for all inputs and fault histories in which each single operation completes or fails",
  "A test only shows that the run it performs ends; loops need a fault, an end of file or a malformed input at one particular point.",
  ["main.c", "utils.c", "store.c", "store-http.c", "store-local.c", "target.c", "caibx.c", "csn-tool.c", "patchdd.c"],
  [("read and write loops", "utils.c:readall, preadall, writeall, pwriteall"), ("retry loop, low speed limit", "store-http.c:retried_curl_easy_perform, store_http_new"),
   ("entry and chunk loops", "caibx.c:caibx_iterate_entries, store-local.c"), ("chain walk", "store.c"), ("parameter and list loops", "store-http.c:store_handle_params, csn-tool.c")],
  [], ["termination of the process", "requests, pauses and system calls per run"]),
P("C24", "What a run reports is true and does not depend on the log level",
  "Every run of csn, casync, csn-tool and patchdd that fails says so: whatever the log level, standard error carries at least one error message or an explanation of the usage. LOGLEVEL selects exactly the messages of that severity or worse (debug, info, warn or warning, err or error; unset means info; anything else means info and gives one warning about it), every message on a line of its own, complete and the same at all levels. Neither the log level nor standard output being a terminal changes what the run does: its requests, writes and exit status. Progress is shown only on a terminal and below debug level, once per index entry, never goes backwards and arrives at 100 % exactly when the run succeeds. The closing statistics of a successful extraction are right: every chunk asked for was answered by one store, stores are credited with what they answered, and patchdd reports the number of bytes it skipped.",
  ["inputs", "configurations", "fault_sequences"],
  "for all runs, at all log levels, with and without a terminal",
  "Tests run with one log level, do not look at messages, and have no terminal.",
  ["log.c", "ui.c", "main.c", "store.c", "csn-tool.c", "patchdd.c"],
  [("selection of messages", "log.c:u_log_init, check_loglevel, _u_log"), ("progress", "main.c:entry_cb, ui.c:show_progress"), ("statistics", "store.c:store_chain_free, patchdd.c:main")],
  [], ["standard error", "standard output", "exit status"]),
]

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(props), "properties")

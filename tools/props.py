"""Source of /verif/properties.jsonl (python3 tools/props.py rewrites it)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": None}})

SA = "fcp/secagg/shared/"; SC = "fcp/secagg/client/"; SS = "fcp/secagg/server/"

prop("C01", "Secure-aggregation modular arithmetic is exact",
 "For every modulus up to 2^62 and all operands already reduced below it, the shared addition, subtraction and multiplication helpers return the mathematically exact result modulo that modulus, never a value outside [0, modulus). For every prime modulus and non-zero reduced operand, the inverse helper returns the unique reduced value whose product with the operand is 1. Ceiling division is exact whenever the sum of its operands fits 32 bits, and converting a number to its big-endian byte string and back returns the same number.",
 ["inputs"], "all 64-bit operand/modulus combinations inside the documented preconditions",
 "The existing tests try a few operands; overflow and reduction mistakes need particular operand/modulus combinations out of 2^192.",
 [SA+"math.h"], [("AddModOpt/SubtractMod/MultiplyMod/InverseModPrime/DivideRoundUp/IntToByteString/ByteStringToInt", SA+"math.h")], ["return values"])
prop("C02", "Any threshold of Shamir shares restores the secret, fewer are refused",
 "For every secret, every threshold and every number of shares at least that threshold, any selection of at least threshold of the shares handed out reconstructs exactly the original secret, whichever positions are missing. Reconstruction from fewer than threshold shares is refused instead of returning a value. Splitting a key into field-sized pieces and putting them back together is the identity for every key.",
 ["inputs", "configurations"], "all secrets of the key length, all thresholds/share counts, all subsets of surviving shares",
 "Unit tests use a handful of fixed thresholds and keys; a carry or digit-boundary error shows only for rare pieces and subsets.",
 [SA+"shamir_secret_sharing.cc", SA+"shamir_secret_sharing.h", SA+"aes_key.cc", SA+"math.h"],
 [("SplitIntoSubsecrets/RebuildFromSubsecrets", SA+"shamir_secret_sharing.cc"), ("EvaluatePolynomial, Share, Reconstruct", SA+"shamir_secret_sharing.cc")], ["Share()/Reconstruct() results"])
prop("C03", "Packed secure-aggregation vectors hold exactly the numbers put in",
 "For every modulus from 2 to 2^62 and every vector of values below it (up to 2^31 bits in total), packing the vector and reading it back, in one go or element by element through the streaming reader and writer, yields the same values in the same order. The packed form has exactly the length given by the bit width of the modulus and the element count, rounded up to whole bytes. An attempt to store a value not below the modulus, to use an unsupported modulus or to wrap packed bytes of the wrong length never produces a packed vector.",
 ["inputs", "configurations"], "all moduli in the supported range (every bit width 1..62 and branch-free/branching layouts), all lengths and values",
 "Bit-packing errors depend on the bit width, the byte alignment of an element and the neighbouring bits; tests sample a few widths.",
 [SA+"secagg_vector.cc", SA+"secagg_vector.h"],
 [("PackUint64IntoByteStringAt/UnpackUint64FromByteStringAt, Decoder/Coder", SA+"secagg_vector.cc")], ["GetAsUint64Vector", "GetAsPackedBytes", "Decoder::ReadValue", "Coder::WriteValue"])
prop("C04", "Pairwise masks are in range and cancel between the two holders",
 "For every modulus, vector length and session, the masking vector computed from a set of keys contains only values below the modulus and depends only on those keys, the session and the vector name. A key on the adding side contributes exactly the value that the same key on the subtracting side removes, so that summing the vectors of two holders of a shared key cancels that key's contribution. Adding two maps of vectors adds corresponding elements modulo the modulus and nothing else.",
 ["inputs", "configurations"], "all key sets, moduli, lengths, names",
 "Cancellation failures need specific random draws (for example a rejected draw or a sum exactly at the modulus) that fixed-key tests do not produce.",
 [SA+"map_of_masks.cc", SA+"map_of_masks.h", SA+"secagg_vector.cc"], [("MapOfMasks/UnpackedMapOfMasks, AddMaps", SA+"map_of_masks.cc")], ["returned mask maps"])
prop("C05", "The mask random stream neither skips nor repeats generated bytes",
 "For every sequence of single-byte and eight-byte requests, the values returned by the AES-CTR random generator are consecutive, non-overlapping pieces of one key-determined keystream, and eight-byte values are assembled from eight consecutive stream bytes in little-endian order. A refill of the internal cache or a request for a whole buffer continues the keystream exactly where the previous one stopped, and bytes still cached are not affected by a buffer request. Two generators with the same key return the same values for the same requests.",
 ["inputs", "histories"], "all request sequences of any length crossing buffer boundaries anywhere",
 "Tests read short prefixes; off-by-one errors at refill boundaries only show for requests that straddle them.",
 [SA+"aes_ctr_prng.cc", SA+"aes_ctr_prng.h", SA+"prng.h"], [("Rand8/Rand64/RandBuffer, GenerateBytes", SA+"aes_ctr_prng.cc")], ["returned random values"])
prop("C06", "Neighbour relations of the aggregation graphs are symmetric and invertible",
 "In every secret-sharing graph, for all node counts (below 2^29) and all permitted degrees, two clients are neighbours of each other or neither is, every client is its own neighbour, and each client has exactly the configured number of neighbours, none twice. Looking up a neighbour by position and looking up the position of that neighbour are inverse to each other, and non-neighbours have no position. For two distinct neighbours exactly one of the two holds the edge as outgoing, so pairwise masks are added by one side and subtracted by the other.",
 ["configurations", "inputs"], "all graph sizes, degrees, node pairs, and (for the permuted variant) all permutations",
 "Unit tests enumerate a few small graphs; wrap-around arithmetic errors appear only for particular index/degree relations.",
 [SS+"secret_sharing_harary_graph.cc", SS+"secret_sharing_harary_graph.h", SS+"secret_sharing_complete_graph.h", SS+"secret_sharing_complete_graph.cc", SS+"secret_sharing_graph.h"],
 [("GetNeighbor/GetNeighborIndex/AreNeighbors/IsOutgoingNeighbor", SS+"secret_sharing_harary_graph.cc")], ["graph queries"])
prop("C07", "A client reveals at most one kind of share per peer when unmasking",
 "For every unmasking request, the response a client sends contains, for each peer, either the share of that peer's pairwise key (only if the request names the peer as newly dead) or the share of that peer's self mask (only if the peer is still alive), never both, and none for a peer that was dead before. A request that names the client itself as dead, names an unknown client or one already considered dead, or leaves fewer surviving clients than the threshold makes the client abort without revealing any share.",
 ["inputs", "histories"], "all unmasking requests and all states of the other clients reachable in the protocol",
 "The privacy guarantee quantifies over adversarial server messages; tests send a few hand-written requests.",
 [SC+"secagg_client_r3_unmasking_state.cc", SC+"other_client_state.h"], [("HandleMessage(UnmaskingRequest)", SC+"secagg_client_r3_unmasking_state.cc")], ["messages sent through the send-to-server interface", "state transitions"])
prop("C08", "A client accepts only a consistent key exchange",
 "For every share-keys request, a client goes on only if the request lists at least the threshold number of clients that have both public keys, no more than the maximum number of clients, contains the client's own keys at exactly one position, carries only usable public keys, and a session id of 32 bytes; otherwise it aborts with a reason. Every other listed client that has keys is treated as alive and given exactly one encrypted pair of shares (of the client's pairwise private key and of its self-mask key) under the key agreed with that client, and clients without keys are treated as dead and get an empty entry.",
 ["inputs"], "all share-keys requests, thresholds, client counts",
 "The requests are adversarial inputs; tests contain a few malformed ones.",
 [SC+"secagg_client_r1_share_keys_base_state.cc", SC+"secagg_client_r1_share_keys_base_state.h"], [("SetUpShares/HandleShareKeysRequest", SC+"secagg_client_r1_share_keys_base_state.cc")], ["messages sent to the server", "state transitions"])
prop("C09", "A client's masked input is bound to the surviving peers",
 "For every masked-input request, a client masks its input with its own self mask plus the pairwise mask of exactly those peers that are still alive after the request, adding or subtracting by the fixed peer order, and sends each input vector reduced modulo its modulus. A live peer with an empty share entry is dropped; if fewer than the threshold number of clients remain, if a live peer's entry cannot be decrypted, or if the entries do not match the expected peers (wrong number, or an entry for a dead peer), the client aborts and sends no vector. Input maps whose names, lengths or moduli do not match the specification are rejected.",
 ["inputs", "histories"], "all masked-input requests and input maps",
 "Depends on all combinations of dead/alive peers and malformed ciphertexts.",
 [SC+"secagg_client_r2_masked_input_coll_base_state.cc", SC+"secagg_client_state.cc"], [("HandleMaskedInputCollectionRequest, SendMaskedInput", SC+"secagg_client_r2_masked_input_coll_base_state.cc"), ("ValidateInput", "fcp/secagg/client/secagg_client_state.cc")], ["messages sent to the server"])
prop("C10", "The aggregation server never advances below its threshold",
 "For every sequence of client messages and aborts, the server moves from one protocol round to the next only when at least the minimum number of live clients have completed the round, and aborts as soon as too few clients remain to ever reach it; in the last round a client that has answered keeps counting. A client that has been dropped stays dropped: its later messages are ignored and it is never counted as alive again, and a repeated, malformed or misplaced message drops its sender only. The numbers of waiting, completed, failed and aborted clients reported by the server always agree with the individual client statuses.",
 ["histories", "fault_sequences"], "all message/abort histories, all client counts and thresholds",
 "Quantifies over event orders; tests run a few scripted protocols.",
 [SS+"secagg_server_state.cc", SS+"secagg_server_r0_advertise_keys_state.cc", SS+"secagg_server_r1_share_keys_state.cc", SS+"secagg_server_r2_masked_input_coll_state.cc", SS+"secagg_server_r3_unmasking_state.cc", SS+"secagg_server_protocol_impl.cc"],
 [("ReadyForNextRound/AbortClient/HandleMessage per round", SS), ("IsClientDead and helpers", SS+"secagg_server_state.cc")], ["state kind", "client status and counters"])
prop("C11", "The server removes exactly the masks that are still in the sum",
 "When the unmasking round completes, the server removes the self mask of every client whose masked input was received and, for every client that dropped out after key exchange but before sending input, its pairwise mask with exactly those neighbours whose masked input was received, each with the sign opposite to the one that was applied. An unmasking response with the wrong number or kind of shares is refused without altering what has been collected from other clients. If too few shares of a needed key were collected, the session ends without a result.",
 ["inputs", "histories"], "all drop-out patterns and unmasking responses",
 "The sign/adjacency of every pair matters for all drop-out patterns; tests cover few.",
 [SS+"secagg_server_protocol_impl.cc", SS+"secagg_server_protocol_impl.h"], [("InitializeShamirReconstruction/HandleUnmaskingResponse/PRNG job setup", SS+"secagg_server_protocol_impl.cc")], ["unmasked sum", "returned statuses"])
prop("C12", "Time conversions between representations preserve the instant",
 "Converting a time or duration to its protocol-buffer form and back returns the same instant for every finite value representable in both forms, with nanoseconds always in the range the protocol-buffer format allows. Seconds and nanoseconds are never mixed up or scaled wrongly.",
 ["inputs"], "all timestamps and durations representable in both forms, before and after the epoch",
 "Only a few sample times are tested; negative and sub-second values are where conversions go wrong.",
 ["fcp/base/time_util.cc", "fcp/base/time_util.h"], [("ConvertAbslToProtoTimestamp/Duration and inverses", "fcp/base/time_util.cc")], ["converted values"])
prop("C13", "Retry delays always stay inside the server-given window",
 "For every server-supplied retry window and every random draw, the delay the client picks lies between the window's lower and upper bound, a negative lower bound counting as zero and an upper bound below the lower one counting as the lower one. A window built from a target delay has equal bounds lying within the target plus or minus the jitter fraction, the fraction being limited to between 0 and 1. A window built from a retry time is exactly the time left until then, or zero if it has passed.",
 ["inputs", "configurations"], "all windows, error codes, flag values and random draws",
 "Randomised results: tests check one draw for a few windows.",
 ["fcp/client/federated_protocol_util.cc", "fcp/client/federated_protocol_util.h"], [("PickRetryTimeFromRange/PickRetryTimeFromWindow/GenerateRetryWindowFromTargetDelay…", "fcp/client/federated_protocol_util.cc")], ["returned retry windows and times"])
prop("C14", "HTTP response status and headers are parsed without loss",
 "For every response header block, the recorded status code is that of the last status line and the recorded headers are exactly the name/value pairs of the last response in order, with surrounding white space removed and values otherwise unchanged, including values that contain colons; when the transfer library decodes bodies itself, the content-encoding, content-length and transfer-encoding headers are left out. Malformed lines never add a header or change the recorded status. The end of headers is reported exactly once the terminating empty line of a final response (not an interim or followed redirect one) has been seen.",
 ["inputs", "histories"], "all sequences of header lines, including redirects, proxies and interim responses",
 "Header lines are attacker-controlled strings; no test of the parser runs in the present suite.",
 ["fcp/client/http/curl/curl_header_parser.cc", "fcp/client/http/curl/curl_header_parser.h", "fcp/client/http/curl/curl_http_response.cc"], [("CurlHeaderParser::ParseHeader", "fcp/client/http/curl/curl_header_parser.cc")], ["status code, header list, last-header flag"])
prop("C15", "HTTP codes, header lookup and request URIs follow the published rules",
 "Every HTTP response code maps to the documented canonical error code, success being exactly the codes 200 to 299, and codes outside the known list map by their hundred-range. Joining a base URI and a suffix yields exactly one slash between them and rejects a non-empty suffix that does not start with a slash, and percent-encoding a path segment escapes every ASCII byte outside the unreserved set as two hexadecimal digits and leaves the others alone, so that decoding returns the original text, while non-ASCII text is refused. Header lookup finds the first header whose name equals the wanted one ignoring case.",
 ["inputs"], "all response codes, header lists, URIs and byte strings",
 "Tests sample codes and strings; low control bytes and unusual codes are not covered.",
 ["fcp/client/http/http_client_util.cc", "fcp/client/http/http_client_util.h"], [("ConvertHttpCodeToStatus, FindHeader, JoinBaseUriWithSuffix, EncodeUriSinglePathSegment", "fcp/client/http/http_client_util.cc")], ["returned statuses and strings"])
prop("C16", "In-memory HTTP requests and responses deliver exactly the body",
 "For every request body and every sequence of reads, the bytes handed to the HTTP client are the body in order without loss or repetition, followed by end-of-data. For every sequence of received chunks and response headers, a response is delivered only if the amount of received data equals an announced content length, never more, with the content encoding and type rules applied, and otherwise an error is reported. The body delivered to the caller is the concatenation of the chunks.",
 ["inputs", "histories"], "all bodies, read sizes, chunkings and header combinations",
 "Quantifies over chunk boundaries and header combinations.",
 ["fcp/client/http/in_memory_request_response.cc", "fcp/client/http/in_memory_request_response.h"], [("InMemoryHttpRequest::ReadBody, InMemoryHttpRequestCallback::OnResponse*", "fcp/client/http/in_memory_request_response.cc")], ["body bytes", "returned statuses"])
prop("C17", "Upload payload headers survive encoding and malformed ones are refused",
 "For every payload header and every payload, encoding the header in front of the payload and decoding it again returns the same header and leaves exactly the payload. Data that is too short, whose declared header length exceeds the data, or whose header part is malformed is refused with an error and never read past its end.",
 ["inputs"], "all headers, payloads and byte strings",
 "The decoder faces untrusted bytes of any length; no test of it runs in the present suite.",
 ["fcp/confidentialcompute/client_payload.cc", "fcp/confidentialcompute/client_payload.h"], [("EncodeClientPayloadHeader/DecodeAndConsumeClientPayloadHeader", "fcp/confidentialcompute/client_payload.cc")], ["returned strings/statuses"])
prop("C18", "Operational statistics record exactly the logged history",
 "For every sequence of logging calls, the committed operational-statistics entry contains the logged events in call order with their times, the session, population and task names that were set, the latest retry window without its token, counters accumulated per dataset with the first access time, the separation index and the first recorded error message, and nothing else; while a phase is open these go to that phase's record instead. Network figures equal the latest reported totals, or within phases the increase since the previous report made in a phase. Each successful commit leaves exactly one entry for the run and other runs' entries untouched, and a failed one stores nothing.",
 ["histories"], "all sequences of logger calls",
 "Quantifies over call sequences; the logger has no running test here.",
 ["fcp/client/opstats/opstats_logger_impl.cc", "fcp/client/opstats/opstats_logger_impl.h"], [("OpStatsLoggerImpl::*", "fcp/client/opstats/opstats_logger_impl.cc")], ["entry written to the database"])
prop("C19", "Participation history queries find the latest matching contribution",
 "For every stored history, the last successful contribution of a task is the most recent per-task record of that task in which an upload was started and not aborted by the server, its time is that of its first upload start, and none is reported if no such record exists. Records of other tasks, failed attempts and later unsuccessful runs never change the answer. The separation index, the first access time of a collection and the records of a time range (latest first) are those of the matching records.",
 ["inputs", "histories"], "all stored histories of any length",
 "Histories are unbounded sequences of entries/events.",
 ["fcp/client/opstats/opstats_utils.cc", "fcp/client/opstats/opstats_utils.h"], [("GetLastSuccessfulContribution and helpers", "fcp/client/opstats/opstats_utils.cc")], ["returned optional times / counts"])
prop("C20", "A task is declared eligible exactly when all its policies allow it",
 "For every set of tasks, policies and participation history, a task is reported eligible if and only if every policy attached to it by position is of a supported kind, is implemented in the version required, and allows it, whatever the policies are called; the decisions list the tasks in order. A sampling policy allows a task exactly when the history is at least as old as the period and the last contribution of the task (or of its group) is longer ago than the period; a minimum-separation policy exactly when no round is recorded with the last contribution or more than the required number of rounds have passed since. A data-availability policy allows exactly when a source delivers (or, in the result format, states) the required number of examples, and a failing source or policy makes its tasks ineligible.",
 ["inputs", "configurations"], "all eligibility specs, histories and current indices",
 "Combinatorial in policies x tasks x history; tests fix a few.",
 ["fcp/client/eligibility_decider.cc", "fcp/client/eligibility_decider.h"], [("ComputeEligibility and policy functions", "fcp/client/eligibility_decider.cc")], ["returned task eligibility info"])
prop("C21", "Vocabulary lookups are one-to-one within the dictionary bounds",
 "For every dictionary description, mapping a token to its index and the index back returns the same token, distinct in-vocabulary tokens get distinct indices, and ids up to the largest special id stand for the special tokens. Unknown tokens always map to the declared unknown id (or -1 if there is none), the size counts the distinct words plus the special ids, and the ids blocked from output are exactly the special ones and those declared, in ascending order. Descriptions without a word list, or with blocked ids out of order or overlapping, are refused.",
 ["inputs", "configurations"], "all dictionary descriptions, tokens and ids",
 "All special-id layouts and vocabulary sizes.",
 ["fcp/dictionary/dictionary.cc", "fcp/dictionary/dictionary.h"], [("Dictionary::Create, TokenToId, IdToToken", "fcp/dictionary/dictionary.cc")], ["lookups"])
prop("C22", "Checked integer conversion and address mapping never admit an overflow",
 "For every pair of integer types and every value, checked conversion succeeds exactly when the target type can represent the value, and then yields the same value. Mapping a foreign span into an address space returns a pointer only if the whole span lies inside the space, in which case it is the start of the space plus the offset, and returns null otherwise, for all sizes including those whose products or sums overflow.",
 ["inputs", "configurations"], "all integer type pairs, values, space sizes, offsets, element sizes and counts",
 "Overflow corner cases out of 2^192 inputs.",
 ["fcp/base/bounds.h"], [("TryCastInteger, CastIntegerChecked, SafeMultiply, MapOutOfAddressSpace", "fcp/base/bounds.h")], ["return values"])
prop("C23", "Compression hands every input byte to the codec and reports truncation",
 "For every input, gzip-compressing and decompressing returns the original bytes. Decompressing non-empty data that is corrupt or incomplete returns an error, never partial data as success.",
 ["inputs"], "all byte strings and fragmentations",
 "No test of compression runs in the present suite; fragment boundaries and truncation points are unbounded.",
 ["fcp/base/compression.cc", "fcp/base/compression.h"], [("CompressWithGzip/UncompressWithGzip", "fcp/base/compression.cc")], ["returned bytes/status"])
prop("C24", "Simulated time only moves as told and wakes exactly the due waiters",
 "For every sequence of operations on the simulated clock, the reported time equals the start time plus the advances made or the time set, never moving otherwise, and a sleep returns only once the time has advanced by the requested duration. A wake-up scheduled on a clock is delivered once, not before its deadline, and in deadline order among those due, those with the same deadline in the order they were scheduled.",
 ["histories"], "all operation sequences, deadlines and durations",
 "Quantifies over operation orders.",
 ["fcp/base/simulated_clock.cc", "fcp/base/simulated_clock.h", "fcp/base/clock.cc", "fcp/base/clock.h"], [("SimulatedClock::AdvanceTime/SetTime/Sleep, Clock::DispatchWakeups", "fcp/base")], ["Now()", "waiter callbacks"])
prop("C25", "Process-wide identifiers and tokens are unique and survive serialization",
 "No two calls for a new process-wide unique id or tracing span id ever return the same value within a process, however many ids have been drawn before and in whatever interleaving. A random token converted to bytes or text and back is the same token, and two tokens compare equal exactly when all their bytes are equal. A four-character tracing tag returns the characters it was made from and compares equal exactly to tags with the same four characters.",
 ["histories", "schedules", "inputs"], "all numbers of earlier draws (up to the 64-bit counter) and interleavings of atomic draws; all token bytes",
 "Tests draw a few ids; truncation of the counter shows only after billions of draws.",
 ["fcp/base/process_unique_id.cc", "fcp/tracing/tracing_span_id.cc", "fcp/tracing/tracing_span_id.h", "fcp/base/random_token.cc", "fcp/base/random_token.h", "fcp/tracing/tracing_tag.h"],
 [("atomic fetch_add and id constructors", "fcp/base/process_unique_id.cc, fcp/tracing/tracing_span_id.*"), ("FromBytes/ToBytes/ToString", "fcp/base/random_token.cc")], ["returned ids/tokens"])
prop("C26", "A moved-from unique value is empty and values are never duplicated",
 "For every sequence of moves, swaps, resets and takes, a unique-value holder reports that it has a value exactly when one was put in and not moved or taken out, a value is held by at most one holder at a time, and it is handed on unchanged. A promise delivers at most one value to its future: the value that was set, or the absence of one if the promise was destroyed unset.",
 ["histories"], "all operation sequences on holders, promises and futures",
 "Quantifies over operation sequences including self-assignment and moved-from uses.",
 ["fcp/base/unique_value.h", "fcp/base/move_to_lambda.h", "fcp/base/future.h"], [("UniqueValue move constructor/assignment/Take", "fcp/base/unique_value.h"), ("FutureState::Set/Take", "fcp/base/future.h")], ["has_value(), contained value, future result"])
prop("C27", "Status conversions between error systems keep the code",
 "Converting a status between the internal, gRPC and protocol-buffer representations keeps the canonical code for every code and the message of every error, success being mapped only to success. Codes outside the canonical list become the unknown error.",
 ["inputs"], "all codes and messages",
 "Exhaustive over codes; tests check some.",
 ["fcp/base/status_converters.cc", "fcp/base/status_converters.h", "fcp/client/http/http_client_util.cc"], [("ToGrpcStatus/FromGrpcStatus, ConvertRpcStatusToAbslStatus", "fcp/base/status_converters.cc")], ["statuses"])
prop("C28", "Every client phase outcome is reported once, to both logs, with matching data",
 "For every outcome of a phase of a client run, exactly one event is published and exactly one recorded in the operational statistics (none recorded for a non-fatal eligibility computation error), both describing that outcome, with the network and example figures handed in unchanged, the same error text, and durations measured from the given start times. A phase of the statistics is opened before the first event of a started phase and closed after the event of an outcome that ends it, and not otherwise. Beginning an upload first stores the statistics and, if that fails, returns the failure and publishes nothing; the message of a TensorFlow error is left out unless it may be logged.",
 ["inputs", "histories"], "all outcomes and statistics values",
 "Tests use mocks with specific values per call.",
 ["fcp/client/phase_logger_impl.cc", "fcp/client/phase_logger_impl.h"], [("PhaseLoggerImpl::Log*", "fcp/client/phase_logger_impl.cc")], ["calls to event publisher, stats logger, log manager"])
prop("C29", "Upload and download slots of the demo media service are single-use and isolated",
 "For every sequence and interleaving of requests, an upload path accepts exactly one body while it is registered, the finalized data is exactly that body, and any other upload is refused. A download returns exactly the bytes registered under that group and name while the group is open and is refused otherwise, and a name can be registered only once per group.",
 ["histories", "schedules"], "all request sequences; interleavings at lock granularity",
 "Tests run scripted requests in sequence.",
 ["fcp/demo/media.py"], [("Service.upload/download/register_upload/finalize_upload/create_download_group", "fcp/demo/media.py")], ["HTTP responses", "finalized data"])
prop("C30", "Work items on a worker run once, in order, on any schedule",
 "For every interleaving of threads, items scheduled on one worker run exactly once, one at a time and in the order scheduled, and waiting for idleness returns only when no scheduled work is left. The parallel scheduler of the aggregation server accumulates every produced partial result exactly once.",
 ["schedules"], "all thread interleavings",
 "Schedules cannot be enumerated by running threads.",
 ["fcp/base/scheduler.cc", "fcp/base/scheduler.h", SS+"secagg_scheduler.h", SS+"secagg_scheduler.cc"], [("WorkerImpl, ThreadPoolScheduler", "fcp/base/scheduler.cc")], ["task executions"])
prop("C31", "Chosen graph parameters meet the requested security and correctness bounds",
 "For every number of clients and fractions of adversarial and dropping clients, the degree and threshold chosen for the neighbour graph keep the probability of a privacy or correctness failure below the configured bound, and a configuration that cannot meet it is refused.",
 ["configurations"], "all client counts and fractions",
 "Probability bounds over a continuous parameter space.",
 [SS+"graph_parameter_finder.cc", SS+"distribution_utilities.cc"], [("HararyGraphParameterFinder", SS+"graph_parameter_finder.cc")], ["returned parameters"])
prop("C32", "The resource cache never serves stale, foreign or over-quota data",
 "For every history of puts, gets, expirations, size-driven evictions and crashes, the cache returns for an id exactly the bytes last stored for it and not yet expired or evicted, and keeps the stored total within its configured limit, evicting expired and least-recently-used entries first.",
 ["histories", "crash_points"], "all operation histories and interruption points",
 "Unbounded histories and file-system states.",
 ["fcp/client/cache/file_backed_resource_cache.cc"], [("Put/Get/CleanUp", "fcp/client/cache/file_backed_resource_cache.cc")], ["returned resources", "files on disk"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))

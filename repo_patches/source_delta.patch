From 82fe0efb2ad2fbb2838385a5100fb2534106d093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:04 +0000
Subject: [PATCH 01/13] fix: refuse client payloads whose header is truncated
 or malformed

The declared header length was not compared with the data that follows, and
a header ending in a stray end-group or zero tag was accepted. Decoding now
requires the whole declared header to be present and to parse completely.
---
 fcp/confidentialcompute/client_payload.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fcp/confidentialcompute/client_payload.cc b/fcp/confidentialcompute/client_payload.cc
index 04fbfbc..2250cb8 100644
--- a/fcp/confidentialcompute/client_payload.cc
+++ b/fcp/confidentialcompute/client_payload.cc
@@ -86,10 +86,15 @@ absl::StatusOr<ClientPayloadHeader> DecodeAndConsumeClientPayloadHeader(
   if (!coded_in.ReadVarint32(&serialized_payload_size)) {
     return absl::InvalidArgumentError("Could not read 'size' varint64");
   }
+  if (serialized_payload_size >
+      encoded_data.size() - coded_in.CurrentPosition()) {
+    return absl::InvalidArgumentError("Serialized payload is truncated");
+  }
 
   auto limit = coded_in.PushLimit(serialized_payload_size);
   AggregationClientPayloadHeader payload_header;
-  if (!payload_header.ParseFromCodedStream(&coded_in)) {
+  if (!payload_header.ParseFromCodedStream(&coded_in) ||
+      !coded_in.ConsumedEntireMessage()) {
     return absl::InvalidArgumentError("Could not parse serialized payload");
   }
   coded_in.PopLimit(limit);
-- 
2.43.0


From 70e1976d5d9c0a019c9d87b08eebfd4a0ba665da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:04 +0000
Subject: [PATCH 02/13] fix: add reconstructed Shamir subsecrets without 32-bit
 overflow

The field prime exceeds 2^31, so the sum of two reduced values can exceed the
32-bit range and was reduced after wrapping around.
---
 fcp/secagg/shared/shamir_secret_sharing.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fcp/secagg/shared/shamir_secret_sharing.cc b/fcp/secagg/shared/shamir_secret_sharing.cc
index 2d96a79..24a25da 100644
--- a/fcp/secagg/shared/shamir_secret_sharing.cc
+++ b/fcp/secagg/shared/shamir_secret_sharing.cc
@@ -137,8 +137,9 @@ StatusOr<std::string> ShamirSecretSharing::Reconstruct(
         subshare += static_cast<uint8_t>(
             shares[share_index].data[kSubsecretSize * i + k]);
       }
-      subsecrets[i] += MultiplyMod(subshare, coefficients[j], kPrime);
-      subsecrets[i] %= kPrime;
+      subsecrets[i] = static_cast<uint32_t>(
+          AddMod(subsecrets[i],
+                 MultiplyMod(subshare, coefficients[j], kPrime), kPrime));
     }
   }
 
-- 
2.43.0


From b8177bef489978d0bf4021d93804b96544d36973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:04 +0000
Subject: [PATCH 03/13] fix: keep colons inside HTTP response header values

A header line was split at every colon and everything after the second one was
dropped.
---
 fcp/client/http/curl/curl_header_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/http/curl/curl_header_parser.cc b/fcp/client/http/curl/curl_header_parser.cc
index 51836a5..87d5d35 100644
--- a/fcp/client/http/curl/curl_header_parser.cc
+++ b/fcp/client/http/curl/curl_header_parser.cc
@@ -69,7 +69,7 @@ bool CurlHeaderParser::ParseAsHeader(const std::string& header_string) {
   }
 
   std::pair<std::string, std::string> split =
-      absl::StrSplit(header_string, ':');
+      absl::StrSplit(header_string, absl::MaxSplits(':', 1));
   std::string key = split.first;
   std::string value = std::string(absl::StripAsciiWhitespace(split.second));
 
-- 
2.43.0


From 5c90537cd8d61a9e7a38efb973f80618c8c5d35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:04 +0000
Subject: [PATCH 04/13] fix: percent-encode control characters with two
 hexadecimal digits

Bytes below 0x10 were written with a single digit, which decodes to something
else.
---
 fcp/client/http/http_client_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/http/http_client_util.cc b/fcp/client/http/http_client_util.cc
index f5d24b8..8b91f2e 100644
--- a/fcp/client/http/http_client_util.cc
+++ b/fcp/client/http/http_client_util.cc
@@ -137,7 +137,7 @@ absl::StatusOr<std::string> PercentEncode(
       continue;
     }
     // Any other character is percent-encoded.
-    result.append(absl::StrFormat("%%%X", c));
+    result.append(absl::StrFormat("%%%02X", c));
   }
   return result;
 }
-- 
2.43.0


From 24f357bd7714ac52a4f55e0874021a2d455ee6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:04 +0000
Subject: [PATCH 05/13] fix: refuse unmasking responses with a wrong number of
 key shares

Entries were read for every neighbor without checking that the response has
them.
---
 fcp/secagg/server/secagg_server_protocol_impl.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fcp/secagg/server/secagg_server_protocol_impl.cc b/fcp/secagg/server/secagg_server_protocol_impl.cc
index cceb251..3131ca4 100644
--- a/fcp/secagg/server/secagg_server_protocol_impl.cc
+++ b/fcp/secagg/server/secagg_server_protocol_impl.cc
@@ -258,6 +258,13 @@ Status SecAggServerProtocolImpl::HandleUnmaskingResponse(
             self_shamir_share_table_ != nullptr)
       << "Shamir Shares Tables haven't been initialized";
 
+  // Verify the client sent one entry per neighbor.
+  if (unmasking_response.noise_or_prf_key_shares_size() !=
+      static_cast<int>(number_of_neighbors())) {
+    return ::absl::InvalidArgumentError(
+        "Client did not include the correct number of key shares.");
+  }
+
   // Verify the client sent all the right types of shares.
   for (uint32_t i = 0; i < number_of_neighbors(); ++i) {
     int ith_neighbor = GetNeighbor(client_id, i);
-- 
2.43.0


From d3ee482b49ff473507e33682730b50d7b0b17f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:04 +0000
Subject: [PATCH 06/13] fix: keep all 64 bits of tracing span ids

The constructor took an int, so ids repeated after 2^32 spans.
---
 fcp/tracing/tracing_span_id.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/tracing/tracing_span_id.h b/fcp/tracing/tracing_span_id.h
index b737ccc..79525c5 100644
--- a/fcp/tracing/tracing_span_id.h
+++ b/fcp/tracing/tracing_span_id.h
@@ -29,7 +29,7 @@ struct TracingSpanId {
 
   // Generates next unique id
   static TracingSpanId NextUniqueId();
-  explicit constexpr TracingSpanId(int id) : value(id) {}
+  explicit constexpr TracingSpanId(std::int64_t id) : value(id) {}
 
  private:
   static std::atomic<std::int64_t> id_source;
-- 
2.43.0


From be2e811ac4b8848e96fa08c883e4fef72620fc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:04 +0000
Subject: [PATCH 07/13] fix: answer truncated gzip request bodies with a
 bad-request error

Decompressing a truncated body raises EOFError, which was not handled.
---
 fcp/demo/http_actions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/demo/http_actions.py b/fcp/demo/http_actions.py
index 503da70..a77ce06 100644
--- a/fcp/demo/http_actions.py
+++ b/fcp/demo/http_actions.py
@@ -243,7 +243,7 @@ def create_handler(*services: Any) -> Type[http.server.BaseHTTPRequestHandler]:
       if self.headers['Content-Encoding'] == 'gzip':
         try:
           body = gzip.decompress(body)
-        except (gzip.BadGzipFile, zlib.error) as e:
+        except (EOFError, gzip.BadGzipFile, zlib.error) as e:
           raise HttpError(http.HTTPStatus.BAD_REQUEST) from e
       elif self.headers['Content-Encoding']:
         logging.warning('Unsupported content encoding %s',
-- 
2.43.0


From 2a2839e15ed4b732b5054e6a6e39d3b463a30fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:14 +0000
Subject: [PATCH 08/13] fix: report truncated gzip data instead of returning
 what was read

The gzip input stream treats the end of its input as the end of the
stream and sets no error message. Decompressing data that was cut off
anywhere therefore returned the part read so far as success. The status
code after the last successful read tells whether the stream really
ended there.
---
 fcp/base/compression.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fcp/base/compression.cc b/fcp/base/compression.cc
index 20b969d..7a3d3e2 100644
--- a/fcp/base/compression.cc
+++ b/fcp/base/compression.cc
@@ -79,8 +79,13 @@ absl::StatusOr<absl::Cord> UncompressWithGzip(
   ArrayInputStream sub_stream(compressed_data.data(),
                               static_cast<int>(compressed_data.size()));
   GzipInputStream input_stream(&sub_stream, GzipInputStream::GZIP);
+  // Whether the data read so far ends where a gzip stream ends.
+  bool complete = compressed_data.empty();
 
   while (input_stream.Next(&buffer, &size)) {
+    if (input_stream.ZlibErrorCode() != Z_BUF_ERROR) {  // Progress was made.
+      complete = input_stream.ZlibErrorCode() == Z_STREAM_END;
+    }
     if (size <= -1) {
       return absl::InternalError(
           "Uncompress failed: invalid input size returned by the "
@@ -95,6 +100,11 @@ absl::StatusOr<absl::Cord> UncompressWithGzip(
         absl::StrCat("An error has occurred during decompression:",
                      input_stream.ZlibErrorMessage()));
   }
+  if (!complete) {
+    // The stream does not report running out of input as an error.
+    return absl::InternalError(
+        "An error has occurred during decompression: truncated input");
+  }
 
   return out;
 }
-- 
2.43.0


From b04bc82b2a6c35d0e022b55d7ef3657c970f8ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:18 +0000
Subject: [PATCH 09/13] fix: keep the previous run's statistics when the first
 commit of a run fails

A commit that could not be written marked the entry as stored, so the next
commit replaced the last stored entry, which belongs to an earlier run.
---
 fcp/client/opstats/opstats_logger_impl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fcp/client/opstats/opstats_logger_impl.cc b/fcp/client/opstats/opstats_logger_impl.cc
index 6e1124b..aa4abca 100644
--- a/fcp/client/opstats/opstats_logger_impl.cc
+++ b/fcp/client/opstats/opstats_logger_impl.cc
@@ -225,7 +225,9 @@ absl::Status OpStatsLoggerImpl::CommitToStorage() {
   log_manager_->LogToLongHistogram(
       HistogramCounters::TRAINING_OPSTATS_COMMIT_LATENCY,
       absl::ToInt64Milliseconds(after_commit_time - before_commit_time));
-  already_committed_ = true;
+  // A failed commit stored nothing, so the next one must still add an entry
+  // rather than overwrite that of an earlier run.
+  if (status.ok()) already_committed_ = true;
   return status;
 }
 
-- 
2.43.0


From 07d3df9eeac892cc09f7a0a63f41d92592b670b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:00:06 +0000
Subject: [PATCH 10/13] fix: report missing self-mask shares as an error
 instead of crashing

When none of a client's neighbours answered in the unmasking round, key
reconstruction hit a fatal check and took the server process down.
Return FAILED_PRECONDITION, as is already done when too few shares arrive,
so that the session is aborted cleanly.
---
 fcp/secagg/shared/aes_key.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fcp/secagg/shared/aes_key.cc b/fcp/secagg/shared/aes_key.cc
index 721399f..0775666 100644
--- a/fcp/secagg/shared/aes_key.cc
+++ b/fcp/secagg/shared/aes_key.cc
@@ -46,7 +46,10 @@ StatusOr<AesKey> AesKey::CreateFromShares(
       FCP_CHECK(shares[i].data.empty());
     }
   }
-  FCP_CHECK(key_length != 0);
+  if (key_length == 0) {
+    return FCP_STATUS(FAILED_PRECONDITION)
+           << "No valid shares were provided to reconstruct the key from.";
+  }
   std::string reconstructed;
   FCP_ASSIGN_OR_RETURN(
       reconstructed, reconstructor.Reconstruct(threshold, shares, key_length));
-- 
2.43.0


From cb795a90bf5435f1836a0ff4b613980a96c65100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:01:53 +0000
Subject: [PATCH 11/13] fix: keep the minimum separation index of runs recorded
 by phase

Runs recorded phase by phase were converted to one record per task
without the run's minimum separation policy index. A client that had
contributed looked as if it had never run under the policy and could be
declared eligible too early.
---
 fcp/client/opstats/opstats_utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fcp/client/opstats/opstats_utils.cc b/fcp/client/opstats/opstats_utils.cc
index 408e42c..dea2dd3 100644
--- a/fcp/client/opstats/opstats_utils.cc
+++ b/fcp/client/opstats/opstats_utils.cc
@@ -187,6 +187,10 @@ std::vector<OperationalStats> ConvertToLegacyOperationalStats(
       legacy_op_stats.push_back(CreateLegacyOperationalStats(
           op_stats.population_name(), op_stats.session_name(),
           op_stats.retry_window(), task_stats));
+      if (op_stats.has_min_sep_policy_index()) {
+        legacy_op_stats.back().set_min_sep_policy_index(
+            op_stats.min_sep_policy_index());
+      }
     }
   }
   return legacy_op_stats;
-- 
2.43.0


From c9a1225b5e1db5781b27dc900c72502d229e91a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:04:29 +0000
Subject: [PATCH 12/13] fix: record fatal and nonfatal initialization errors
 under their own event kinds

The two event kinds were swapped, so the operational statistics said that
execution was halted when it was not and the other way round.
---
 fcp/client/phase_logger_impl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fcp/client/phase_logger_impl.cc b/fcp/client/phase_logger_impl.cc
index 6f71d22..0d88878 100644
--- a/fcp/client/phase_logger_impl.cc
+++ b/fcp/client/phase_logger_impl.cc
@@ -79,7 +79,7 @@ void PhaseLoggerImpl::LogNonfatalInitializationError(
       error_status, kInitializationErrorPrefix, /* keep_error_message= */ true);
   event_publisher_->PublishNonfatalInitializationError(error_message);
   opstats_logger_->AddEventWithErrorMessage(
-      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_FATAL,
+      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_NONFATAL,
       error_message);
 }
 
@@ -88,7 +88,7 @@ void PhaseLoggerImpl::LogFatalInitializationError(absl::Status error_status) {
       error_status, kInitializationErrorPrefix, /* keep_error_message= */ true);
   event_publisher_->PublishFatalInitializationError(error_message);
   opstats_logger_->AddEventWithErrorMessage(
-      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_NONFATAL,
+      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_FATAL,
       error_message);
 }
 
-- 
2.43.0


From 3c9cd8df729422913baccc2e57a169f62b8161c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:23:13 +0000
Subject: [PATCH 13/13] fix: attach eligibility policies to tasks by index
 instead of name

Tasks refer to policies by their position in the list. The decision kept
the tasks of each policy in a map from the name of the policy, so that two
policies with the same name replaced each other's tasks. A task was then
reported eligible without being checked against the first policy, and an
unknown policy that shared its name with a known one turned the whole
decision into an internal error.
---
 fcp/client/eligibility_decider.cc | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/fcp/client/eligibility_decider.cc b/fcp/client/eligibility_decider.cc
index c205afe..80ec24f 100644
--- a/fcp/client/eligibility_decider.cc
+++ b/fcp/client/eligibility_decider.cc
@@ -419,15 +419,16 @@ absl::StatusOr<TaskEligibilityInfo> ComputeEligibility(
   // unfilled.
   TaskEligibilityInfo eligibility_result;
 
-  // Initialize map of policy name -> task names that use that policy, and check
+  // Initialize map of policy index -> task names that use that policy, and check
   // that the implementation versions for each policy are supported by the
-  // client.
-  // This map must only contain names of policies that are implemented.
-  absl::flat_hash_map<std::string, absl::flat_hash_set<std::string>>
-      policy_name_to_task_names;
+  // client. Policies are identified by their index, which is what the tasks
+  // refer to, because nothing guarantees that policy names are unique.
+  // This map must only contain indices of policies that are implemented.
+  absl::flat_hash_map<int, absl::flat_hash_set<std::string>>
+      policy_index_to_task_names;
 
   // Track task names that use unimplemented policies. After we build the policy
-  // name -> task name map, we'll prune any task names that use unimplemented
+  // index -> task name map, we'll prune any task names that use unimplemented
   // policies. We can't do this until after we've built the whole map.
   absl::flat_hash_set<std::string> task_names_using_unimplemented_policies;
 
@@ -498,7 +499,7 @@ absl::StatusOr<TaskEligibilityInfo> ComputeEligibility(
     if (!policy_implemented) {
       continue;
     }
-    policy_name_to_task_names[policy_spec.name()] = task_names;
+    policy_index_to_task_names[policy_index] = task_names;
   }
 
   // Initialize the list of task names to compute eligibility for. Task names
@@ -524,7 +525,7 @@ absl::StatusOr<TaskEligibilityInfo> ComputeEligibility(
   // For each policy:
   // 1. If eligible tasks is now empty due to the previous iteration, quit
   // early.
-  // 2. Get task names from policy_name_to_task_names.
+  // 2. Get task names from policy_index_to_task_names.
   // 3. Intersect with eligible_tasks to get the set of tasks names that we
   // should use to compute eligibility for this policy.
   // 4. Call compute x policy, get back a set of task names. This set will only
@@ -533,24 +534,27 @@ absl::StatusOr<TaskEligibilityInfo> ComputeEligibility(
   // 5. Remove all tasks from eligible_tasks that are not eligible according to
   // the policy computation.
 
-  for (const EligibilityPolicyEvalSpec& policy_spec :
-       population_eligibility_spec.eligibility_policies()) {
+  for (int policy_index = 0;
+       policy_index < population_eligibility_spec.eligibility_policies_size();
+       policy_index++) {
+    const EligibilityPolicyEvalSpec& policy_spec =
+        population_eligibility_spec.eligibility_policies(policy_index);
     // Check if there are no more eligible tasks due to previous policy
     // computations. If so, there's no point in continuing to evaluate policies.
     if (eligible_tasks.empty()) {
       break;
     }
 
-    // policy_name_to_task_names contains our map of *implemented* policies to
+    // policy_index_to_task_names contains our map of *implemented* policies to
     // the tasks that use them. First check if it's in the map. If not, there's
     // no point in evaulating this policy.
-    if (!policy_name_to_task_names.contains(policy_spec.name())) {
+    if (!policy_index_to_task_names.contains(policy_index)) {
       continue;
     }
 
     // The task names this policy applies to.
     absl::flat_hash_set<std::string> policy_task_names =
-        policy_name_to_task_names.at(policy_spec.name());
+        policy_index_to_task_names.at(policy_index);
     // Remove those tasks that already aren't eligible anymore.
     absl::erase_if(policy_task_names,
                    [&eligible_tasks](const std::string& policy_task_name) {
-- 
2.43.0


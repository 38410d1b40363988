// The public identifier, token and tag interfaces as plain functions.
#include <string>
#include "fcp/base/process_unique_id.h"
#include "fcp/base/random_token.h"
#include "fcp/tracing/tracing_span_id.h"
#include "fcp/tracing/tracing_tag.h"
namespace verif_inst {
uint64_t NextId() { return fcp::ProcessUniqueId::Next().value(); }
int64_t NextSpan() { return fcp::TracingSpanId::NextUniqueId().value; }
int64_t SpanValue(int64_t v) { return fcp::TracingSpanId(v).value; }
bool SpanEq(int64_t a, int64_t b) { return fcp::TracingSpanId(a) == fcp::TracingSpanId(b); }
bool SpanNe(int64_t a, int64_t b) { return fcp::TracingSpanId(a) != fcp::TracingSpanId(b); }
bool SpanLt(int64_t a, int64_t b) { return fcp::TracingSpanId(a) < fcp::TracingSpanId(b); }
std::array<char, 16> TokenBytes(absl::Span<const char> s) { return fcp::RandomToken::FromBytes(s).ToBytes(); }
std::string TokenText(absl::Span<const char> s) { return fcp::RandomToken::FromBytes(s).ToString(); }
bool TokenEq(absl::Span<const char> a, absl::Span<const char> b) { return fcp::RandomToken::FromBytes(a) == fcp::RandomToken::FromBytes(b); }
bool TokenNe(absl::Span<const char> a, absl::Span<const char> b) { return fcp::RandomToken::FromBytes(a) != fcp::RandomToken::FromBytes(b); }
std::string TagText(const char (&s)[5]) { return fcp::TracingTag(s).str(); }
bool TagEq(const char (&a)[5], const char (&b)[5]) { return fcp::TracingTag(a) == fcp::TracingTag(b); }
bool TagNe(const char (&a)[5], const char (&b)[5]) { return fcp::TracingTag(a) != fcp::TracingTag(b); }
}  // namespace verif_inst

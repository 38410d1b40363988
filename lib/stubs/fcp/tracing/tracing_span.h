// Stand-in for fcp/tracing/tracing_span.h: tracing spans and trace records are
// dropped. Used only to parse and build sources whose flatbuffer tracing
// schemas cannot be compiled with the installed flatbuffers version.
#ifndef FCP_TRACING_TRACING_SPAN_H_
#define FCP_TRACING_TRACING_SPAN_H_
#include <memory>
#include <utility>
#include "fcp/base/error.h"
namespace fcp {
struct TracingSpanRef {};
template <class T>
class TracingSpan {
 public:
  template <class... A>
  explicit TracingSpan(A&&...) {}
  TracingSpanRef Ref() { return {}; }
};
template <class T>
class UnscopedTracingSpan {
 public:
  template <class... A>
  explicit UnscopedTracingSpan(A&&...) {}
  TracingSpanRef Ref() { return {}; }
};
template <class T, class... A>
void Trace(A&&...) {}
template <class T, class... A>
Error TraceError(A&&...) {
  return Error(Error::ConstructorAccess());
}
}  // namespace fcp
#endif

// Stand-in for absl/log/absl_log.h, which the abseil of this sandbox lacks.
// Only the macros /repo uses. A FATAL statement ends the process (or throws,
// see VERIF_LOG_THROWS) after its message; everything else is discarded.
#ifndef VERIF_STUB_ABSL_LOG_H_
#define VERIF_STUB_ABSL_LOG_H_

#include <cstdio>
#include <cstdlib>
#include <ostream>
#include <sstream>
#include <string>

namespace verif_log {

struct FatalError {
  std::string message;
};

class NullStream {
 public:
  template <typename T>
  NullStream& operator<<(const T&) {
    return *this;
  }
  NullStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
  NullStream& WithVerbosity(int) { return *this; }
};

class FatalStream {
 public:
  FatalStream() {}
  ~FatalStream() noexcept(false) {
#ifdef VERIF_LOG_THROWS
    throw FatalError{os_.str()};
#else
    std::fprintf(stderr, "FATAL: %s\n", os_.str().c_str());
    std::abort();
#endif
  }
  template <typename T>
  FatalStream& operator<<(const T& x) {
    os_ << x;
    return *this;
  }

 private:
  std::ostringstream os_;
};

struct Voidify {
  template <typename T>
  void operator&&(T&&) const {}
};

}  // namespace verif_log

#define VERIF_LOG_STREAM_INFO ::verif_log::NullStream()
#define VERIF_LOG_STREAM_WARNING ::verif_log::NullStream()
#define VERIF_LOG_STREAM_ERROR ::verif_log::NullStream()
#define VERIF_LOG_STREAM_FATAL ::verif_log::FatalStream()

#define ABSL_LOG(severity) VERIF_LOG_STREAM_##severity
#define ABSL_LOG_IF(severity, condition) \
  switch (0)                             \
  case 0:                                \
  default:                               \
    !(condition) ? (void)0 : ::verif_log::Voidify() && VERIF_LOG_STREAM_##severity

#endif  // VERIF_STUB_ABSL_LOG_H_

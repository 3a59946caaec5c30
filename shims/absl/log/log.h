// Parse-only stand-in for absl/log (the sandbox's abseil predates it).
#ifndef VERIF_SHIM_ABSL_LOG_H_
#define VERIF_SHIM_ABSL_LOG_H_
#include <sstream>
namespace verif_shim {
struct LogMessage {
  template <typename T> LogMessage& operator<<(const T&) { return *this; }
  LogMessage& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
struct LogMessageFatal {
  [[noreturn]] ~LogMessageFatal() { __builtin_abort(); }
  template <typename T> LogMessageFatal& operator<<(const T&) { return *this; }
};
}
#define VERIF_LOG_INFO ::verif_shim::LogMessage()
#define VERIF_LOG_WARNING ::verif_shim::LogMessage()
#define VERIF_LOG_ERROR ::verif_shim::LogMessage()
#define VERIF_LOG_FATAL ::verif_shim::LogMessageFatal()
#define LOG(sev) VERIF_LOG_##sev
#endif

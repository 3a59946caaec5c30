// Parse-only stand-in for absl/log/check.h.
#ifndef VERIF_SHIM_ABSL_CHECK_H_
#define VERIF_SHIM_ABSL_CHECK_H_
#include "absl/log/log.h"
#include "absl/strings/str_format.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace verif_shim {
inline bool StatusIsOk(const absl::Status& s) { return s.ok(); }
template <typename T> bool StatusIsOk(const absl::StatusOr<T>& s) { return s.ok(); }
}
#define CHECK(c) while (!(c)) ::verif_shim::LogMessageFatal()
#define CHECK_EQ(a, b) while (!((a) == (b))) ::verif_shim::LogMessageFatal()
#define CHECK_NE(a, b) while (!((a) != (b))) ::verif_shim::LogMessageFatal()
#define CHECK_GE(a, b) while (!((a) >= (b))) ::verif_shim::LogMessageFatal()
#define CHECK_GT(a, b) while (!((a) > (b))) ::verif_shim::LogMessageFatal()
#define CHECK_LE(a, b) while (!((a) <= (b))) ::verif_shim::LogMessageFatal()
#define CHECK_LT(a, b) while (!((a) < (b))) ::verif_shim::LogMessageFatal()
#define CHECK_OK(s) while (!::verif_shim::StatusIsOk(s)) ::verif_shim::LogMessageFatal()
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define QCHECK(c) CHECK(c)
#define QCHECK_EQ(a, b) CHECK_EQ(a, b)
#define QCHECK_OK(s) CHECK_OK(s)
#endif

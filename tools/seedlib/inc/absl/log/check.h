#ifndef DEMO_ABSL_CHECK_H_
#define DEMO_ABSL_CHECK_H_
#include "absl/log/log.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_format.h"
namespace demo_log {
inline bool Ok(const absl::Status& s){return s.ok();}
template<class T> bool Ok(const absl::StatusOr<T>& s){return s.ok();}
}
#define CHECK(c) while(!(c)) ::demo_log::Msg(true)
#define CHECK_EQ(a,b) CHECK((a)==(b))
#define CHECK_NE(a,b) CHECK((a)!=(b))
#define CHECK_GE(a,b) CHECK((a)>=(b))
#define CHECK_GT(a,b) CHECK((a)>(b))
#define CHECK_LE(a,b) CHECK((a)<=(b))
#define CHECK_LT(a,b) CHECK((a)<(b))
#define CHECK_OK(s) CHECK(::demo_log::Ok(s))
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a,b) CHECK_EQ(a,b)
#define DCHECK_NE(a,b) CHECK_NE(a,b)
#define DCHECK_GE(a,b) CHECK_GE(a,b)
#define DCHECK_GT(a,b) CHECK_GT(a,b)
#define DCHECK_LE(a,b) CHECK_LE(a,b)
#define DCHECK_LT(a,b) CHECK_LT(a,b)
#endif

#ifndef STUB_PB_STATUS_H_
#define STUB_PB_STATUS_H_
#include "__prelude.h"
#include <string>
namespace google { namespace protobuf { namespace util {
enum class StatusCode : int { kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4,
  kNotFound = 5, kAlreadyExists = 6, kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9,
  kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16 };
class Status {
 public:
  Status() {}
  Status(StatusCode c, const std::string& m) : c_(c) { if (c != StatusCode::kOk) m_ = m; }
  Status(StatusCode c, const char* m) : c_(c) { if (c != StatusCode::kOk) m_ = m; }
  static const Status OK;
  bool ok() const { return c_ == StatusCode::kOk; }
  StatusCode code() const { return c_; }
  StatusCode error_code() const { return c_; }
  const std::string& message() const { return m_; }
  const std::string& error_message() const { return m_; }
  std::string ToString() const { return ok() ? "OK" : m_; }
  bool operator==(const Status& o) const { return c_ == o.c_ && m_ == o.m_; }
  bool operator!=(const Status& o) const { return !(*this == o); }
 private:
  StatusCode c_ = StatusCode::kOk;
  std::string m_;
};
namespace error {
constexpr StatusCode OK = StatusCode::kOk, CANCELLED = StatusCode::kCancelled, UNKNOWN = StatusCode::kUnknown,
  INVALID_ARGUMENT = StatusCode::kInvalidArgument, DEADLINE_EXCEEDED = StatusCode::kDeadlineExceeded,
  NOT_FOUND = StatusCode::kNotFound, ALREADY_EXISTS = StatusCode::kAlreadyExists,
  PERMISSION_DENIED = StatusCode::kPermissionDenied, UNAUTHENTICATED = StatusCode::kUnauthenticated,
  RESOURCE_EXHAUSTED = StatusCode::kResourceExhausted, FAILED_PRECONDITION = StatusCode::kFailedPrecondition,
  ABORTED = StatusCode::kAborted, OUT_OF_RANGE = StatusCode::kOutOfRange, UNIMPLEMENTED = StatusCode::kUnimplemented,
  INTERNAL = StatusCode::kInternal, UNAVAILABLE = StatusCode::kUnavailable, DATA_LOSS = StatusCode::kDataLoss;
}
}}}
#endif

// Included by logging_rig*.c(pp) with RIG defined to the name of the table.
#include "logging_rig.hpp"
#include "rcutils/logging_macros.h"
#define CAT_(a, b) a ## b
#define CAT(a, b) CAT_(a, b)
// the macros are used as single statements of an if-else
#define ONE(SEV, SUF, ID, ...) \
  static void f_ ## SEV ## SUF ## _ ## ID(void) \
  { \
    if (rig_logger) \
      RCUTILS_LOG_ ## SEV ## SUF(__VA_ARGS__ "text %d|%s", rig_arg(), "tail"); \
    else \
      ++rig_else; \
  }
#define ALL(SEV) \
  ONE(SEV,, a,) \
  ONE(SEV, _NAMED, a, rig_logger,) \
  ONE(SEV, _ONCE, a,) ONE(SEV, _ONCE, b,) \
  ONE(SEV, _ONCE_NAMED, a, rig_logger,) ONE(SEV, _ONCE_NAMED, b, rig_logger,) \
  ONE(SEV, _EXPRESSION, a, rig_expr(),) \
  ONE(SEV, _EXPRESSION_NAMED, a, rig_expr(), rig_logger,) \
  ONE(SEV, _FUNCTION, a, &rig_filter,) \
  ONE(SEV, _FUNCTION_NAMED, a, &rig_filter, rig_logger,) \
  ONE(SEV, _SKIPFIRST, a,) ONE(SEV, _SKIPFIRST, b,) \
  ONE(SEV, _SKIPFIRST_NAMED, a, rig_logger,) ONE(SEV, _SKIPFIRST_NAMED, b, rig_logger,) \
  ONE(SEV, _THROTTLE, a, rig_clock, 10,) ONE(SEV, _THROTTLE, b, rig_clock, 0,) \
  ONE(SEV, _THROTTLE_NAMED, a, rig_clock, 10, rig_logger,) ONE(SEV, _THROTTLE_NAMED, b, rig_clock, 5000000000, rig_logger,) \
  ONE(SEV, _SKIPFIRST_THROTTLE, a, rig_clock, 10,) ONE(SEV, _SKIPFIRST_THROTTLE, b, rig_clock, 7 + 1,) \
  ONE(SEV, _SKIPFIRST_THROTTLE_NAMED, a, rig_clock, 10, rig_logger,) \
  ONE(SEV, _SKIPFIRST_THROTTLE_NAMED, b, rig_clock, 1, rig_logger,)
ALL(DEBUG) enum {LINE_DEBUG = __LINE__};
ALL(INFO) enum {LINE_INFO = __LINE__};
ALL(WARN) enum {LINE_WARN = __LINE__};
ALL(ERROR) enum {LINE_ERROR = __LINE__};
ALL(FATAL) enum {LINE_FATAL = __LINE__};
#define T(SEV, SUF, ID, KIND, NAMED, DUR) \
  {"RCUTILS_LOG_" #SEV #SUF, RCUTILS_LOG_SEVERITY_ ## SEV, KIND, NAMED, DUR, "f_" #SEV #SUF "_" #ID, __FILE__, \
    LINE_ ## SEV, f_ ## SEV ## SUF ## _ ## ID},
#define TABLE(SEV) \
  T(SEV,, a, K_PLAIN, 0, 0) \
  T(SEV, _NAMED, a, K_PLAIN, 1, 0) \
  T(SEV, _ONCE, a, K_ONCE, 0, 0) T(SEV, _ONCE, b, K_ONCE, 0, 0) \
  T(SEV, _ONCE_NAMED, a, K_ONCE, 1, 0) T(SEV, _ONCE_NAMED, b, K_ONCE, 1, 0) \
  T(SEV, _EXPRESSION, a, K_EXPR, 0, 0) \
  T(SEV, _EXPRESSION_NAMED, a, K_EXPR, 1, 0) \
  T(SEV, _FUNCTION, a, K_FUNC, 0, 0) \
  T(SEV, _FUNCTION_NAMED, a, K_FUNC, 1, 0) \
  T(SEV, _SKIPFIRST, a, K_SKIP, 0, 0) T(SEV, _SKIPFIRST, b, K_SKIP, 0, 0) \
  T(SEV, _SKIPFIRST_NAMED, a, K_SKIP, 1, 0) T(SEV, _SKIPFIRST_NAMED, b, K_SKIP, 1, 0) \
  T(SEV, _THROTTLE, a, K_THROTTLE, 0, 10) T(SEV, _THROTTLE, b, K_THROTTLE, 0, 0) \
  T(SEV, _THROTTLE_NAMED, a, K_THROTTLE, 1, 10) T(SEV, _THROTTLE_NAMED, b, K_THROTTLE, 1, 5000000000) \
  T(SEV, _SKIPFIRST_THROTTLE, a, K_SKIP_THROTTLE, 0, 10) T(SEV, _SKIPFIRST_THROTTLE, b, K_SKIP_THROTTLE, 0, 8) \
  T(SEV, _SKIPFIRST_THROTTLE_NAMED, a, K_SKIP_THROTTLE, 1, 10) T(SEV, _SKIPFIRST_THROTTLE_NAMED, b, K_SKIP_THROTTLE, 1, 1)
#ifdef __cplusplus
extern "C" {
#endif
extern const RigSite CAT(rig_sites_, RIG)[];
extern const int CAT(rig_count_, RIG);
const RigSite CAT(rig_sites_, RIG)[] = {TABLE(DEBUG) TABLE(INFO) TABLE(WARN) TABLE(ERROR) TABLE(FATAL)};
const int CAT(rig_count_, RIG) = (int)(sizeof(CAT(rig_sites_, RIG)) / sizeof(CAT(rig_sites_, RIG)[0]));
#ifdef __cplusplus
}
#endif

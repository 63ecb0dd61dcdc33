// Call sites of the generated logging macros, one function each (C29).
#ifndef LOGGING_RIG_HPP_
#define LOGGING_RIG_HPP_
#include "rcutils/logging.h"
#include "rcutils/time.h"
#include "rcutils/types/rcutils_ret.h"
#ifdef __cplusplus
extern "C" {
#endif
enum {K_PLAIN, K_ONCE, K_EXPR, K_FUNC, K_SKIP, K_THROTTLE, K_SKIP_THROTTLE};
typedef struct
{
  const char * macro;
  int severity;
  int kind;
  int named;
  long long duration_ms;
  const char * function;
  const char * file;
  int line;
  void (* call)(void);
} RigSite;
// inputs of the sites, provided by the harness
int rig_arg(void);
int rig_expr(void);
bool rig_filter(void);
rcutils_ret_t rig_clock(rcutils_time_point_value_t *);
extern const char * rig_logger;
extern int rig_else;
#define RIG_TABLE(n) extern const RigSite rig_sites_ ## n[]; extern const int rig_count_ ## n;
RIG_TABLE(0) RIG_TABLE(1) RIG_TABLE(2) RIG_TABLE(3) RIG_TABLE(4) RIG_TABLE(5) RIG_TABLE(6) RIG_TABLE(cpp)
#ifdef __cplusplus
}
#endif
#endif

#ifndef CHECK_RIG_H_
#define CHECK_RIG_H_
#include <stdint.h>
#include "rcutils/allocator.h"
#ifdef __cplusplus
extern "C" {
#endif
struct RigFault
{
  int stop;                     // in: a run ends at its first failing point
  int prior;                    // in: an older error is set whenever a point is reached
  int runs, nfail, quiet_failed, wrong_value, messages, endless, state_changed;
  int fail_at[64], fail_run[64];
  int64_t final_count;
};
int64_t rig_s_to_ns(int form, int64_t x);
int64_t rig_ms_to_ns(int form, int64_t x);
int64_t rig_us_to_ns(int form, int64_t x);
int64_t rig_ns_to_s(int form, int64_t x);
int64_t rig_ns_to_ms(int form, int64_t x);
int64_t rig_ns_to_us(int form, int64_t x);
int64_t rig_constant(int i);
int rig_check(int form, void * p, void * other, const char * msg);
int rig_check_allocator(int form, const rcutils_allocator_t * a, const char * msg);
int rig_report(int form, const char * s, int n);
const char * rig_file(void);
void rig_fault_test(const int * p, int n, struct RigFault * f);
void rig_fault_run(const int * p, int n, struct RigFault * f);
#ifdef __cplusplus
}
#endif
#endif

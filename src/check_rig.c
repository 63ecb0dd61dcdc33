// User code written with the library's public macros (C42, C43, C44).
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include "rcutils/allocator.h"
#include "rcutils/error_handling.h"
#include "rcutils/macros.h"
#include "rcutils/testing/fault_injection.h"
#include "rcutils/time.h"
#include "check_rig.h"

// ---- time units
#define FORMS(NAME, MACRO) \
  int64_t NAME(int form, int64_t x) \
  { \
    int32_t i = (int32_t)x; \
    int16_t h = (int16_t)x; \
    uint32_t u = (uint32_t)x; \
    int64_t half = x / 2, rest = x - x / 2; \
    int64_t none = 0; \
    bool yes = form >= 0; \
    switch (form) { \
      case 0: return MACRO(x); \
      case 1: return MACRO(i); \
      case 2: return MACRO(u); \
      case 3: return MACRO(h); \
      case 4: return MACRO(half + rest); \
      case 5: return MACRO(yes ? x : none); \
      case 6: return MACRO(half - -rest); \
      case 7: return none - MACRO(x); \
      case 8: return MACRO(x | none); \
      case 9: {int64_t a[1] = {x}; int n = 0; int64_t r = MACRO(a[n++]); return n == 1 ? r : INT64_C(-77); } \
      default: return 1 ? MACRO(x) : 0; \
    } \
  }
FORMS(rig_s_to_ns, RCUTILS_S_TO_NS)
FORMS(rig_ms_to_ns, RCUTILS_MS_TO_NS)
FORMS(rig_us_to_ns, RCUTILS_US_TO_NS)
FORMS(rig_ns_to_s, RCUTILS_NS_TO_S)
FORMS(rig_ns_to_ms, RCUTILS_NS_TO_MS)
FORMS(rig_ns_to_us, RCUTILS_NS_TO_US)
// usable in constant expressions, at full width
static const int64_t constants[] = {
  RCUTILS_S_TO_NS(1), RCUTILS_S_TO_NS(9223372036), RCUTILS_MS_TO_NS(86400000), RCUTILS_US_TO_NS(-5000000),
  RCUTILS_NS_TO_S(INT64_MAX), RCUTILS_NS_TO_MS(-1999999), RCUTILS_NS_TO_US(INT64_MIN)};
int64_t rig_constant(int i) {return constants[i];}

// ---- checks
int rig_hits;
static void * step(void ** p) {++rig_hits; return *p;}
int rig_check(int form, void * p, void * other, const char * msg)
{
  bool yes = form >= 0;
  void * a[2] = {other, p};
  struct {void * m;} s = {p};
  int r = 0;
  rig_hits = 0;
  switch (form) {
    case 0: RCUTILS_CHECK_ARGUMENT_FOR_NULL(p, 11); break;
    case 1: RCUTILS_CHECK_FOR_NULL_WITH_MSG(p, msg, return 11); break;
    case 2: RCUTILS_CHECK_FOR_NULL_WITH_MSG(p, msg, r = 5; r += 6); break;
    case 3: RCUTILS_CHECK_FOR_NULL_WITH_MSG(a[1], msg, {r = 11; goto out;}); break;
    case 4: RCUTILS_CHECK_FOR_NULL_WITH_MSG(s.m, msg, r = 11); break;
    case 5: RCUTILS_CHECK_FOR_NULL_WITH_MSG(step(&p), msg, r = 11); r += rig_hits != 1 ? 100 : 0; break;
    case 6: RCUTILS_CHECK_FOR_NULL_WITH_MSG((yes ? p : other), msg, r = 11); break;
    case 7: RCUTILS_CHECK_FOR_NULL_WITH_MSG(yes ? p : other, msg, r = 11); break;
    case 8: if (yes) RCUTILS_CHECK_FOR_NULL_WITH_MSG(p, msg, r = 11); else {r = 200;} break;
    case 9: for (int i = 0; i < 3; ++i) {RCUTILS_CHECK_FOR_NULL_WITH_MSG(p, msg, r = 11; rcutils_reset_error(); RCUTILS_SET_ERROR_MSG(msg));} break;
    default: RCUTILS_CHECK_ARGUMENT_FOR_NULL(a[1], 11); break;
  }
out:
  return r;
}
int rig_check_allocator(int form, const rcutils_allocator_t * a, const char * msg)
{
  int r = 0;
  switch (form) {
    case 0: RCUTILS_CHECK_ALLOCATOR(a, return 11); break;
    case 1: RCUTILS_CHECK_ALLOCATOR(a, r = 5; r += 6); break;
    case 2: RCUTILS_CHECK_ALLOCATOR_WITH_MSG(a, msg, return 11); break;
    default: RCUTILS_CHECK_ALLOCATOR_WITH_MSG(a, msg, r = 5; r += 6); break;
  }
  return r;
}
// ---- reports; returns the line of the report
int rig_report(int form, const char * s, int n)
{
  switch (form) {
    case 0: RCUTILS_SAFE_FWRITE_TO_STDERR(s); return __LINE__;
    case 1: RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING("%d:%s", n, s); return __LINE__;
    case 2: RCUTILS_SET_ERROR_MSG(s); return __LINE__;
    case 3: RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("%d:%s", n, s); return __LINE__;
    case 4: RCUTILS_SAFE_FWRITE_TO_STDERR_AND_APPEND_PREV_ERROR(s); return __LINE__;
    case 5: RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR("%d:%s", n, s); return __LINE__;
    case 6: RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR("%d:%s", n, s); return __LINE__;
    case 7: RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR("fixed"); return __LINE__;
    default: break;
  }
  // the same with arguments whose names a macro might use itself
  const char * output_msg = s, * format_string = s, * msg = s;
  int ret = n, written = n, size = n;
  struct {char str[4000];} error_string;
  snprintf(error_string.str, sizeof(error_string.str), "%s", s);
  (void)format_string; (void)msg; (void)written; (void)size;
  switch (form) {
    case 8: RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING("%d:%s", ret, output_msg); return __LINE__;
    case 9: RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("%d:%s", ret, output_msg); return __LINE__;
    case 10: RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR("%d:%s", ret, error_string.str); return __LINE__;
    case 11: RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR("%d:%s", ret, error_string.str); return __LINE__;
    case 12: RCUTILS_SAFE_FWRITE_TO_STDERR_AND_APPEND_PREV_ERROR(error_string.str); return __LINE__;
    case 13: RCUTILS_SET_ERROR_MSG(error_string.str); return __LINE__;
    case 14: RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("%d:%s", written, format_string); return __LINE__;
    default: RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR("%d:%s", size, msg); return __LINE__;
  }
}
const char * rig_file(void) {return __FILE__;}

// ---- fault injection: programs of fault points
static struct RigFault * F;
static int point(void) {RCUTILS_FAULT_INJECTION_MAYBE_RETURN_ERROR(7); return 0;}
static int can_return(void) {RCUTILS_CAN_RETURN_WITH_ERROR_OF(7); return 0;}
static int can_set(void) {RCUTILS_CAN_SET_MSG_AND_RETURN_WITH_ERROR_OF(7); return 0;}
static int can_fail(void)
{
  int r = 0;
  RCUTILS_CAN_FAIL_WITH({r = 3; r += 4;});
  return r;
}
static int run_program(const int * p, int n)
{
  int failed = 0;
  for (int i = 0; i < n; ++i) {
    int r = 0;
    bool quiet = false;
    rcutils_reset_error();
    if (F->prior) {rcutils_set_error_state("older", "older_file", 3);}
    const rcutils_error_string_t before = rcutils_get_error_string();
    switch (p[i]) {
      case 0: r = point(); break;
      case 1: r = can_return(); break;
      case 2: r = can_fail(); break;
      case 3:
        r = can_set();
        break;
      case 4: quiet = true; RCUTILS_NO_FAULT_INJECTION(r = point()); break;
      case 5:
        quiet = true;
        RCUTILS_NO_FAULT_INJECTION(
        {
          r = point() + can_fail();
          RCUTILS_NO_FAULT_INJECTION(r += can_return());
          r += point();
        });
        break;
      default: RCUTILS_FAULT_INJECTION_MAYBE_FAIL(r = 7); break;
    }
    if (r && p[i] == 3) {
      const rcutils_error_state_t * e = rcutils_get_error_state();
      if (e && strncmp(e->message, "Injecting ", 10) == 0 && strcmp(e->file, __FILE__) == 0) {++F->messages;}
    } else {
      if (rcutils_error_is_set() != (F->prior != 0)) {F->state_changed = 1;}
      if (strcmp(before.str, rcutils_get_error_string().str) != 0) {F->state_changed = 1;}
    }
    if (r) {
      if (F->nfail < 64) {F->fail_at[F->nfail] = i; F->fail_run[F->nfail] = F->runs;}
      ++F->nfail;
      if (quiet) {F->quiet_failed = 1;}
      if (r != 7) {F->wrong_value = 1;}
      failed = 1;
      if (F->stop) {break;}
    }
  }
  rcutils_reset_error();
  return failed;
}
void rig_fault_test(const int * p, int n, struct RigFault * f)
{
  F = f;
  RCUTILS_FAULT_INJECTION_TEST(
  {
    if (f->runs > 60) {f->endless = 1; rcutils_fault_injection_set_count(1000);}
    run_program(p, n);
    ++f->runs;
  });
  f->final_count = rcutils_fault_injection_get_count();
}
void rig_fault_run(const int * p, int n, struct RigFault * f)
{
  F = f;
  run_program(p, n);
  ++f->runs;
  f->final_count = rcutils_fault_injection_get_count();
}

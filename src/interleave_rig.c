// Code a user would write with the library's macros, instrumented like the library.
#include "rcutils/error_handling.h"
#include "rcutils/logging_macros.h"
#include "rcutils/testing/fault_injection.h"
#include "rcutils/types/rcutils_ret.h"

void rig_set_error(const char * m) {RCUTILS_SET_ERROR_MSG(m);}
void rig_set_error_fmt(int n, const char * s) {RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("number %d of %s", n, s);}
int rig_set_error_line(void) {return __LINE__ - 2;}
int rig_fault_return(void)
{
  RCUTILS_FAULT_INJECTION_MAYBE_RETURN_ERROR(1);
  return 0;
}
int rig_fault_code(void)
{
  int r = 0;
  RCUTILS_FAULT_INJECTION_MAYBE_FAIL(r = 1);
  return r;
}
void rig_log_named(const char * name, int n) {RCUTILS_LOG_WARN_NAMED(name, "from %s number %d", name, n);}
void rig_log_debug(int n) {RCUTILS_LOG_DEBUG("hidden %d", n);}
void rig_log_expr(int n) {RCUTILS_LOG_ERROR_EXPRESSION(n > 1, "expression %d", n);}
int rig_can_fail(int * p)
{
  RCUTILS_CAN_RETURN_WITH_ERROR_OF(RCUTILS_RET_ERROR);
  *p = 1;
  return RCUTILS_RET_OK;
}

// ---- the helpers of stdatomic_helper.h, one register per type
#include "rcutils/stdatomic_helper.h"
atomic_bool rig_ab;
atomic_int_least64_t rig_ai;
atomic_uint_least64_t rig_au;
atomic_uintptr_t rig_ap;
uint64_t rig_plain[4];

// kind 0 load, 1 store, 2 exchange, 3 compare-exchange (*e: expected in, seen out), 4 fetch_add;
// function: the typed function where there is one, otherwise the macro
#define RIG_OPS(T, R, reg) \
  T r = 0; \
  switch (kind) { \
    case 0: rcutils_atomic_load(&reg, r); return (uint64_t)r; \
    case 1: rcutils_atomic_store(&reg, (T)a); return 0; \
    case 2: rcutils_atomic_exchange(&reg, r, (T)a); return (uint64_t)r; \
    case 3: {T x = (T)*e; bool ok = 0; rcutils_atomic_compare_exchange_strong(&reg, ok, &x, (T)a); *e = (uint64_t)x; return ok;} \
    default: break; \
  }
uint64_t rig_atomic(int type, int kind, int function, uint64_t a, uint64_t * e)
{
  if (type == 0) {
    if (function && kind == 0) {return (uint64_t)rcutils_atomic_load_bool(&rig_ab);}
    if (function && kind == 2) {return (uint64_t)rcutils_atomic_exchange_bool(&rig_ab, (bool)a);}
    RIG_OPS(bool, bool, rig_ab)
  } else if (type == 1) {
    if (function && kind == 0) {return (uint64_t)rcutils_atomic_load_int64_t(&rig_ai);}
    if (function && kind == 2) {return (uint64_t)rcutils_atomic_exchange_int64_t(&rig_ai, (int64_t)a);}
    RIG_OPS(int64_t, int64_t, rig_ai)
    rcutils_atomic_fetch_add(&rig_ai, r, (int64_t)a);
    return (uint64_t)r;
  } else if (type == 2) {
    if (function && kind == 0) {return rcutils_atomic_load_uint64_t(&rig_au);}
    if (function && kind == 2) {return rcutils_atomic_exchange_uint64_t(&rig_au, a);}
    if (function && kind == 3) {return rcutils_atomic_compare_exchange_strong_uint_least64_t(&rig_au, e, a);}
    if (function && kind == 4) {return rcutils_atomic_fetch_add_uint64_t(&rig_au, a);}
    RIG_OPS(uint64_t, uint64_t, rig_au)
    rcutils_atomic_fetch_add(&rig_au, r, a);
    return r;
  } else {
    if (function && kind == 0) {return (uint64_t)rcutils_atomic_load_uintptr_t(&rig_ap);}
    if (function && kind == 2) {return (uint64_t)rcutils_atomic_exchange_uintptr_t(&rig_ap, (uintptr_t)a);}
    RIG_OPS(uintptr_t, uintptr_t, rig_ap)
    rcutils_atomic_fetch_add(&rig_ap, r, (uintptr_t)a);
    return (uint64_t)r;
  }
  return 0;
}
void rig_atomic_reset(uint64_t v)
{
  atomic_init(&rig_ab, (bool)v);
  atomic_init(&rig_ai, (int64_t)v);
  atomic_init(&rig_au, v);
  atomic_init(&rig_ap, (uintptr_t)v);
  for (int i = 0; i < 4; ++i) {rig_plain[i] = 0;}
}
uint64_t rig_atomic_final(int type)
{
  return type == 0 ? (uint64_t)atomic_load(&rig_ab) : type == 1 ? (uint64_t)atomic_load(&rig_ai) :
         type == 2 ? (uint64_t)atomic_load(&rig_au) : (uint64_t)atomic_load(&rig_ap);
}
void rig_plain_write(int i, uint64_t v) {rig_plain[i] = v;}
uint64_t rig_plain_read(int i) {return rig_plain[i];}

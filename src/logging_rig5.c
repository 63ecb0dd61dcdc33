#define RCUTILS_LOG_MIN_SEVERITY RCUTILS_LOG_MIN_SEVERITY_FATAL
#define RIG 5
#include "logging_rig.inc"

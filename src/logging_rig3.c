#define RCUTILS_LOG_MIN_SEVERITY RCUTILS_LOG_MIN_SEVERITY_WARN
#define RIG 3
#include "logging_rig.inc"

#define RCUTILS_LOG_MIN_SEVERITY RCUTILS_LOG_MIN_SEVERITY_ERROR
#define RIG 4
#include "logging_rig.inc"

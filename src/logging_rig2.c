#define RCUTILS_LOG_MIN_SEVERITY RCUTILS_LOG_MIN_SEVERITY_INFO
#define RIG 2
#include "logging_rig.inc"

#define RIG 0
#include "logging_rig.inc"

#define RIG cpp
#include "logging_rig.inc"

#define VARIANT 0
#include "shim_rate.h"

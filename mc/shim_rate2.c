#define VARIANT 2
#include "shim_rate.h"

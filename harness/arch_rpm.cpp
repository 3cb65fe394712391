#define ARCHFMT "rpm"
#define ARCHN 6000
#include "arch_common.h"

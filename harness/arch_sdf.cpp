#define ARCHFMT "sdf"
#define ARCHN 15000
#include "arch_common.h"

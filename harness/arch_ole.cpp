#define ARCHFMT "ole"
#define ARCHN 8000
#include "arch_common.h"

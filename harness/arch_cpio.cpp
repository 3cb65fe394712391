#define ARCHFMT "cpio"
#define ARCHN 20000
#include "arch_common.h"

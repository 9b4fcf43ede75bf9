#include <stdint.h>
#undef UINTPTR_MAX
#define UINTPTR_MAX 4294967295U

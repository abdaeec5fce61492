#ifndef VP_ISL_STDINT_H
#define VP_ISL_STDINT_H 1
#include <stdint.h>
#endif

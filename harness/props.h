#ifndef PROPS_H
#define PROPS_H
#include "core.h"
extern const Prop *const PROPS_SEG[], *const PROPS_UTF8[], *const PROPS_CASE[], *const PROPS_BIDI[], *const PROPS_MISC[], *const PROPS_COST[], *const PROPS_DATA[], *const PROPS_SIZE[];
#endif

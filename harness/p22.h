#pragma once
#include <stddef.h>
typedef void(*p22_emit)(void*,const char*,size_t,const void*,size_t);

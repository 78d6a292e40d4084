#define HEX
#include "codecs.h"

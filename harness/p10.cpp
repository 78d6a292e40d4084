#include "codecs.h"

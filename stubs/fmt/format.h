#include "external/cppformat/format.h"

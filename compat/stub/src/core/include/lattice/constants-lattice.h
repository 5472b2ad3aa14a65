#include "src/core/include/openfhecore.h"

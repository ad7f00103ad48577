#include "ops.hpp"
OPS_LAUNCH(4)

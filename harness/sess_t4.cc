#include "sess_types.h"
SESS_INT(4, std::int8_t, std::int16_t)

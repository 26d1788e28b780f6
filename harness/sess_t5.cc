#include "sess_types.h"
SESS_INT(5, std::int16_t, std::int8_t)

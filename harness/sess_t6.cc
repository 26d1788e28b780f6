#include "sess_types.h"
SESS_INT(6, std::int16_t, std::int16_t)

#include "sess_types.h"
SESS_INT(0, std::int8_t, std::int8_t)

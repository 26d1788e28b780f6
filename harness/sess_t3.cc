#include "sess_types.h"
SESS_INT(3, std::uint8_t, std::int8_t)

#include "sess_types.h"
SESS_INT(2, std::int8_t, std::uint8_t)

#include "sess_types.h"
SESS_INT(1, std::uint8_t, std::uint8_t)

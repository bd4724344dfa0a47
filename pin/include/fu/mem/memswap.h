#pragma once

#include <cstddef>

namespace fu {

void memswap(unsigned char* a, unsigned char* b, size_t bytes);

} // namespace

#pragma once

#include <fu/str.h>
#include <fu/view.h>

namespace fu {

void println(fu::view<fu::str> parts);

} // namespace

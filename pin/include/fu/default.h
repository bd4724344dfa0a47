#pragma once

namespace fu {

// New thing.
static const char NIL[1024] {};

} // namespace

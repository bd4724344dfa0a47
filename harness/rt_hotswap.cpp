// the hot-reload runtime as programs built for reloading link it
#define fu_HOTSWAP
#include <dl/hotswap.cpp>

// numbers to text, printing, panics: the runtime sources as programs link them
#include <fu/str.h>
#include <fu/vec.h>
#include <fu/export.h>
#include <fu/decstr.cpp>
#include <fu/print.cpp>
#include <fu/never.cpp>

extern "C" void text_u64(fu::str& to, uint64_t x) { to = fu::u64dec(x); }
extern "C" void text_i64(fu::str& to, int64_t x)  { to = fu::i64dec(x); }
extern "C" void text_f64(fu::str& to, double x)   { to = fu::f64dec(x); }
extern "C" void text_f32(fu::str& to, float x)    { to = fu::f32dec(x); }
extern "C" void text_bool(fu::str& to, bool x)    { to = fu::booldec(x); }

#pragma once

namespace fu {

// Plain char, signed char, and unsigned char
//  are three distinct types, collectively called
//   narrow character types.

typedef          char byte;
typedef   signed char i8;
typedef unsigned char u8;

typedef           int i;
typedef  unsigned int u;

}

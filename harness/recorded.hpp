// First header of a recorded program: the templates of the standard library are compiled into it, with their accesses
// recorded, and not taken from the shared library.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0

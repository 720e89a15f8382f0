// Instantiate libstdc++ templates in the IR instead of calling the binary's copies.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0

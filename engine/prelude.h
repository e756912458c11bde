// Forced include for bitcode builds: instantiate libstdc++ templates in the IR.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0

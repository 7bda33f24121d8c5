// Forced include: have the compiler instantiate libstdc++'s templates here, so that their bodies are verified too.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0

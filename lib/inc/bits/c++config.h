// std::string members are instantiated in the bitcode instead of taken from libstdc++.so
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1

// The library templates are analysed from their headers, so they must be
// instantiated in the program rather than linked from libstdc++.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0

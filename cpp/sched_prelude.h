// Force-included in every instrumented file: reference counts become calls of
// __gnu_cxx::__exchange_and_add & co, which the runtime provides.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_ATOMIC_BUILTINS

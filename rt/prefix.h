// Force-included before every symbolically executed translation unit: all libstdc++ templates are
// instantiated from the installed headers instead of being taken from the shared library.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
// std::allocator must call the real operator new / delete (__builtin_operator_new may be elided by the optimiser)
#pragma push_macro("__has_builtin")
#undef __has_builtin
#define __has_builtin(x) 0
#include <bits/new_allocator.h>
#pragma pop_macro("__has_builtin")

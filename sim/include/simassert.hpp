#ifndef SIMASSERT_HPP
#define SIMASSERT_HPP
// Bounds assertions of the standard library are on in every simulated build.  front() on an empty vector is left alone:
// the program forms "&v.front()" for empty buffers it then passes with length 0, and never reads through it.
#include <stdexcept>
#include <debug/debug.h>
#undef __glibcxx_requires_nonempty
#define __glibcxx_requires_nonempty()
#endif

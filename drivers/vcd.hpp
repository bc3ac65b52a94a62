// vocabulary of the lemma functions (handled by the verifier, never defined)
#pragma once
#include <cstddef>
namespace vcd {
void ensure(bool ok, const char* what);                            // obligation
void require(bool ok);                                             // assumption about the arguments
template <class F> bool forall(size_t lo, size_t hi, F&& f);       // f(x) for every x in [lo, hi)
template <class T, class U> bool same(const T& a, const U& b);     // equal in every component (pointers: same target)
void scan(size_t from, size_t to);                                 // loops run by the code below only move positions from `from` to at most `to`
long opaque(size_t a, size_t b);                                   // an unknown function
} // namespace vcd

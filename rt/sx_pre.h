// included first in engine builds: keeps std::to_string out of line, so that --opaque-numbers can
// leave the text of error messages unmodelled (the number printed is symbolic there)
#ifdef __cplusplus
#include <bits/stringfwd.h>
#include <ext/atomicity.h>
namespace std { inline namespace __cxx11 {
__attribute__((noinline)) string to_string(int) noexcept; __attribute__((noinline)) string to_string(unsigned) noexcept; __attribute__((noinline)) string to_string(long);
__attribute__((noinline)) string to_string(unsigned long); __attribute__((noinline)) string to_string(long long); __attribute__((noinline)) string to_string(unsigned long long); } }
#endif

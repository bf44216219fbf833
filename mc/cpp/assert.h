// Assertions raise instead of ending the process.
#undef assert
#ifndef MC_ASSERT_H
#define MC_ASSERT_H
#include <features.h>
#ifdef __cplusplus
#include <stdexcept>
#include <string>
[[noreturn]] inline void mc_assert_failed(const char *e, const char *f, int l) {
  throw std::logic_error(std::string("assertion failed: ") + e + " at " + f + ":" + std::to_string(l));
}
#endif
#endif
#define assert(e) ((e) ? (void)0 : mc_assert_failed(#e, __FILE__, __LINE__))
#ifndef static_assert
#endif

/* stands in for the system's assert.h while the conditions of assertions are
   analysed: each condition becomes a function of its own */
#ifdef __cplusplus
#ifndef VERIF_SHIM_ASSERT
#define VERIF_SHIM_ASSERT
extern "C" void verif_assert_fail();
template<typename F> constexpr __attribute__((noinline)) void verif_assert_cond(F &&f) { if(!f()) verif_assert_fail(); }
#endif
#endif
#undef assert
#ifdef VERIF_ASSERT_OFF
#define assert(...) ((void)0)
#else
#define assert(...) verif_assert_cond([&]() __attribute__((noinline)) -> bool { return static_cast<bool>(__VA_ARGS__); })
#endif

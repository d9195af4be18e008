// assertions that throw, as the library says they may
#pragma once
[[noreturn]] void verif_assert_failed();
#define POLY_OPS_ASSERT(X) ((X) ? (void)0 : verif_assert_failed())
#define POLY_OPS_ASSERT_SLOW(X) ((X) ? (void)0 : verif_assert_failed())

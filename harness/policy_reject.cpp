// C06: modifier arguments that make no sense and contradicting modifiers are rejected at compile time.
#include <vir/simd_execution.h>
namespace ex = vir::execution;
#ifdef VIRMC_BAD
#define PICK(good, bad) bad
#else
#define PICK(good, bad) good
#endif
#if VIRMC_K == 0
constexpr auto p = ex::simd.unroll_by<PICK(2, 1)>();
#elif VIRMC_K == 1
constexpr auto p = ex::simd.prefer_size<PICK(1, 0)>();
#elif VIRMC_K == 2
constexpr auto p = ex::simd.unroll_by<PICK(2, 0)>();
#elif VIRMC_K == 3
constexpr auto p = ex::simd.prefer_size<PICK(3, -3)>();
#endif

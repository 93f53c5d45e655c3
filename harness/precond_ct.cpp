// C24, compile-time diagnostics: with VIRMC_BAD the optimizer sees a violated precondition.
#include <vir/simd.h>
#include <vir/simd_execution.h>
namespace stdx = vir::stdx;
#ifdef VIRMC_BAD
constexpr bool bad = true;
#else
constexpr bool bad = false;
#endif
#if VIRMC_K == 0
float f(const stdx::fixed_size_simd<float, 4>& v) { return v[bad ? 4 : 3]; }
#elif VIRMC_K == 1
void f(stdx::fixed_size_simd<float, 4>& v) { v[bad ? 4 : 3] = 1; }
#elif VIRMC_K == 2
int f(const stdx::simd<int, stdx::simd_abi::scalar>& v) { return v[bad ? 1 : 0]; }
#elif VIRMC_K == 3
bool f(const stdx::fixed_size_simd_mask<float, 4>& v) { return v[bad ? 4 : 3]; }
#elif VIRMC_K == 4
void f(stdx::simd_mask<float, stdx::simd_abi::scalar>& v) { v[bad ? 1 : 0] = true; }
#elif VIRMC_K == 5
int f() { return stdx::find_first_set(stdx::simd_mask<float, stdx::simd_abi::scalar>(not bad)); }
#elif VIRMC_K == 6
int f() { return stdx::find_last_set(stdx::fixed_size_simd_mask<float, 1>(not bad)); }
#endif

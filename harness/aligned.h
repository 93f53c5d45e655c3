// Alignment monitor (force-included): every promise "this address is a multiple of n" that the library makes to the compiler,
// through the alignment flags of loads and stores, is checked when it is made.
#ifndef VIRMC_ALIGNED_H
#define VIRMC_ALIGNED_H
#include "mc.h"

namespace mc
{
  inline unsigned long long n_promises = 0;

  constexpr void* assume_aligned(const void* p, std::size_t n)
  {
    if (not __builtin_is_constant_evaluated())
      {
        ++n_promises;
        if (reinterpret_cast<std::uintptr_t>(p) % n)
          fail("a load or store promises alignment %zu for an address that is %zu modulo 64", n,
               std::size_t(reinterpret_cast<std::uintptr_t>(p) % 64));
      }
    return const_cast<void*>(p);
  }
}
#define __builtin_assume_aligned(...) ::mc::assume_aligned(__VA_ARGS__)
#endif

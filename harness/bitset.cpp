// C12: to_bitset / to_simd_mask: bit i <-> mask element i, for every mask.
#include "mc.h"
#include <vir/simd_bitset.h>
#include <bitset>
namespace stdx = vir::stdx;

template <typename M, std::size_t N>
  void one(std::bitset<N> b)
  {
    M k = M(false);
    for (std::size_t i = 0; i < N; ++i)
      k[i] = b[i];
    const std::bitset<N> got = vir::to_bitset(k);
    for (std::size_t i = 0; i < N; ++i)
      MC_CHECK(got[i] == b[i], "to_bitset: bit %d is %d", int(i), int(got[i]));
    MC_CHECK(got == b and got.count() == b.count(), "to_bitset: not equal");
    using T = typename M::simd_type::value_type;
    using A = typename M::abi_type;
    const M back = vir::to_simd_mask<M>(b);
    const auto back2 = vir::to_simd_mask<T, A>(b);
    static_assert(std::is_same_v<decltype(back2), const M>);
    const auto back3 = vir::to_simd_mask<T>(b);
    static_assert(std::is_same_v<decltype(back3), const stdx::simd_mask<T, stdx::simd_abi::deduce_t<T, N>>>);
    static_assert(std::is_same_v<decltype(vir::to_bitset(k)), std::bitset<M::size()>>);
    for (std::size_t i = 0; i < N; ++i)
      {
        MC_CHECK(back[i] == b[i], "to_simd_mask<M>: element %d is %d", int(i), int(back[i]));
        MC_CHECK(back2[i] == b[i], "to_simd_mask<T, A>: element %d is %d", int(i), int(back2[i]));
        MC_CHECK(back3[i] == b[i], "to_simd_mask<T>: element %d is %d", int(i), int(back3[i]));
      }
    MC_CHECK(stdx::popcount(back) == int(b.count()), "popcount of the mask");
    MC_CHECK(vir::to_bitset(back) == b, "round trip");
    MC_CHECK(stdx::all_of(back) == b.all() and stdx::any_of(back) == b.any() and stdx::none_of(back) == b.none(), "any/all/none_of");
    mc::step(5);
    mc::ok();
  }

template <typename M>
  void all()
  {
    constexpr std::size_t N = M::size();
    mc::context = mc::name_of<M>();
    if constexpr (N <= VIRMC_BITS)
      for (unsigned long x = 0; x < (1ul << N); ++x)
        {
          mc::at("mask", x);
          one<M>(std::bitset<N>(x));
        }
    else
      { // all masks with at most two bits different from uniform, all runs
        for (std::size_t i = 0; i < N; ++i)
          for (std::size_t j = 0; j < N; ++j)
            for (int inv = 0; inv < 2; ++inv)
              {
                mc::at("pair i,j,inv", i, j, inv);
                std::bitset<N> b;
                b[i] = true, b[j] = true;
                one<M>(inv ? ~b : b);
                mc::at("run i,j,inv", i, j, inv);
                b.reset();
                for (std::size_t l = i; l < j; ++l)
                  b[l] = true;
                one<M>(inv ? ~b : b);
              }
        mc::at("uniform");
        one<M>(std::bitset<N>());
        mc::at("uniform");
        one<M>(~std::bitset<N>());
      }
  }

template <typename T>
  void type()
  {
    using namespace stdx;
    all<native_simd_mask<T>>();
    all<simd_mask<T, simd_abi::scalar>>();
    all<simd_mask<T>>();
    all<fixed_size_simd_mask<T, 1>>();
    all<fixed_size_simd_mask<T, 3>>();
    all<fixed_size_simd_mask<T, 4>>();
    all<fixed_size_simd_mask<T, 7>>();
    all<fixed_size_simd_mask<T, 8>>();
    all<fixed_size_simd_mask<T, 13>>();
    all<fixed_size_simd_mask<T, 16>>();
    all<fixed_size_simd_mask<T, 31>>();
    all<fixed_size_simd_mask<T, 32>>();
#ifdef VIR_DISABLE_STDX_SIMD // no upper limit
    all<fixed_size_simd_mask<T, 33>>();
    all<fixed_size_simd_mask<T, 48>>();
    all<fixed_size_simd_mask<T, 63>>();
    all<fixed_size_simd_mask<T, 64>>();
    all<fixed_size_simd_mask<T, 65>>();
    all<fixed_size_simd_mask<T, 100>>();
#endif
    all<simd_mask<T, simd_abi::deduce_t<T, 2>>>();
    all<simd_mask<T, simd_abi::deduce_t<T, 4>>>();
    all<simd_mask<T, simd_abi::deduce_t<T, 5>>>();
    all<simd_mask<T, simd_abi::deduce_t<T, 8>>>();
    all<simd_mask<T, simd_abi::deduce_t<T, 16>>>();
  }

int main()
{
  mc::init();
  type<VIRMC_T>();
  return mc::finish();
}

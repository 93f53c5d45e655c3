// C14: simd_bit_cast keeps the object representation; simd_float_ops combine the bits of each element independently.
#include "mc.h"
#include <vir/simd_bit.h>
#include <vir/simd_float_ops.h>
#include <bit>
#include <cmath>
namespace stdx = vir::stdx;

template <typename T> std::vector<T> values()
{
  if constexpr (std::is_floating_point_v<T>)
    {
      using L = std::numeric_limits<T>;
      std::vector<T> r{T(0), -T(0), T(1), T(-1), T(1.5), T(-2.75), L::max(), L::lowest(), L::min(), L::denorm_min(),
                       -L::denorm_min(), L::infinity(), -L::infinity(), L::quiet_NaN(), std::copysign(L::quiet_NaN(), T(-1)), L::epsilon(), T(123456)};
      return r;
    }
  else
    {
      std::vector<T> r{T(0), T(1), T(-1), T(2), T(std::numeric_limits<T>::max()), T(std::numeric_limits<T>::min()),
                       T(0x55), T(0x2a)};
      for (unsigned b = 0; b < sizeof(T) * 8; ++b)
        r.push_back(T(T(1) << b));
      return r;
    }
}

// the value bytes (long double: 10 of 16)
template <typename T> constexpr std::size_t bytes = std::is_same_v<T, long double> ? 10 : sizeof(T);

template <typename To, typename From>
  void cast1(const std::vector<typename From::value_type>& vals, std::size_t rot)
  {
    using T = typename From::value_type;
    using U = typename To::value_type;
    From v = T();
    unsigned char ref[sizeof(T) * From::size()];
    for (std::size_t i = 0; i < From::size(); ++i)
      {
        const T x = vals[(i + rot) % vals.size()];
        v[i] = x;
        std::memcpy(ref + i * sizeof(T), &x, sizeof(T));
      }
    const To r = vir::simd_bit_cast<To>(v);
    for (std::size_t i = 0; i < To::size(); ++i)
      {
        const U x = r[i];
        unsigned char b[sizeof(U)];
        std::memcpy(b, &x, sizeof(U));
        // bytes of a long double's padding are not values
        for (std::size_t k = 0; k < bytes<U>; ++k)
          if (std::size_t p = i * sizeof(U) + k; p % sizeof(T) < bytes<T>)
            MC_CHECK(b[k] == ref[p], "element %d, byte %d", int(i), int(k));
      }
    const From back = vir::simd_bit_cast<From>(r);
    for (std::size_t i = 0; i < From::size(); ++i)
      {
        const T x = back[i];
        MC_CHECK(std::memcmp(&x, ref + i * sizeof(T), bytes<T>) == 0, "round trip: element %d", int(i));
      }
    mc::step(2);
    mc::ok();
  }
template <typename To, typename From>
  void cast()
  {
    if constexpr (sizeof(To) == sizeof(From) and sizeof(typename To::value_type) * To::size() == sizeof(typename From::value_type) * From::size())
      {
        mc::context = mc::name_of<From>() + " -> " + mc::name_of<To>();
        const auto vals = values<typename From::value_type>();
        for (std::size_t rot = 0; rot < vals.size(); ++rot)
          {
            mc::at("simd_bit_cast rotation", rot);
            cast1<To, From>(vals, rot);
          }
      }
  }
MC_DETECT2(castable, To, From, vir::simd_bit_cast<To>(std::declval<From>()))

template <typename From, typename... Us> void casts()
{
  using T = typename From::value_type;
  (cast<stdx::native_simd<Us>, From>(), ...);
  ([&] {
    constexpr int n = sizeof(T) * From::size() / sizeof(Us);
    if constexpr (n > 0 and n <= 32)
      {
        cast<stdx::simd<Us, stdx::simd_abi::deduce_t<Us, n>>, From>();
        cast<stdx::fixed_size_simd<Us, n>, From>();
      }
  }(), ...);
}
// masks of equal size keep their truth values when cast to the equally sized mask of a type of equal size
template <typename M1, typename M2> void masks()
{
  if constexpr (sizeof(M1) == sizeof(M2) and M1::size() == M2::size())
    {
      mc::context = mc::name_of<M1>() + " -> " + mc::name_of<M2>();
      constexpr unsigned n = M1::size();
      for (unsigned long x = 0; x < (n <= 10 ? 1ul << n : 2ul * n); ++x)
        {
          mc::at("mask simd_bit_cast bits", x);
          auto bit = [&](unsigned i) { return n <= 10 ? bool(x >> i & 1) : (i == x % n) != (x >= n); };
          M1 k(false);
          for (unsigned i = 0; i < n; ++i)
            k[i] = bit(i);
          const M2 r = vir::simd_bit_cast<M2>(k);
          for (unsigned i = 0; i < n; ++i)
            MC_CHECK(r[i] == bit(i), "mask element %u", i);
          mc::step();
          mc::ok();
        }
    }
}

template <typename V>
  void float_ops()
  {
    using T = typename V::value_type;
    mc::context = mc::name_of<V>();
    const auto vals = values<T>();
    using namespace vir::simd_float_ops;
    for (std::size_t ra = 0; ra < vals.size(); ++ra)
      for (std::size_t rb = 0; rb < vals.size(); ++rb)
        {
          mc::at("float_ops rot,rot", ra, rb);
          V a = T(), b = T();
          for (std::size_t i = 0; i < V::size(); ++i)
            a[i] = vals[(ra + i) % vals.size()], b[i] = vals[(rb + 2 * i) % vals.size()];
          const V r[3] = {a & b, a | b, a ^ b};
          static_assert(std::is_same_v<decltype(a & b), V> and std::is_same_v<decltype(a | b), V> and std::is_same_v<decltype(a ^ b), V>);
          for (int o = 0; o < 3; ++o)
            for (std::size_t i = 0; i < V::size(); ++i)
              {
                const T x = a[i], y = b[i], z = r[o][i];
                unsigned char bx[sizeof(T)], by[sizeof(T)], bz[sizeof(T)];
                std::memcpy(bx, &x, sizeof(T));
                std::memcpy(by, &y, sizeof(T));
                std::memcpy(bz, &z, sizeof(T));
                for (std::size_t k = 0; k < bytes<T>; ++k)
                  MC_CHECK(bz[k] == (unsigned char)(o == 0 ? bx[k] & by[k] : o == 1 ? bx[k] | by[k] : bx[k] ^ by[k]),
                           "%s: element %d, byte %d", o == 0 ? "&" : o == 1 ? "|" : "^", int(i), int(k));
              }
          mc::step(3);
          mc::ok();
        }
  }

int main()
{
  mc::init();
  using namespace stdx;
  using T = VIRMC_T;
#if VIRMC_PART == 0
  casts<native_simd<T>, char, short, unsigned short, int, unsigned, long, unsigned long, float, double, T>();
  casts<simd<T, simd_abi::scalar>, char, short, int, unsigned, long, float, double, T>();
  casts<simd<T, simd_abi::deduce_t<T, 4>>, char, short, int, unsigned, long, float, double, T>();
  casts<fixed_size_simd<T, 4>, char, short, int, unsigned, long, float, double, T>();
  casts<fixed_size_simd<T, 8>, char, short, int, unsigned, long, float, double, T>();
  masks<native_simd_mask<T>, native_simd_mask<int>>();
  masks<native_simd_mask<T>, native_simd_mask<unsigned long>>();
  masks<native_simd_mask<T>, native_simd_mask<short>>();
  masks<native_simd_mask<T>, native_simd_mask<signed char>>();
  masks<native_simd_mask<T>, native_simd_mask<float>>();
  masks<native_simd_mask<T>, native_simd_mask<double>>();
  masks<fixed_size_simd_mask<T, 5>, fixed_size_simd_mask<T, 5>>();
  masks<fixed_size_simd_mask<T, 16>, fixed_size_simd_mask<int, 16>>();
  // sizes must agree
  static_assert(not castable<native_simd<T>, simd<signed char, simd_abi::scalar>> or sizeof(native_simd<T>) == 1);
  static_assert(not castable<T, native_simd<T>>);
#else
  float_ops<native_simd<T>>();
  float_ops<simd<T, simd_abi::scalar>>();
  float_ops<simd<T, simd_abi::deduce_t<T, 2>>>();
  float_ops<simd<T, simd_abi::deduce_t<T, 4>>>();
  float_ops<fixed_size_simd<T, 4>>();
  float_ops<fixed_size_simd<T, 8>>();
  float_ops<fixed_size_simd<T, 3>>();
  float_ops<fixed_size_simd<T, 16>>();
  float_ops<simd<T, simd_abi::deduce_t<T, 3>>>();
  float_ops<simd<T, simd_abi::deduce_t<T, 5>>>();
#endif
  return mc::finish();
}

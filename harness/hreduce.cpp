// C20: reduce, hmin, hmax of a simd, plain and masked.
#include "vals.h"
#include "masks.h"
#include <algorithm>
#include <functional>
#include <vir/simd.h>
#ifndef VIRMC_T
#define VIRMC_T float
#endif
#ifndef VIRMC_FULL
#define VIRMC_FULL 8
#endif
namespace stdx = vir::stdx;
using GT = VIRMC_T;
constexpr bool isint = std::is_integral_v<GT>;
template <typename V>
  struct R
  {
    using T = typename V::value_type;
    using M = typename V::mask_type;
    static constexpr int N = V::size();
    static V make(const T* a)
    {
      V v = T();
      for (int i = 0; i < N; ++i)
        v[i] = a[i];
      return v;
    }
    static void eq(const char* what, T got, T want)
    { MC_CHECK(mc::same_value<T>(got, want) or (got == want and got == T(0)), "%s is %g, expected %g", what, mc::num(got), mc::num(want)); }

    // Values whose combination is exact in any order.
    // wide enough: distinct powers of two, so that every subset has its own sum
    static T weight(int i, int rot)
    {
      if constexpr (isint)
        return static_cast<T>(1ull << ((i + rot) % (sizeof(T) * 8)));
      else
        return T(1ull << ((i + rot) % 23));
    }

    static void plain()
    {
      for (int rot = 0; rot < (isint ? 8 : 23); ++rot)
        {
          mc::at("reduce", rot);
          T a[N];
          T sum = T(0), mul = T(1), x = T(0), o = T(0), n = T(~0ull);
          for (int i = 0; i < N; ++i)
            {
              a[i] = weight(i, rot);
              sum = T(sum + a[i]);
            }
          V v = make(a);
          eq("reduce(v)", stdx::reduce(v), sum);
          eq("reduce(v, plus)", stdx::reduce(v, std::plus<>()), sum);
          eq("reduce(v, lambda)", stdx::reduce(v, [](auto l, auto r) { return l + r; }), sum);
          if constexpr (isint)
            {
              for (int i = 0; i < N; ++i)
                {
                  x = T(x ^ a[i]);
                  o = T(o | a[i]);
                }
              eq("reduce(v, bit_xor)", stdx::reduce(v, std::bit_xor<>()), x);
              eq("reduce(v, bit_or)", stdx::reduce(v, std::bit_or<>()), o);
              for (int i = 0; i < N; ++i)
                {
                  a[i] = T(~a[i]);
                  n = T(n & a[i]);
                }
              v = make(a);
              eq("reduce(v, bit_and)", stdx::reduce(v, std::bit_and<>()), n);
            }
          // products: one factor 3 resp. 2 at up to three places, 1 elsewhere
          for (int i = 0; i < N; ++i)
            a[i] = T(i == rot % N ? 3 : i == (rot + 1) % N ? 2 : i == (rot * 5 + 2) % N ? 5 : 1);
          for (int i = 0; i < N; ++i)
            mul = T(mul * a[i]);
          eq("reduce(v, multiplies)", stdx::reduce(make(a), std::multiplies<>()), mul);
          mc::step(7);
          mc::ok();
        }
      // one outstanding element at each place among all values of the alphabet
      auto vals = mc::alphabet<T>();
      std::erase_if(vals, [](T x) { return x != x; });
      for (std::size_t p = 0; p < vals.size(); ++p)
        for (int pos = 0; pos < N; ++pos)
          {
            mc::at("hmin/hmax", p, pos);
            T a[N];
            for (int i = 0; i < N; ++i)
              a[i] = vals[(p + i + (i >= pos ? 1 : 0)) % vals.size()];
            a[pos] = vals[p];
            T lo = a[0], hi = a[0];
            for (int i = 1; i < N; ++i)
              {
                lo = a[i] < lo ? a[i] : lo;
                hi = hi < a[i] ? a[i] : hi;
              }
            const V v = make(a);
            eq("hmin(v)", stdx::hmin(v), lo);
            eq("hmax(v)", stdx::hmax(v), hi);
            mc::step(2);
            mc::ok();
          }
      static_assert(std::is_same_v<decltype(stdx::reduce(V())), T> and std::is_same_v<decltype(stdx::hmin(V())), T>
                    and std::is_same_v<decltype(stdx::hmax(V())), T>);
    }

    static void masked(std::uint64_t bits)
    {
      const M k = mc::make_mask<M>(bits);
      auto vals = mc::few<T>();
      std::erase_if(vals, [](T x) { return x != x; });
      for (int rot = 0; rot < 4; ++rot)
        {
          mc::at("masked reduce", bits, rot);
          T a[N], sum = T(0), mul = T(1), x = T(0), o = T(0), n = T(~0ull);
          if constexpr (not isint)
            n = T(0);
          for (int i = 0; i < N; ++i)
            {
              a[i] = weight(i, rot * 3);
              if (bits >> i & 1)
                sum = T(sum + a[i]);
              else if constexpr (not isint)
                a[i] = rot & 1 ? std::numeric_limits<T>::quiet_NaN() : std::numeric_limits<T>::infinity();
            }
          V v = make(a);
          const V c = v;
          eq("reduce(where(k, v))", stdx::reduce(stdx::where(k, v)), sum);
          eq("reduce(where(k, const))", stdx::reduce(stdx::where(k, c)), sum);
          eq("reduce(where(k, v), plus)", stdx::reduce(stdx::where(k, v), std::plus<>()), sum);
          eq("reduce(where(k, v), 0, plus)", stdx::reduce(stdx::where(k, v), T(0), std::plus<>()), sum);
          eq("reduce(where(k, v), 0, lambda)", stdx::reduce(stdx::where(k, v), T(0), [](auto l, auto r) { return l + r; }), sum);
          if constexpr (isint)
            {
              for (int i = 0; i < N; ++i)
                if (bits >> i & 1)
                  {
                    x = T(x ^ a[i]);
                    o = T(o | a[i]);
                  }
              eq("reduce(where(k, v), bit_xor)", stdx::reduce(stdx::where(k, v), std::bit_xor<>()), x);
              eq("reduce(where(k, v), bit_or)", stdx::reduce(stdx::where(k, v), std::bit_or<>()), o);
              for (int i = 0; i < N; ++i)
                {
                  a[i] = T(~a[i]);
                  if (bits >> i & 1)
                    n = T(n & a[i]);
                }
              v = make(a);
              eq("reduce(where(k, v), bit_and)", stdx::reduce(stdx::where(k, v), std::bit_and<>()), n);
              // the identity element of the caller is what an empty selection yields
            }
          if (bits == 0)
            eq("empty selection", stdx::reduce(stdx::where(k, v), T(77), [](auto l, auto r) { return l + r; }), T(77));
          for (int i = 0; i < N; ++i)
            {
              a[i] = T(i == rot % N ? 3 : i == (rot + 1) % N ? 2 : i == (rot * 5 + 2) % N ? 5 : 1);
              if (bits >> i & 1)
                mul = T(mul * a[i]);
              else
                a[i] = T(0);
            }
          v = make(a);
          eq("reduce(where(k, v), multiplies)", stdx::reduce(stdx::where(k, v), std::multiplies<>()), mul);
          mc::step(8);
          mc::ok();
        }
      for (std::size_t p = 0; p < vals.size(); ++p)
        for (int form = 0; form < 3; ++form)
          {
            mc::at("masked hmin/hmax", bits, p, form);
            T a[N], lo = std::numeric_limits<T>::max(), hi = std::numeric_limits<T>::lowest();
            bool first = true;
            for (int i = 0; i < N; ++i)
              {
                // form 0: all different; 1: all selected equal; 2: selected equal, others extreme
                a[i] = vals[(p + (form == 0 ? i : 0)) % vals.size()];
                if (bits >> i & 1)
                  {
                    lo = first or a[i] < lo ? a[i] : lo;
                    hi = first or hi < a[i] ? a[i] : hi;
                    first = false;
                  }
                else if (form == 2)
                  a[i] = i & 1 ? std::numeric_limits<T>::lowest() : std::numeric_limits<T>::max();
              }
            V v = make(a);
            const V c = v;
            eq("hmin(where(k, v))", stdx::hmin(stdx::where(k, v)), lo);
            eq("hmax(where(k, v))", stdx::hmax(stdx::where(k, v)), hi);
            eq("hmin(where(k, const))", stdx::hmin(stdx::where(k, c)), lo);
            eq("hmax(where(k, const))", stdx::hmax(stdx::where(k, c)), hi);
            mc::step(4);
            mc::ok();
          }
    }
    static void all()
    {
      mc::context = mc::name_of<V>();
      plain();
      for (auto b : mc::mask_patterns(N, VIRMC_FULL))
        masked(b);
    }
  };

#ifdef VIR_DISABLE_STDX_SIMD
template <typename V>
  constexpr bool ct()
  {
    using T = typename V::value_type;
    constexpr int N = V::size();
    T sum = 0;
    V v([](auto i) { return T(i % 5 + 1); });
    for (int i = 0; i < N; ++i)
      sum += T(i % 5 + 1);
    return stdx::reduce(v) == sum and stdx::hmin(v) == T(1) and stdx::hmax(v) == T(N < 5 ? N : 5);
  }
static_assert(ct<stdx::simd<GT, stdx::simd_abi::scalar>>() and ct<stdx::fixed_size_simd<GT, 1>>() and ct<stdx::fixed_size_simd<GT, 3>>()
              and ct<stdx::fixed_size_simd<GT, 7>>() and ct<stdx::fixed_size_simd<GT, 8>>() and ct<stdx::fixed_size_simd<GT, 31>>());
#endif

int main()
{
  mc::init();
  R<stdx::simd<GT, stdx::simd_abi::scalar>>::all();
  []<int... Ns>(std::integer_sequence<int, Ns...>) {
#if VIRMC_PART == 0
    (R<stdx::fixed_size_simd<GT, Ns + 1>>::all(), ...);
  }(std::make_integer_sequence<int, 8>());
#elif VIRMC_PART == 1
    (R<stdx::fixed_size_simd<GT, Ns * 2 + 9>>::all(), ...);
  }(std::make_integer_sequence<int, 12>());
#else
    (R<stdx::fixed_size_simd<GT, Ns * 2 + 10>>::all(), ...);
  }(std::make_integer_sequence<int, 12>());
#ifdef VIR_DISABLE_STDX_SIMD // there is no upper limit; native_simd<char> has 64 elements with AVX-512
  if constexpr (sizeof(GT) == 1)
    {
      R<stdx::fixed_size_simd<GT, 33>>::all();
      R<stdx::fixed_size_simd<GT, 63>>::all();
      R<stdx::fixed_size_simd<GT, 64>>::all();
    }
#endif
#endif
  return mc::finish();
}

// C13: simd_resize / simd_size_cast keep the common elements and zero-fill the rest; iota_v; cvt.
#include "mc.h"
#include <vir/simd_resize.h>
#include <vir/simd_iota.h>
#include <vir/simd_cvt.h>
#include <array>
namespace stdx = vir::stdx;

template <typename T> T elem(long k)
{
  if constexpr (std::is_floating_point_v<T>)
    return k % 5 == 3 ? -T(0) : k % 7 == 4 ? std::numeric_limits<T>::infinity() : T(k * 1.5 + 1);
  else
    return T(k * 7 + 1);
}
template <typename T> T elem2(long k)
{
  if constexpr (std::is_floating_point_v<T>)
    return k % 3 == 1 ? std::numeric_limits<T>::quiet_NaN() : std::numeric_limits<T>::lowest();
  else
    return T(~T(k));
}

template <typename To, typename V>
  void check_simd(const To& r, const V& v, const char* what)
  {
    using T = typename V::value_type;
    static_assert(std::is_same_v<typename To::value_type, T>);
    for (std::size_t i = 0; i < To::size(); ++i)
      {
        const T want = i < V::size() ? T(v[i]) : T();
        MC_CHECK(mc::same_value(T(r[i]), want), "%s: element %d is %g, expected %g", what, int(i), mc::num(T(r[i])), mc::num(want));
      }
  }

template <typename V, typename To>
  void size_cast()
  {
    using T = typename V::value_type;
    for (int pat = 0; pat < 2; ++pat)
      {
        mc::at("simd_size_cast n,to,pattern", V::size(), To::size(), pat);
        V v = T();
        for (std::size_t i = 0; i < V::size(); ++i)
          v[i] = pat ? elem2<T>(i) : elem<T>(i);
        auto r = vir::simd_size_cast<To>(v);
        static_assert(std::is_same_v<decltype(r), To>);
        check_simd(r, v, "simd_size_cast");
        mc::step();
        mc::ok();
      }
    using MF = typename V::mask_type;
    using MT = typename To::mask_type;
    constexpr std::size_t n = V::size();
    const unsigned long count = n <= 8 ? 1ul << n : 2 * n + 2;
    for (unsigned long x = 0; x < count; ++x)
      {
        mc::at("mask simd_size_cast n,to,bits", n, To::size(), x);
        auto bit = [&](std::size_t i) { return n <= 8 ? bool(x >> i & 1) : (i == x % (n + 1)) != (x > n); };
        MF k(false);
        for (std::size_t i = 0; i < n; ++i)
          k[i] = bit(i);
        const MT r = vir::simd_size_cast<MT>(k);
        for (std::size_t i = 0; i < MT::size(); ++i)
          MC_CHECK(r[i] == (i < n and bit(i)), "mask simd_size_cast: element %d is %d", int(i), int(r[i]));
        // the padding that may exist is invisible
        int pc = 0;
        for (std::size_t i = 0; i < MT::size(); ++i)
          pc += r[i];
        MC_CHECK(stdx::popcount(r) == pc and stdx::any_of(r) == (pc != 0) and stdx::all_of(r) == (pc == int(MT::size())),
                 "mask simd_size_cast: reductions of the result disagree with its elements");
        mc::step();
        mc::ok();
      }
  }

template <typename V, int M>
  void resize()
  {
    using T = typename V::value_type;
    for (int pat = 0; pat < 2; ++pat)
      {
        mc::at("simd_resize n,to,pattern", V::size(), M, pat);
        V v = T();
        for (std::size_t i = 0; i < V::size(); ++i)
          v[i] = pat ? elem2<T>(i) : elem<T>(i);
        auto r = vir::simd_resize<M>(v);
        static_assert(std::is_same_v<decltype(r), stdx::simd<T, stdx::simd_abi::deduce_t<T, M>>>);
        static_assert(r.size() == M);
        check_simd(r, v, "simd_resize");
        mc::step();
        mc::ok();
      }
    using MF = typename V::mask_type;
    constexpr std::size_t n = V::size();
    for (unsigned long x = 0; x < (n <= 8 ? 1ul << n : 2 * n + 2); ++x)
      {
        mc::at("mask simd_resize n,to,bits", n, M, x);
        auto bit = [&](std::size_t i) { return n <= 8 ? bool(x >> i & 1) : (i == x % (n + 1)) != (x > n); };
        MF k(false);
        for (std::size_t i = 0; i < n; ++i)
          k[i] = bit(i);
        const auto r = vir::simd_resize<M>(k);
        static_assert(r.size() == M);
        for (std::size_t i = 0; i < M; ++i)
          MC_CHECK(r[i] == (i < n and bit(i)), "mask simd_resize: element %d is %d", int(i), int(r[i]));
        int pc = 0;
        for (std::size_t i = 0; i < M; ++i)
          pc += r[i];
        MC_CHECK(stdx::popcount(r) == pc and stdx::any_of(r) == (pc != 0) and stdx::all_of(r) == (pc == M), "mask simd_resize: reductions");
        mc::step();
        mc::ok();
      }
#if VIRMC_CT
    constexpr bool good = [] {
      V v([](int i) { return T(i + 1); });
      auto r = vir::simd_resize<M>(v);
      for (int i = 0; i < M; ++i)
        if (r[i] != (i < int(V::size()) ? T(i + 1) : T()))
          return false;
      return true;
    }();
    MC_CHECK(good, "constant evaluation of simd_resize");
#endif
  }

template <typename V, typename... Tos> void tos() { (size_cast<V, Tos>(), ...); }
template <typename V> void from()
{
  using T = typename V::value_type;
  mc::context = mc::name_of<V>();
  using namespace stdx;
  [&]<int... Ms>(std::integer_sequence<int, Ms...>) { (resize<V, Ms + 1>(), ...); }(std::make_integer_sequence<int, 9>());
  resize<V, 16>();
  resize<V, 31>();
  resize<V, 32>();
  tos<V, simd<T, simd_abi::scalar>, native_simd<T>, fixed_size_simd<T, 1>, fixed_size_simd<T, 2>, fixed_size_simd<T, 3>,
      fixed_size_simd<T, 4>, fixed_size_simd<T, 7>, fixed_size_simd<T, 8>, fixed_size_simd<T, 16>, fixed_size_simd<T, 32>,
      simd<T, simd_abi::deduce_t<T, 2>>, simd<T, simd_abi::deduce_t<T, 4>>, simd<T, simd_abi::deduce_t<T, 8>>, V>();
}

#if __cplusplus >= 202002L
template <typename V>
  void iota()
  {
    mc::context = mc::name_of<V>();
    mc::at("iota size", V::size());
    using T = typename V::value_type;
    static_assert(std::is_same_v<std::remove_cv_t<decltype(vir::iota_v<V>)>, V>);
    for (std::size_t i = 0; i < V::size(); ++i)
      MC_CHECK(vir::iota_v<V>[i] == T(i), "iota_v: element %d is %g", int(i), mc::num(T(vir::iota_v<V>[i])));
    mc::step();
    mc::ok();
  }
template <typename T, std::size_t N>
  void iota_arr()
  {
    mc::context = mc::name_of<T>();
    mc::at("iota array size", N);
    constexpr auto& a = vir::iota_v<std::array<T, N>>;
    static_assert(std::is_same_v<decltype(a), const std::array<T, N>&>);
    for (std::size_t i = 0; i < N; ++i)
      MC_CHECK(a[i] == T(i), "iota_v<array>: element %d", int(i));
    if constexpr (N > 0)
      {
        auto& c = vir::iota_v<T[N]>;
        static_assert(std::is_same_v<decltype(c), const T (&)[N]>);
        for (std::size_t i = 0; i < N; ++i)
          MC_CHECK(c[i] == T(i), "iota_v<T[N]>: element %d", int(i));
      }
    mc::step();
    mc::ok();
  }

template <typename V, typename To>
  void convert()
  {
    using T = typename V::value_type;
    using U = typename To::value_type;
    if constexpr (V::size() == To::size())
      {
        mc::context = mc::name_of<V>() + " -> " + mc::name_of<To>();
        static_assert(std::is_convertible_v<vir::cvt<V>, To>);
        for (long base = 0; base < 110; base += 3)
          {
            mc::at("cvt first", base);
            V v = T();
            for (std::size_t i = 0; i < V::size(); ++i)
              v[i] = T((base + i) % 120);
            const To r = vir::cvt(v);
            for (std::size_t i = 0; i < V::size(); ++i)
              MC_CHECK(r[i] == U(T(v[i])), "element %d is %g, expected %g", int(i), mc::num(U(r[i])), mc::num(U(T(v[i]))));
            mc::step();
            mc::ok();
          }
      }
  }
template <typename V, typename... Us> void converts()
{
  if constexpr (V::size() <= 32)
    {
      (convert<V, stdx::rebind_simd_t<Us, V>>(), ...);
      (convert<V, stdx::fixed_size_simd<Us, V::size()>>(), ...);
    }
}
#endif

int main()
{
  mc::init();
  using namespace stdx;
  using T = VIRMC_T;
#if VIRMC_PART == 0
  from<native_simd<T>>();
  from<simd<T, simd_abi::scalar>>();
  from<fixed_size_simd<T, 3>>();
#elif VIRMC_PART == 1
  from<simd<T, simd_abi::deduce_t<T, 4>>>();
  from<fixed_size_simd<T, 8>>();
  from<fixed_size_simd<T, 5>>();
  from<fixed_size_simd<T, 32>>();
#else
  iota<native_simd<T>>();
  iota<simd<T, simd_abi::scalar>>();
  iota<simd<T>>();
  [&]<int... Ns>(std::integer_sequence<int, Ns...>) {
    (iota<fixed_size_simd<T, Ns + 1>>(), ...);
    (iota<simd<T, simd_abi::deduce_t<T, Ns + 1>>>(), ...);
  }(std::make_integer_sequence<int, 32>());
  [&]<std::size_t... Ns>(std::index_sequence<Ns...>) { (iota_arr<T, Ns>(), ...); }(std::make_index_sequence<40>());
  iota_arr<T, 127>();
  mc::at("iota of arithmetic types");
  static_assert(vir::iota_v<T> == T());
  static_assert(std::is_same_v<decltype(vir::iota_v<T>), const T>);
  mc::ok();
  converts<native_simd<T>, float, double, int, short, signed char, unsigned char, unsigned, long, unsigned long, T>();
  converts<fixed_size_simd<T, 5>, float, double, int, short, signed char, unsigned char, unsigned, long, unsigned long, long double, T>();
  converts<simd<T, simd_abi::scalar>, float, double, int, short, signed char, unsigned char, unsigned, long, unsigned long, long double, T>();
  converts<simd<T, simd_abi::deduce_t<T, 4>>, float, double, int, short, signed char, unsigned char, unsigned, long, unsigned long, T>();
#endif
  return mc::finish();
}

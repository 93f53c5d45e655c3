// C26: iota constants, version comparison, benchmark support.
#include "mc.h"
#include <vir/simd_version.h>
#if VIRMC_PART == 0 || VIRMC_PART == 2
#include <vir/simd_iota.h>
#include <vir/simd_benchmarking.h>
#include <array>
namespace stdx = vir::stdx;
#endif
#include <tuple>

#if VIRMC_PART == 0 // ---------------------------------------------------------------------------------------- iota
template <typename T> T nth(std::size_t i) { return static_cast<T>(i); }
template <typename V>
  void simd_iota()
  {
    using T = typename V::value_type;
    mc::context = mc::name_of<V>();
    static_assert(std::is_same_v<decltype(vir::iota_v<V>), const V>);
    mc::at("iota_v<simd>", V::size());
    for (std::size_t i = 0; i < V::size(); ++i)
      {
        MC_CHECK(vir::iota_v<V>[i] == nth<T>(i), "element %zu is %g", i, mc::num(T(vir::iota_v<V>[i])));
        mc::step();
      }
    mc::ok();
#ifdef VIR_DISABLE_STDX_SIMD
    constexpr V c = vir::iota_v<V>;
    static_assert(c[V::size() - 1] == static_cast<T>(V::size() - 1));
#endif
  }
template <typename T, std::size_t N>
  void array_iota()
  {
    using A = std::array<T, N>;
    mc::context = mc::name_of<A>();
    static_assert(std::is_same_v<decltype(vir::iota_v<A>), const A>);
    mc::at("iota_v<array>", N);
    constexpr A a = vir::iota_v<A>;
    for (std::size_t i = 0; i < N; ++i)
      {
        MC_CHECK(a[i] == nth<T>(i) and vir::iota_v<A>[i] == nth<T>(i), "element %zu is %g", i, mc::num(a[i]));
        mc::step();
      }
    if constexpr (N > 0)
      {
        mc::at("iota_v<T[N]>", N);
        static_assert(std::is_same_v<decltype(vir::iota_v<T[N]>), const T(&)[N]>);
        constexpr T last = vir::iota_v<T[N]>[N - 1];
        MC_CHECK(last == nth<T>(N - 1), "last element is %g", mc::num(last));
        for (std::size_t i = 0; i < N; ++i)
          {
            MC_CHECK(vir::iota_v<T[N]>[i] == nth<T>(i), "element %zu is %g", i, mc::num(vir::iota_v<T[N]>[i]));
            mc::step();
          }
      }
    mc::ok();
  }
template <typename T>
  void iota()
  {
    mc::context = mc::name_of<T>();
    mc::at("iota_v<arithmetic>");
    static_assert(std::is_same_v<decltype(vir::iota_v<T>), const T>);
    constexpr T zero = vir::iota_v<T>;
    MC_CHECK(zero == T(0), "is %g", mc::num(zero));
    mc::step();
    mc::ok();
    simd_iota<stdx::simd<T>>();
    simd_iota<stdx::native_simd<T>>();
    simd_iota<stdx::simd<T, stdx::simd_abi::scalar>>();
    [&]<int... Ns>(std::integer_sequence<int, Ns...>) {
      (simd_iota<stdx::fixed_size_simd<T, Ns + 1>>(), ...);
      (simd_iota<stdx::simd<T, stdx::simd_abi::deduce_t<T, Ns + 1>>>(), ...);
    }(std::make_integer_sequence<int, 32>());
    [&]<std::size_t... Ns>(std::index_sequence<Ns...>) {
      (array_iota<T, Ns>(), ...);
    }(std::make_index_sequence<34>());
    array_iota<T, 127>();
    array_iota<T, 300>();
  }
template <typename... Ts> void iotas() { (iota<Ts>(), ...); }
int main()
{
  mc::init();
  iotas<VIRMC_T>();
  return mc::finish();
}

#elif VIRMC_PART == 1 // --------------------------------------------------------------------------------- version
int main()
{
  mc::init();
  using V = vir::simd_version_t;
  static_assert(std::is_aggregate_v<V>);
  const int alphabet[] = {0, 1, 2, 4, 9, 10, 0x7f, 0x80, 0xbd, 0xbe, 0xc8, 0xff, 0x100};
  std::vector<std::tuple<int, int, int>> all;
  for (int a : alphabet)
    for (int b : alphabet)
      for (int c : alphabet)
        if (a < 10 or b < 10 or c < 10)
          all.emplace_back(a, b, c);
  mc::context = "simd_version_t";
  for (auto& x : all)
    for (auto& y : all)
      {
        const V a{std::get<0>(x), std::get<1>(x), std::get<2>(x)}, b{std::get<0>(y), std::get<1>(y), std::get<2>(y)};
        mc::at("compare", a.major, a.minor, a.patchlevel, b.major, b.minor, b.patchlevel);
        MC_CHECK((a == b) == (x == y), "== is wrong");
        MC_CHECK((a != b) == (x != y), "!= is wrong");
        MC_CHECK((a < b) == (x < y), "< is wrong");
        MC_CHECK((a <= b) == (x <= y), "<= is wrong");
        MC_CHECK((a > b) == (x > y), "> is wrong");
        MC_CHECK((a >= b) == (x >= y), ">= is wrong");
        mc::step(6);
        mc::ok();
      }
  mc::context = "current version";
  mc::at("macros");
  static_assert(V{1, 2, 3} == V{1, 2, 3} and V{1, 2, 3} < V{1, 2, 4} and V{1, 2, 3} != V{1, 3, 3} and V{2, 0, 0} > V{1, 9, 9}
                  and V{1, 2, 3} <= V{1, 2, 3} and V{1, 2, 3} >= V{1, 2, 3});
  constexpr V now = vir::simd_version;
  MC_CHECK(now.major == VIR_SIMD_VERSION_MAJOR and now.minor == VIR_SIMD_VERSION_MINOR and now.patchlevel == VIR_SIMD_VERSION_PATCHLEVEL,
           "simd_version differs from the macros");
  MC_CHECK(VIR_SIMD_VERSION == VIR_SIMD_VERSION_MAJOR * 0x10000 + VIR_SIMD_VERSION_MINOR * 0x100 + VIR_SIMD_VERSION_PATCHLEVEL,
           "VIR_SIMD_VERSION differs from its components");
  MC_CHECK(now.minor >= 0 and now.minor < 256 and now.patchlevel >= 0 and now.patchlevel < 256, "component out of range");
#if VIR_SIMD_VERSION < 0x000400 || VIR_SIMD_VERSION_MAJOR < 0
#error "not usable in the preprocessor"
#endif
  mc::step(3);
  mc::ok();
  return mc::finish();
}

#else // ----------------------------------------------------------------------------------------- benchmark support
template <typename T, typename... Ts>
  void keep(const T& init, const Ts&... more)
  {
    mc::context = mc::name_of<T>();
    auto eq = [](const auto& a, const auto& b) {
      using U = std::remove_cvref_t<decltype(a)>;
      if constexpr (std::is_arithmetic_v<U>)
        return mc::same_value<U>(a, b);
      else
        {
          bool r = true;
          for (std::size_t i = 0; i < U::size(); ++i)
            r = r and mc::same_value<typename U::value_type>(a[i], b[i]);
          return r;
        }
    };
    T x = init;
    mc::at("fake_modify(x)");
    vir::fake_modify(x);
    MC_CHECK(eq(x, init), "the value changed");
    mc::step(); mc::ok();
    mc::at("fake_read(x)");
    vir::fake_read(x);
    MC_CHECK(eq(x, init), "the value changed");
    vir::fake_read(init);
    mc::step(); mc::ok();
    mc::at("fake_read(temporary)");
    vir::fake_read(T(x));
    mc::step(); mc::ok();
    std::tuple<Ts...> t(more...);
    mc::at("fake_modify(x, y, ...)");
    std::apply([&](auto&... ys) { vir::fake_modify(x, ys...); }, t);
    MC_CHECK(eq(x, init), "the first value changed");
    std::apply([&](auto&... ys) { MC_CHECK((eq(ys, more) and ...), "another value changed"); }, t);
    std::apply([&](const auto&... ys) { vir::fake_read(x, ys...); }, t);
    std::apply([&](auto&... ys) { MC_CHECK((eq(ys, more) and ...), "another value changed by fake_read"); }, t);
    mc::step(2); mc::ok();
    vir::fake_modify();
    vir::fake_read();
#ifdef __OPTIMIZE__
    if constexpr (std::is_arithmetic_v<T>)
      {
        mc::at("fake_modify hides the value");
        T c = T(1);
        vir::fake_modify(c);
        MC_CHECK(not __builtin_constant_p(c), "the compiler still knows the value");
        mc::step(); mc::ok();
      }
#endif
  }
template <typename V>
  void wide()
  {
    using T = typename V::value_type;
    using M = typename V::mask_type;
    for (int r = 0; r < 4; ++r)
      {
        V v = T();
        M m(false);
        for (std::size_t i = 0; i < V::size(); ++i)
          {
            v[i] = static_cast<T>(r == 0 ? T(i) : r == 1 ? std::numeric_limits<T>::max() : r == 2 ? std::numeric_limits<T>::lowest() : T(1) / T(i + 1));
            m[i] = (0x5a3cf096u >> ((i + r * 7) % 32)) & 1;
          }
        keep(v, v, T(3), m);
        keep(m, m, v, T(4));
      }
  }
template <typename T>
  void support()
  {
    for (T x : {T(), T(1), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest()})
      keep(x, T(2), 3.f, 4, 5.);
    wide<stdx::simd<T>>();
    wide<stdx::native_simd<T>>();
    wide<stdx::simd<T, stdx::simd_abi::scalar>>();
    [&]<int... Ns>(std::integer_sequence<int, Ns...>) {
      (wide<stdx::fixed_size_simd<T, Ns + 1>>(), ...);
    }(std::make_integer_sequence<int, VIRMC_MAX>());
  }
int main()
{
  mc::init();
  support<VIRMC_T>();
  return mc::finish();
}
#endif

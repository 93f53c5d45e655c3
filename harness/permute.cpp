// C08: simd_permute and the predefined permutations.  C09 (VIRMC_SHIFT_IN): simd_shift_in.
#include "mc.h"
#include <vir/simd_permute.h>
#include <array>
#ifndef VIRMC_T
#define VIRMC_T float
#endif
namespace stdx = vir::stdx;
namespace sp = vir::simd_permutations;

template <typename V> using val_t = typename V::value_type;
template <typename V> V make(int seed)
{ return V([&](int i) { return val_t<V>(seed + i * 3 + 1); }); }
template <typename T> T elem(int seed, long i) { return T(seed + i * 3 + 1); }

#define CT_OK VIR_SIMD_HAVE_CONSTEXPR_API

template <typename F> constexpr bool may_uninit = [] {
  if constexpr (requires { F::has_uninit(); }) return F::has_uninit();
  else return requires { F::uninit; };
}();
// want(i): source index, -1: zero, -2: anything
template <std::size_t R, typename V, typename F, typename W>
  void check(const char* what, long a, long b, F f, W want)
  {
    using T = val_t<V>;
    mc::at(what, V::size(), R, a, b);
    auto cmp = [&](const auto& r, int seed, const char* mode) {
      constexpr long n = R == 0 ? V::size() : R;
      static_assert(std::is_same_v<std::remove_cvref_t<decltype(r)>, stdx::resize_simd_t<n, V>>);
      for (long i = 0; i < n; ++i)
        {
          const long j = want(i);
          if (j == -2)
            continue;
          const T e = j == -1 ? T() : elem<T>(seed, j);
          MC_CHECK(mc::same_value<T>(r[i], e), "%s: element %ld is %g, expected element %ld = %g", mode, i,
                   mc::num(T(r[i])), j, mc::num(e));
        }
    };
    for (int seed : {0, 5})
      {
        volatile int vs = seed;
        const V v = make<V>(vs);
        cmp(vir::simd_permute<R>(v, f), seed, "run time");
        mc::step();
      }
#if CT_OK
    if constexpr (not may_uninit<F> and (not std::is_same_v<T, long double> or not VIR_GLIBCXX_STDX_SIMD))
      // reading an arbitrary value is no constant expression; nor can libstdc++ do simd<long double>
      {
    constexpr auto ct = vir::simd_permute<R>(V([](int i) { return T(9 + i * 3 + 1); }), F());
    cmp(ct, 9, "constant evaluation");
    mc::step();
      }
#endif
    mc::ok();
  }

// the Id-th index function {0..N-1} -> {0..N-1, -N..-1, zero, uninit} in base B
template <long Id, long B, long N>
  struct Fn
  {
    static constexpr bool has_uninit()
    {
      for (long i = 0; i < N; ++i)
        if (digit(i) > 2 * N) return true;
      return false;
    }
    static constexpr long digit(long i)
    {
      long x = Id;
      for (; i > 0; --i)
        x /= B;
      return x % B;
    }
    template <typename I> constexpr int operator()(I i) const
    {
      const long d = digit(i);
      return d < N ? int(d) : d < 2 * N ? int(d - 2 * N) : d == 2 * N ? vir::simd_permute_zero : vir::simd_permute_uninit;
    }
    static long want(long i)
    {
      const long d = digit(i);
      return d < N ? d : d < 2 * N ? d - N : d == 2 * N ? -1 : -2;
    }
  };
struct Affine // two-parameter index function, also usable for resizing
{
  template <typename I, typename S> constexpr int operator()(I i, S size) const { return (int(i) * 3 + 1) % int(size); }
};
struct Back // negative indexes
{
  template <typename I, typename S> constexpr int operator()(I i, S size) const { return -1 - (int(i) * 5) % int(size); }
};
struct Sparse
{
  static constexpr bool uninit = true;
  template <typename I, typename S> constexpr int operator()(I i, S size) const
  {
    return int(i) % 3 == 0 ? vir::simd_permute_zero : int(i) % 3 == 1 ? int(i) % int(size) : vir::simd_permute_uninit;
  }
};

template <typename V, long Off>
  void offset()
  {
    constexpr long n = V::size();
    auto rot = [](long i) { return ((i + Off) % n + n) % n; };
    auto sh = [](long i) { return i + Off < 0 or i + Off >= n ? -1 : i + Off; };
    check<0, V>("rotate size,resize,offset", Off, 0, sp::rotate<Off>, rot);
    check<0, V>("shift size,resize,offset", Off, 0, sp::shift<Off>, sh);
  }

template <typename V>
  void named()
  {
    constexpr long n = V::size();
    mc::context = mc::name_of<V>();
    check<0, V>("reverse", 0, 0, sp::reverse, [](long i) { return n - 1 - i; });
    check<0, V>("duplicate_even", 0, 0, sp::duplicate_even, [](long i) { return i / 2 * 2; });
    if constexpr (n % 2 == 0)
      check<0, V>("duplicate_odd", 0, 0, sp::duplicate_odd, [](long i) { return i / 2 * 2 + 1; });
    check<0, V>("broadcast_first", 0, 0, sp::broadcast_first, [](long) { return 0; });
    check<0, V>("broadcast_last", 0, 0, sp::broadcast_last, [](long) { return n - 1; });
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
      (check<0, V>("broadcast", Is, 0, sp::broadcast<int(Is)>, [](long) { return long(Is); }), ...);
      (check<0, V>("broadcast neg", Is, 0, sp::broadcast<-1 - int(Is)>, [=](long) { return n - 1 - long(Is); }), ...);
      ([&] {
        constexpr long k = Is + 1;
        if constexpr (n % (2 * k) == 0)
          check<0, V>("swap_neighbors", k, 0, sp::swap_neighbors<k>, [](long i) { return i % (2 * k) < k ? i + k : i - k; });
      }(), ...);
    }(std::make_index_sequence<n>());
    if constexpr (n % 2 == 0)
      check<0, V>("swap_neighbors default", 1, 0, sp::swap_neighbors<>, [](long i) { return i ^ 1; });
    check<0, V>("affine", 0, 0, Affine(), [](long i) { return (i * 3 + 1) % n; });
    check<0, V>("back", 0, 0, Back(), [](long i) { return n - 1 - (i * 5) % n; });
    check<0, V>("sparse", 0, 0, Sparse(), [](long i) { return i % 3 == 0 ? -1 : i % 3 == 1 ? i % n : -2; });
  }

template <typename V, long Lo, long Hi>
  void offsets()
  {
    mc::context = mc::name_of<V>();
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
      (offset<V, Lo + long(Is)>(), ...);
    }(std::make_index_sequence<Hi - Lo + 1>());
  }

template <typename V, long R>
  void resize1()
  {
    constexpr long n = V::size();
    check<R, V>("affine size,resize", 0, 0, Affine(), [](long i) { return (i * 3 + 1) % n; });
    check<R, V>("back size,resize", 0, 0, Back(), [](long i) { return n - 1 - (i * 5) % n; });
    check<R, V>("sparse size,resize", 0, 0, Sparse(), [](long i) { return i % 3 == 0 ? -1 : i % 3 == 1 ? i % n : -2; });
    check<R, V>("rotate 1 size,resize", 1, 0, sp::rotate<1>, [](long i) { return (i + 1) % n; });
    check<R, V>("rotate 2 size,resize", 2, 0, sp::rotate<2>, [](long i) { return (i + 2) % n; });
    check<R, V>("rotate -2 size,resize", -2, 0, sp::rotate<-2>, [](long i) { return ((i - 2) % n + n) % n; });
    check<R, V>("broadcast last size,resize", 0, 0, sp::broadcast_last, [](long) { return n - 1; });
    check<R, V>("shift 1 size,resize", 1, 0, sp::shift<1>, [](long i) { return i + 1 < n ? i + 1 : -1; });
    if constexpr (R <= n)
      {
        check<R, V>("reverse size,resize", 0, 0, sp::reverse, [](long i) { return n - 1 - i; });
        check<R, V>("shift -1 size,resize", 1, 0, sp::shift<-1>, [](long i) { return i >= 1 ? i - 1 : -1; });
      }
  }
template <typename V, long... Rs>
  void resizes()
  {
    mc::context = mc::name_of<V>();
    (resize1<V, Rs>(), ...);
  }

template <typename V, long From, long To, long B>
  void functions()
  {
    constexpr long n = V::size();
    mc::context = mc::name_of<V>();
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
      (check<0, V>("index function", From + Is, B, Fn<From + long(Is), B, n>(), Fn<From + long(Is), B, n>::want), ...);
    }(std::make_index_sequence<To - From>());
  }

template <typename T>
  void scalar()
  {
    mc::context = "scalar " + mc::name_of<T>();
    auto one = [](const char* what, T got, T want) {
      mc::at(what);
      MC_CHECK(mc::same_value(got, want), "got %g instead of %g", mc::num(got), mc::num(want));
      mc::step();
      mc::ok();
    };
    one("reverse", vir::simd_permute(T(7), sp::reverse), T(7));
    one("rotate 3", vir::simd_permute(T(7), sp::rotate<3>), T(7));
    one("rotate -3", vir::simd_permute(T(7), sp::rotate<-3>), T(7));
    one("rotate 0", vir::simd_permute(T(7), sp::rotate<0>), T(7));
    one("shift 1", vir::simd_permute(T(7), sp::shift<1>), T(0));
    one("shift 0", vir::simd_permute(T(7), sp::shift<0>), T(7));
    one("shift -1", vir::simd_permute(T(7), sp::shift<-1>), T(0));
    one("broadcast_first", vir::simd_permute(T(7), sp::broadcast_first), T(7));
    one("broadcast_last", vir::simd_permute(T(7), sp::broadcast_last), T(7));
    one("duplicate_even", vir::simd_permute(T(7), sp::duplicate_even), T(7));
    one("zero", vir::simd_permute(T(7), [](auto) { return vir::simd_permute_zero; }), T(0));
    one("const 0", vir::simd_permute<1>(T(7), [](auto) { return 0; }), T(7));
    one("const -1", vir::simd_permute<1>(T(7), [](auto) { return -1; }), T(7));
    static_assert(vir::simd_permute(T(5), sp::reverse) == T(5));
    static_assert(vir::simd_permute(T(5), sp::shift<1>) == T(0));
    auto r = vir::simd_permute<4>(T(7), [](auto i) { return i == 2 ? vir::simd_permute_zero : 0; });
    mc::at("resize 1 to 4");
    static_assert(r.size() == 4);
    for (int i = 0; i < 4; ++i)
      MC_CHECK(r[i] == (i == 2 ? T(0) : T(7)), "element %d", i);
    mc::ok();
  }

template <typename V, int Off, int More>
  void shift_in1()
  {
    using T = val_t<V>;
    constexpr long n = V::size();
    mc::at("shift_in offset,more", Off, More);
    auto vv = [](int k) { volatile int s = int(k * n * 3); return make<V>(s); };
    auto get = [&](auto mk) {
      if constexpr (More == 0) return vir::simd_shift_in<Off>(mk(0));
      else if constexpr (More == 1) return vir::simd_shift_in<Off>(mk(0), mk(1));
      else if constexpr (More == 2) return vir::simd_shift_in<Off>(mk(0), mk(1), mk(2));
      else return vir::simd_shift_in<Off>(mk(0), mk(1), mk(2), mk(3));
    };
    const V r = get(vv);
    static_assert(std::is_same_v<decltype(get(vv)), V>);
    for (long i = 0; i < n; ++i)
      {
        const long j = i + Off;
        // positions left of the first argument: its own elements once more (from the end), then zeros
        const T e = j >= n * (More + 1) or j < -n ? T() : elem<T>(0, j < 0 ? j + n : j);
        MC_CHECK(mc::same_value<T>(r[i], e), "element %ld is %g, expected %g", i, mc::num(T(r[i])), mc::num(e));
      }
    mc::step();
    mc::ok();
  }
template <typename V>
  void shift_in()
  {
    constexpr long n = V::size();
    mc::context = mc::name_of<V>();
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
      (shift_in1<V, Is, 0>(), ...);
      (shift_in1<V, Is, 1>(), ...);
      (shift_in1<V, Is, 2>(), ...);
      (shift_in1<V, Is, 3>(), ...);
    }(std::make_index_sequence<(n > 16 ? 2 * n + 3 : 4 * n + 2)>());
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
      (shift_in1<V, -1 - int(Is), 0>(), ...);
      (shift_in1<V, -1 - int(Is), 1>(), ...);
    }(std::make_index_sequence<2 * n + 2>());
#ifdef VIR_DISABLE_STDX_SIMD // masks (libstdc++ has no generator constructor for simd_mask)
    using M = typename V::mask_type;
    mc::context += " mask";
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
      ([&] {
        constexpr int off = int(Is) - (n > 16 ? 2 : n + 1);
        // small masks: every combination; large ones: every single bit and its complement
        for (long bits = 0; bits < (n > 6 ? 4 * n : 1L << (2 * n)); ++bits)
          {
            auto bit = [&](long j) { if (j < 0) j = j < -n ? 2 * n : j + n; return j < 2 * n and (n > 6 ? (bits % (2 * n) == j) != (bits >= 2 * n) : bool(bits >> j & 1)); };
            mc::at("mask shift_in offset,bits", off, bits);
            const M a([&](int i) { return bit(i); }), b([&](int i) { return bit(n + i); });
            const M r = vir::simd_shift_in<off>(a, b);
            for (long i = 0; i < n; ++i)
              MC_CHECK(r[i] == bit(i + off), "element %ld", i);
            mc::step();
            mc::ok();
          }
      }(), ...);
    }(std::make_index_sequence<(n > 16 ? 7 : 3 * n + 3)>());
#endif
  }

template <typename T, int N> using Fixed = stdx::fixed_size_simd<T, N>;
template <typename T, int N> using Ded = stdx::simd<T, stdx::simd_abi::deduce_t<T, N>>;

int main()
{
  mc::init();
  using T = VIRMC_T;
  using Nat = stdx::native_simd<T>;
  constexpr long nn = Nat::size();
#if VIRMC_PART == 0
  named<Nat>();
  named<stdx::simd<T, stdx::simd_abi::scalar>>();
  named<Ded<T, 2>>();
  named<Ded<T, 4>>();
  named<Fixed<T, 3>>();
  named<Ded<T, 3>>();
  named<Fixed<T, 12>>();
  scalar<T>();
#elif VIRMC_PART == 1
  offsets<Nat, (nn > 16 ? -nn - 1 : -2 * nn - 1), (nn > 16 ? nn + 1 : 2 * nn + 1)>();
#elif VIRMC_PART == 2
  offsets<Ded<T, 2>, -5, 5>();
  offsets<Ded<T, 4>, -9, 9>();
  offsets<Ded<T, 3>, -7, 7>();
  offsets<Fixed<T, 3>, -7, 7>();
  offsets<Fixed<T, 8>, -17, 17>();
  offsets<stdx::simd<T, stdx::simd_abi::scalar>, -3, 3>();
#elif VIRMC_PART == 3
  resizes<Nat, 1, 2, 3, 4, 8, 16>();
  resizes<Ded<T, 2>, 1, 2, 4, 5, 8>();
  resizes<Ded<T, 4>, 1, 2, 3, 4, 8, 16>();
  resizes<Ded<T, 3>, 1, 2, 3, 4, 8>();
  resizes<Fixed<T, 3>, 1, 2, 3, 4, 6>();
#elif VIRMC_PART == 4 // all index functions including negative indexes, zero, uninit
  functions<Ded<T, 2>, 0, 36, 6>();
  functions<stdx::simd<T, stdx::simd_abi::scalar>, 0, 4, 4>();
  functions<Ded<T, 4>, 0, 256, 4>();      // all 4^4 maps onto non-negative indexes
#elif VIRMC_PART == 5
  functions<Fixed<T, 3>, 0, 512, 8>();
#elif VIRMC_PART == 9
  shift_in<Nat>();
  shift_in<Ded<T, 2>>();
  shift_in<Ded<T, 4>>();
  shift_in<Fixed<T, 3>>();
  shift_in<stdx::simd<T, stdx::simd_abi::scalar>>();
#endif
  return mc::finish();
}

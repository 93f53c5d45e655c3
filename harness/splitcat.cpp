// C21: split and concat keep all elements in order.
#include "vals.h"
#include "masks.h"
#include <array>
#include <tuple>
#include <vir/simd.h>
#ifndef VIRMC_T
#define VIRMC_T float
#endif
namespace stdx = vir::stdx;
using T = VIRMC_T;
template <int N> using V = stdx::fixed_size_simd<T, N>;
template <int N> using M = stdx::fixed_size_simd_mask<T, N>;
template <int N> using D = stdx::simd<T, stdx::simd_abi::deduce_t<T, N>>;
template <int N> using DM = stdx::simd_mask<T, stdx::simd_abi::deduce_t<T, N>>;
using S = stdx::simd<T, stdx::simd_abi::scalar>;
using SM = stdx::simd_mask<T, stdx::simd_abi::scalar>;

static std::vector<T> vals;
template <typename X>
  X make(int start)
  {
    X v = T();
    for (int i = 0; i < int(X::size()); ++i)
      v[i] = vals[(start + i) % vals.size()];
    return v;
  }
template <typename X>
  void expect(const char* what, const X& v, int start)
  {
    for (int i = 0; i < int(X::size()); ++i)
      {
        const T w = vals[(start + i) % vals.size()];
        MC_CHECK(mc::same_value<T>(v[i], w), "%s: element %d (overall %d) is %g, expected %g", what, i, start + i, mc::num(T(v[i])), mc::num(w));
      }
    mc::step();
  }
template <typename X>
  void expectm(const char* what, const X& m, std::uint64_t b)
  {
    for (int i = 0; i < int(X::size()); ++i)
      MC_CHECK(bool(m[i]) == bool(b >> i & 1), "%s: element %d is %d", what, i, int(bool(m[i])));
    mc::step();
  }

// split<X>(x) into equal parts, concat(array)
template <typename X, typename XM, int Parts>
  void equal_parts()
  {
    constexpr int K = X::size(), N = K * Parts;
    mc::context = mc::name_of<X>() + " x " + std::to_string(Parts);
    const std::size_t rots = vals.size() < 64 ? vals.size() : 64;
    for (std::size_t r = 0; r < rots; ++r)
      {
        mc::at("split", N, K, r);
        const auto x = make<V<N>>(r);
        const auto a = stdx::split<X>(x);
        static_assert(std::is_same_v<std::remove_cvref_t<decltype(a)>, std::array<X, Parts>>);
        for (int p = 0; p < Parts; ++p)
          expect("split", a[p], r + p * K);
        const auto back = stdx::concat(a);
        static_assert(std::is_same_v<std::remove_cvref_t<decltype(back)>, D<N>>);
        expect("concat(array)", back, r);
        expect("argument", x, r);
        mc::ok();
      }
    for (auto b : mc::mask_patterns(N, 8))
      {
        mc::at("split mask", N, K, b);
        const auto x = mc::make_mask<M<N>>(b);
        const auto a = stdx::split<XM>(x);
        static_assert(std::is_same_v<std::remove_cvref_t<decltype(a)>, std::array<XM, Parts>>);
        for (int p = 0; p < Parts; ++p)
          expectm("split mask", a[p], b >> (p * K));
        const auto back = stdx::concat(a);
        static_assert(std::is_same_v<std::remove_cvref_t<decltype(back)>, DM<N>>);
        expectm("concat(array of masks)", back, b);
        mc::ok();
      }
  }

// number of elements in front of part k
template <int... Sizes>
  int before(std::size_t k)
  {
    const int size[] = {Sizes...};
    int o = 0;
    for (std::size_t j = 0; j < k; ++j)
      o += size[j];
    return o;
  }

// split<Sizes...>(x), concat(xs...)
template <int... Sizes>
  void parts()
  {
    constexpr int n = sizeof...(Sizes), N = (Sizes + ...);
    constexpr int size[] = {Sizes...};
    mc::context = mc::name_of<T>();
    (void)n;
    const std::size_t rots = vals.size() < 16 ? vals.size() : 16;
    auto describe = [&](const char* op, long r) {
      mc::at(op, r);
      for (int s : size)
        if (mc::nargs < 10)
          mc::args[mc::nargs++] = s;
    };
    for (std::size_t r = 0; r < rots; ++r)
      {
        describe("split<Sizes...>", r);
        const auto x = make<V<N>>(r);
        const auto t = stdx::split<Sizes...>(x);
        static_assert(std::is_same_v<std::remove_cvref_t<decltype(t)>, std::tuple<D<Sizes>...>>);
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
          (expect("split<Sizes...>", std::get<Is>(t), r + before<Sizes...>(Is)), ...);
          const auto back = stdx::concat(std::get<Is>(t)...);
          static_assert(std::is_same_v<std::remove_cvref_t<decltype(back)>, D<N>>);
          expect("concat(split<Sizes...>)", back, r);
        }(std::make_index_sequence<sizeof...(Sizes)>());
        // concat of fixed_size simds
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
          expect("concat(fixed_size...)", stdx::concat(make<V<Sizes>>(r + before<Sizes...>(Is))...), r);
        }(std::make_index_sequence<sizeof...(Sizes)>());
        mc::ok();
      }
    for (auto b : mc::mask_patterns(N, 6))
      {
        describe("concat masks", b);
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
          const auto c = stdx::concat(mc::make_mask<M<Sizes>>(b >> before<Sizes...>(Is))...);
          static_assert(std::is_same_v<std::remove_cvref_t<decltype(c)>, DM<N>>);
          expectm("concat(masks)", c, b);
          expectm("concat(deduced masks)", stdx::concat(mc::make_mask<DM<Sizes>>(b >> before<Sizes...>(Is))...), b);
        }(std::make_index_sequence<sizeof...(Sizes)>());
        mc::ok();
      }
  }

// all compositions of N: bit i of C: a cut behind element i
template <int N, unsigned Cuts>
  void composition()
  {
    constexpr auto sizes = [] {
      std::array<int, N> s = {};
      int k = 0, len = 0;
      for (int i = 0; i < N; ++i)
        {
          ++len;
          if (i == N - 1 or (Cuts >> i & 1))
            {
              s[k++] = len;
              len = 0;
            }
        }
      return std::pair(s, k);
    }();
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
      parts<sizes.first[Is]...>();
    }(std::make_index_sequence<sizes.second>());
  }
template <int N>
  void compositions()
  {
    []<unsigned... Cs>(std::integer_sequence<unsigned, Cs...>) {
      (composition<N, Cs>(), ...);
    }(std::make_integer_sequence<unsigned, (1u << (N - 1))>());
  }

#ifdef VIR_DISABLE_STDX_SIMD
template <int... Sizes>
  constexpr bool ct()
  {
    constexpr int N = (Sizes + ...);
    const V<N> x([](auto i) { return T(i + 1); });
    const auto t = stdx::split<Sizes...>(x);
    return std::apply([](const auto&... ps) {
             const auto c = stdx::concat(ps...);
             bool ok = true;
             for (int i = 0; i < N; ++i)
               ok = ok and c[i] == T(i + 1);
             int off = 0;
             auto one = [&](const auto& p) { for (int i = 0; i < int(p.size()); ++i) ok = ok and p[i] == T(++off); };
             (one(ps), ...);
             return ok;
           }, t);
  }
static_assert(ct<1>() and ct<2, 1>() and ct<1, 2>() and ct<4, 4>() and ct<1, 1, 1>() and ct<3, 5, 8>() and ct<16, 16>());
static_assert([] {
  const V<12> x([](auto i) { return T(i + 1); });
  const auto a = stdx::split<V<4>>(x);
  const auto c = stdx::concat(a);
  bool ok = true;
  for (int i = 0; i < 12; ++i)
    ok = ok and a[i / 4][i % 4] == T(i + 1) and c[i] == T(i + 1);
  return ok;
}());
#endif

int main()
{
  mc::init();
  vals = mc::alphabet<T>();
#if VIRMC_PART == 0
  equal_parts<V<1>, M<1>, 1>(); equal_parts<V<1>, M<1>, 2>(); equal_parts<V<1>, M<1>, 3>(); equal_parts<V<1>, M<1>, 8>();
  equal_parts<S, SM, 1>(); equal_parts<S, SM, 2>(); equal_parts<S, SM, 3>(); equal_parts<S, SM, 7>(); equal_parts<S, SM, 32>();
  equal_parts<V<2>, M<2>, 1>(); equal_parts<V<2>, M<2>, 2>(); equal_parts<V<2>, M<2>, 3>(); equal_parts<V<2>, M<2>, 4>(); equal_parts<V<2>, M<2>, 16>();
  equal_parts<V<3>, M<3>, 1>(); equal_parts<V<3>, M<3>, 2>(); equal_parts<V<3>, M<3>, 5>(); equal_parts<V<3>, M<3>, 10>();
  equal_parts<V<4>, M<4>, 2>(); equal_parts<V<4>, M<4>, 3>(); equal_parts<V<4>, M<4>, 8>();
  equal_parts<V<5>, M<5>, 2>(); equal_parts<V<5>, M<5>, 6>();
  equal_parts<V<7>, M<7>, 4>();
  equal_parts<V<8>, M<8>, 2>(); equal_parts<V<8>, M<8>, 3>(); equal_parts<V<8>, M<8>, 4>();
  equal_parts<V<15>, M<15>, 2>();
  equal_parts<V<16>, M<16>, 2>();
  equal_parts<V<32>, M<32>, 1>();
#elif VIRMC_PART == 1
  compositions<1>(); compositions<2>(); compositions<3>(); compositions<4>(); compositions<5>();
#elif VIRMC_PART == 2
  parts<6>(); parts<3, 3>(); parts<2, 4>(); parts<4, 2>(); parts<1, 7>(); parts<7, 1>(); parts<4, 4>(); parts<4, 2, 1, 1>(); parts<1, 1, 2, 4>();
  parts<8, 8>(); parts<16, 16>(); parts<31, 1>(); parts<1, 31>(); parts<8, 8, 8, 8>(); parts<8, 8, 15>(); parts<3, 5, 7, 11>();
  parts<4, 4, 4, 4, 4, 4, 4, 4>(); parts<16, 8, 4, 2, 1>(); parts<1, 2, 4, 8, 16>(); parts<9, 10, 13>(); parts<12, 12>();
#ifdef VIR_DISABLE_STDX_SIMD // there is no upper limit; native_simd<char> has 64 elements with AVX-512
  if constexpr (sizeof(T) == 1 or sizeof(T) == 4)
    {
      parts<32, 32>();
      parts<33, 31>();
      parts<16, 16, 16, 16>();
      equal_parts<V<32>, M<32>, 2>();
      equal_parts<V<1>, M<1>, 64>();
      equal_parts<V<16>, M<16>, 4>();
      equal_parts<V<3>, M<3>, 21>();
    }
#endif
#else
  compositions<6>();
  compositions<7>();
#endif
  return mc::finish();
}

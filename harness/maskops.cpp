// C19: mask operators, loads, stores, reductions.
#include "masks.h"
#include <array>
#include <vir/simd.h>
#ifndef VIRMC_T
#define VIRMC_T float
#endif
#ifndef VIRMC_FULL
#define VIRMC_FULL 8
#endif
namespace stdx = vir::stdx;
using GT = VIRMC_T;

template <typename M>
  struct R
  {
    static constexpr int N = M::size();
    static constexpr std::uint64_t all = (N == 64 ? ~0ul : (1ul << N) - 1);
    static void expect(const char* what, const M& m, std::uint64_t want)
    {
      for (int i = 0; i < N; ++i)
        MC_CHECK(bool(m[i]) == bool(want >> i & 1), "%s: element %d is %d", what, i, int(bool(m[i])));
    }

    static void unary(std::uint64_t b)
    {
      const M m = mc::make_mask<M>(b);
      mc::at("reductions", b);
      const int pc = __builtin_popcountll(b);
      MC_CHECK(stdx::all_of(m) == (b == all), "all_of");
      MC_CHECK(stdx::any_of(m) == (b != 0), "any_of");
      MC_CHECK(stdx::none_of(m) == (b == 0), "none_of");
      MC_CHECK(stdx::some_of(m) == (b != 0 and b != all), "some_of");
      MC_CHECK(stdx::popcount(m) == pc, "popcount is %d, expected %d", int(stdx::popcount(m)), pc);
      if (b)
        {
          MC_CHECK(stdx::find_first_set(m) == __builtin_ctzll(b), "find_first_set is %d", int(stdx::find_first_set(m)));
          MC_CHECK(stdx::find_last_set(m) == 63 - __builtin_clzll(b), "find_last_set is %d", int(stdx::find_last_set(m)));
        }
      expect("the argument", m, b);
      static_assert(std::is_same_v<decltype(stdx::all_of(m)), bool> and std::is_same_v<decltype(stdx::any_of(m)), bool>
                    and std::is_same_v<decltype(stdx::popcount(m)), int> and std::is_same_v<decltype(stdx::find_last_set(m)), int>);
      expect("!", !m, all ^ b);
      mc::step(8);
      mc::ok();
      // element writes
      mc::at("element access", b);
      for (int i = 0; i < N; ++i)
        {
          M w = m;
          w[i] = not w[i];
          expect("w[i] = ", w, b ^ (1ull << i));
          auto&& ref = w[i];
          ref = true;
          expect("ref = true", w, b | (1ull << i));
          w[i] = false;
          expect("w[i] = false", w, b & ~(1ull << i));
        }
      M c(m), d(false), e(true);
      d = m;
      e = std::move(c);
      expect("copy", d, b);
      expect("move", e, b);
      expect("generator", M([&](std::size_t i) -> bool { return b >> i & 1; }), b);
      expect("broadcast", M(bool(b & 1)), b & 1 ? all : 0);
      mc::step(3 * N + 5);
      mc::ok();
      // loads and stores
      static mc::guarded in(4096), out(4096);
      auto ls = [&](auto flags, std::size_t align, const char* name) {
        for (int pos = 0; pos < 3; ++pos)
          {
            mc::at(name, b, pos);
            std::ptrdiff_t off = pos == 0 ? 0 : pos == 1 ? (4096 - N) / align * align : 1024 + 64 + (align == 1);
            bool* src = reinterpret_cast<bool*>(in.begin() + off);
            in.writable();
            for (int i = 0; i < N; ++i)
              src[i] = b >> i & 1;
            in.readonly();
            M x(false), y(true);
            x.copy_from(src, flags);
            y.copy_from(src, flags);
            expect("copy_from", x, b);
            expect("copy_from", y, b);
            expect("load constructor", M(src, flags), b);
            std::memset(out.begin(), 0x5c, 4096);
            bool* dst = reinterpret_cast<bool*>(out.begin() + off);
            m.copy_to(dst, flags);
            for (int i = 0; i < N; ++i)
              {
                unsigned char raw;
                std::memcpy(&raw, dst + i, 1);
                MC_CHECK(raw == (b >> i & 1), "copy_to: element %d", i);
              }
            std::memset(static_cast<void*>(dst), 0x5c, N);
            for (int i = 0; i < 4096; ++i)
              MC_CHECK(out.begin()[i] == 0x5c, "copy_to wrote byte %ld of %d", long(i - off), N);
            mc::step(4);
            mc::ok();
          }
      };
      ls(stdx::element_aligned, 1, "load/store element_aligned");
      ls(stdx::vector_aligned, stdx::memory_alignment_v<M, bool>, "load/store vector_aligned");
      ls(stdx::overaligned<64>, 64, "load/store overaligned");
      // masked load constructor: only selected elements are accessed; others are false.  Masked copy_from/copy_to.
      const auto sel = N <= 4 ? mc::mask_patterns(N, 4)
                              : std::vector<std::uint64_t>{0, all, all >> 1, (all << 1) & all, all & 0x5555555555555555, all & 0x3333333333333333, b, all ^ b, 1, 1ull << (N - 1)};
      for (std::uint64_t s : sel)
        for (int pos = 0; pos < 2; ++pos)
          {
            mc::at("masked load/store", b, s, pos);
            const int lo = s ? __builtin_ctzll(s) : 0, hi = s ? 63 - __builtin_clzll(s) : -1;
            const std::ptrdiff_t off = s == 0 ? (pos ? 4096 : -N) : pos == 0 ? -lo : 4096 - (hi + 1);
            in.writable();
            bool* src = reinterpret_cast<bool*>(in.begin() + off);
            for (int i = 0; i < N; ++i)
              if (off + i >= 0 and off + i < 4096)
                src[i] = b >> i & 1;
            in.readonly();
            const M k = mc::make_mask<M>(s);
            expect("masked load constructor", M(src, k, stdx::element_aligned), b & s);
            M w(true);
            stdx::where(k, w).copy_from(src, stdx::element_aligned);
            expect("masked copy_from", w, (b & s) | (all & ~s));
            M z = m;
            std::memset(out.begin(), 0x5c, 4096);
            bool* dst = reinterpret_cast<bool*>(out.begin() + off);
            stdx::where(k, z).copy_to(dst, stdx::element_aligned);
            for (int i = 0; i < N; ++i)
              if (s >> i & 1)
                {
                  unsigned char raw;
                  std::memcpy(&raw, dst + i, 1);
                  MC_CHECK(raw == (b >> i & 1), "masked copy_to: element %d", i);
                  std::memset(static_cast<void*>(dst + i), 0x5c, 1);
                }
            for (int i = 0; i < 4096; ++i)
              MC_CHECK(out.begin()[i] == 0x5c, "masked copy_to wrote byte %ld of %d", long(i - off), N);
            mc::step(3);
            mc::ok();
          }
    }

    static void binary(std::uint64_t b, std::uint64_t c)
    {
      mc::at("binary operators", b, c);
      const M x = mc::make_mask<M>(b), y = mc::make_mask<M>(c);
      static_assert(std::is_same_v<decltype(x && y), M> and std::is_same_v<decltype(x == y), M> and std::is_same_v<decltype(x ^ y), M>);
      expect("&&", x && y, b & c);
      expect("||", x || y, b | c);
      expect("&", x & y, b & c);
      expect("|", x | y, b | c);
      expect("^", x ^ y, b ^ c);
      expect("==", x == y, all & ~(b ^ c));
      expect("!=", x != y, b ^ c);
      M z = x;
      M& r = (z &= y);
      MC_CHECK(&r == &z, "compound assignment must return the object");
      expect("&=", z, b & c);
      z = x; z |= y;
      expect("|=", z, b | c);
      z = x; z ^= y;
      expect("^=", z, b ^ c);
      z = x; z ^= z;
      expect("z ^= z", z, 0);
      z = x; z &= z;
      expect("z &= z", z, b);
      z = x; z |= z;
      expect("z |= z", z, b);
      z = x; z = z;
      expect("z = z", z, b);
      // a mask that selects its own elements
      z = x; stdx::where(z, z) = y;
      expect("where(z, z) = y", z, b & c);
      z = x; stdx::where(!z, z) = y;
      expect("where(!z, z) = y", z, b | c);
      z = x; stdx::where(y, z) = !z;
      expect("where(y, z) = !z", z, b ^ c);
      z = x; stdx::where(z, z) = !z;
      expect("where(z, z) = !z", z, 0);
      expect("left operand", x, b);
      expect("right operand", y, c);
      mc::step(12);
      mc::ok();
    }

    static void all_masks()
    {
      mc::context = mc::name_of<M>();
      const auto pats = mc::mask_patterns(N, VIRMC_FULL);
      for (auto b : pats)
        unary(b);
      if (N <= 8)
        for (auto b : pats)
          for (auto c : pats)
            binary(b, c);
      else
        for (auto b : pats)
          for (auto c : {std::uint64_t(0), all, b, all ^ b, (b << 1) & all, b >> 1, all & 0x5a5a5a5a5a5a5a5aul, all & 0x0f0f0f0f0f0f0f0ful})
            binary(b, c);
    }
  };

// implicit conversion between masks of different value type
template <int N, typename T, typename U>
  void conv()
  {
    using A = stdx::fixed_size_simd_mask<T, N>;
    using B = stdx::fixed_size_simd_mask<U, N>;
    static_assert(std::is_convertible_v<A, B> and std::is_convertible_v<B, A>);
    mc::context = mc::name_of<A>() + " -> " + mc::name_of<B>();
    for (auto b : mc::mask_patterns(N, 8))
      {
        mc::at("conversion", b);
        const A a = mc::make_mask<A>(b);
        const B c = a;
        const A d = c;
        for (int i = 0; i < N; ++i)
          MC_CHECK(bool(c[i]) == bool(b >> i & 1) and bool(d[i]) == bool(c[i]), "element %d", i);
        mc::step(2);
        mc::ok();
      }
  }

#ifdef VIR_DISABLE_STDX_SIMD
template <typename M>
  constexpr bool ct()
  {
    constexpr int N = M::size();
    bool ok = true;
    for (unsigned b = 0; b < (1u << (N < 4 ? N : 4)); ++b)
      {
        auto e = [&](int i) { return bool(b >> (i % 4) & 1); };
        const M m([&](std::size_t i) -> bool { return e(int(i)); });
        int pc = 0, first = -1, last = -1;
        for (int i = 0; i < N; ++i)
          {
            ok = ok and m[i] == e(i) and (!m)[i] == !e(i) and (m && !m)[i] == false and (m || !m)[i] and (m ^ m)[i] == false
              and (m | M(true))[i] and (m & M(true))[i] == e(i) and (m == m)[i] and not (m != m)[i];
            if (e(i))
              {
                ++pc;
                last = i;
                if (first < 0)
                  first = i;
              }
          }
        ok = ok and stdx::popcount(m) == pc and stdx::any_of(m) == (pc > 0) and stdx::all_of(m) == (pc == N) and stdx::none_of(m) == (pc == 0)
          and stdx::some_of(m) == (pc > 0 and pc < N);
        if (pc)
          ok = ok and stdx::find_first_set(m) == first and stdx::find_last_set(m) == last;
        M z = m;
        z ^= M(true); z |= m; z &= m;
        for (int i = 0; i < N; ++i)
          ok = ok and z[i] == e(i);
      }
    return ok;
  }
static_assert(ct<stdx::simd_mask<GT, stdx::simd_abi::scalar>>() and ct<stdx::fixed_size_simd_mask<GT, 1>>() and ct<stdx::fixed_size_simd_mask<GT, 2>>()
              and ct<stdx::fixed_size_simd_mask<GT, 3>>() and ct<stdx::fixed_size_simd_mask<GT, 8>>() and ct<stdx::fixed_size_simd_mask<GT, 32>>());
#endif

// plain bool
static_assert(stdx::all_of(true) and not stdx::all_of(false) and stdx::any_of(true) and not stdx::any_of(false)
              and not stdx::none_of(true) and stdx::none_of(false) and not stdx::some_of(true) and not stdx::some_of(false)
              and stdx::popcount(true) == 1 and stdx::popcount(false) == 0 and stdx::find_first_set(true) == 0 and stdx::find_last_set(true) == 0);
MC_DETECT1(r1, X, stdx::all_of(std::declval<X>()))
MC_DETECT1(r2, X, stdx::popcount(std::declval<X>()))
MC_DETECT1(r3, X, stdx::any_of(std::declval<X>()))
MC_DETECT1(r4, X, stdx::find_first_set(std::declval<X>()))
template <typename X> inline constexpr bool reducible = r1<X> or r2<X> or r3<X> or r4<X>;
static_assert(reducible<bool> and not reducible<int> and not reducible<unsigned>);

int main()
{
  mc::init();
  R<stdx::simd_mask<GT, stdx::simd_abi::scalar>>::all_masks();
  R<stdx::fixed_size_simd_mask<GT, 1>>::all_masks();
  R<stdx::fixed_size_simd_mask<GT, 2>>::all_masks();
  R<stdx::fixed_size_simd_mask<GT, 3>>::all_masks();
  R<stdx::fixed_size_simd_mask<GT, 4>>::all_masks();
  R<stdx::fixed_size_simd_mask<GT, 5>>::all_masks();
  R<stdx::fixed_size_simd_mask<GT, 7>>::all_masks();
  R<stdx::fixed_size_simd_mask<GT, 8>>::all_masks();
  R<stdx::fixed_size_simd_mask<GT, 12>>::all_masks();
  R<stdx::fixed_size_simd_mask<GT, 16>>::all_masks();
  R<stdx::fixed_size_simd_mask<GT, 31>>::all_masks();
  R<stdx::fixed_size_simd_mask<GT, 32>>::all_masks();
#ifdef VIR_DISABLE_STDX_SIMD // there is no upper limit; native_simd<char> has 64 elements with AVX-512
  if constexpr (sizeof(GT) == 1 or sizeof(GT) == 4)
    {
      R<stdx::fixed_size_simd_mask<GT, 33>>::all_masks();
      R<stdx::fixed_size_simd_mask<GT, 64>>::all_masks();
    }
#endif
  conv<1, GT, char>();
  conv<2, GT, double>();
  conv<3, GT, unsigned>();
  conv<8, GT, long>();
  conv<16, GT, short>();
  conv<32, GT, long double>();
  return mc::finish();
}

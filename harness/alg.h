// Shared by the harnesses for the algorithms: element codecs, policies, buffers.
#ifndef VIRMC_ALG_H
#define VIRMC_ALG_H
#include "mc.h"
#include <vir/simd_execution.h>
#include <algorithm>
#include <array>
#include <numeric>
#include <span>
#include <tuple>
#include <vector>

namespace stdx = vir::stdx;
namespace ex = vir::execution;

template <typename T> struct P2 { T x, y; };
template <typename T> struct P3 { T x, y, z; };
template <typename T> struct P4 { T x, y, z, w; };
struct Mixed { float f; double d; short s; };   // vectorized member by member
template <typename T> struct Wrap { P2<T> in; };                 // a struct whose only member is a struct
template <typename T> struct Nest { P2<T> in; short s; };        // a struct next to an arithmetic member
template <typename T> struct Nest3 { short s; P3<T> in; Wrap<float> w; };

// Codec<T>: element number k <-> value, and the elementwise function "bump" in scalar and simd form.
template <typename T>
  struct Codec
  {
    static constexpr long M = sizeof(T) == 1 ? 251 : 30011;
    static constexpr long bias = sizeof(T) == 1 && std::is_signed_v<T> ? 125 : 0;
    static T enc(long k) { return T(k % M - bias); }
    static long dec(T x) { return long(x) + bias; }
    static T bumped(long k) { return T(enc(k) + T(1)); }
    template <typename V> static void bump(V& v) { v = v + T(1); }
    static bool eq(const T& a, const T& b) { return mc::same_value(a, b); }
  };

template <typename T>
  struct Codec<P2<T>>
  {
    static constexpr long M = Codec<T>::M;
    static P2<T> enc(long k) { return {Codec<T>::enc(k), Codec<T>::enc(k + 1)}; }
    static long dec(const P2<T>& p)
    {
      const long k = Codec<T>::dec(p.x);
      return Codec<T>::eq(p.y, Codec<T>::enc(k + 1)) ? k : -1;
    }
    static P2<T> bumped(long k) { return {Codec<T>::bumped(k), Codec<T>::bumped(k + 1)}; }
    template <typename V> static void bump(V& v) { v.x = v.x + T(1); v.y = v.y + T(1); }
    static bool eq(const P2<T>& a, const P2<T>& b) { return Codec<T>::eq(a.x, b.x) && Codec<T>::eq(a.y, b.y); }
  };

template <typename T>
  struct Codec<P3<T>>
  {
    static constexpr long M = Codec<T>::M;
    static P3<T> enc(long k) { return {Codec<T>::enc(k), Codec<T>::enc(k + 1), Codec<T>::enc(k + 3)}; }
    static long dec(const P3<T>& p)
    {
      const long k = Codec<T>::dec(p.x);
      return Codec<T>::eq(p.y, Codec<T>::enc(k + 1)) && Codec<T>::eq(p.z, Codec<T>::enc(k + 3)) ? k : -1;
    }
    static P3<T> bumped(long k) { return {Codec<T>::bumped(k), Codec<T>::bumped(k + 1), Codec<T>::bumped(k + 3)}; }
    template <typename V> static void bump(V& v) { v.x = v.x + T(1); v.y = v.y + T(1); v.z = v.z + T(1); }
    static bool eq(const P3<T>& a, const P3<T>& b)
    { return Codec<T>::eq(a.x, b.x) && Codec<T>::eq(a.y, b.y) && Codec<T>::eq(a.z, b.z); }
  };

template <>
  struct Codec<Mixed>
  {
    static constexpr long M = 30011;
    static Mixed enc(long k) { return {float(k % M), double(k % M + 1), short((k + 3) % M)}; }
    static long dec(const Mixed& p)
    {
      const long k = long(p.f);
      return p.d == k + 1 && p.s == short((k + 3) % M) ? k : -1;
    }
    static Mixed bumped(long k) { return {float(k % M) + 1, double(k % M + 1) + 1, short((k + 3) % M + 1)}; }
    template <typename V> static void bump(V& v)
    {
      using vir::get;
      get<0>(v) = get<0>(v) + 1.f;
      get<1>(v) = get<1>(v) + 1.;
      get<2>(v) = get<2>(v) + short(1);
    }
    static bool eq(const Mixed& a, const Mixed& b) { return a.f == b.f && a.d == b.d && a.s == b.s; }
  };

template <typename T>
  struct Codec<Wrap<T>>
  {
    using C = Codec<P2<T>>;
    static constexpr long M = C::M;
    static Wrap<T> enc(long k) { return {C::enc(k)}; }
    static long dec(const Wrap<T>& p) { return C::dec(p.in); }
    static Wrap<T> bumped(long k) { return {C::bumped(k)}; }
    template <typename V> static void bump(V& v) { C::bump(v.in); }
    static bool eq(const Wrap<T>& a, const Wrap<T>& b) { return C::eq(a.in, b.in); }
  };

template <typename T>
  struct Codec<Nest<T>>
  {
    using C = Codec<P2<T>>;
    using S = Codec<short>;
    static constexpr long M = C::M;
    static Nest<T> enc(long k) { return {C::enc(k), short(k % M + 3)}; }
    static long dec(const Nest<T>& p) { return p.s == C::dec(p.in) + 3 ? C::dec(p.in) : -1; }
    static Nest<T> bumped(long k) { return {C::bumped(k), short(k % M + 4)}; }
    template <typename V> static void bump(V& v)
    {
      using vir::get;
      C::bump(get<0>(v));
      S::bump(get<1>(v));
    }
    static bool eq(const Nest<T>& a, const Nest<T>& b) { return C::eq(a.in, b.in) and a.s == b.s; }
  };

template <typename T>
  struct Codec<Nest3<T>>
  {
    using C = Codec<P3<T>>;
    using W = Codec<Wrap<float>>;
    static constexpr long M = C::M;
    static Nest3<T> enc(long k) { return {short(k % M + 3), C::enc(k), W::enc(k + 2)}; }
    static long dec(const Nest3<T>& p)
    {
      const long k = C::dec(p.in);
      return k >= 0 and p.s == k + 3 and W::eq(p.w, W::enc(k + 2)) ? k : -1;
    }
    static Nest3<T> bumped(long k) { return {short(k % M + 4), C::bumped(k), W::bumped(k + 2)}; }
    template <typename V> static void bump(V& v)
    {
      using vir::get;
      Codec<short>::bump(get<0>(v));
      C::bump(get<1>(v));
      W::bump(get<2>(v));
    }
    static bool eq(const Nest3<T>& a, const Nest3<T>& b) { return a.s == b.s and C::eq(a.in, b.in) and W::eq(a.w, b.w); }
  };

// elements 0 .. n-1 at `off` elements behind a 64-byte boundary, sentinels around
template <typename T>
  struct Buffer
  {
    static constexpr long margin = 128;
    std::vector<char> mem;
    T* base;
    long cap;
    explicit Buffer(long cap_) : mem((cap_ + 2 * margin + 64) * sizeof(T) + 256), cap(cap_ + 64)
    {
      auto a = reinterpret_cast<std::uintptr_t>(mem.data());
      a = (a + margin * sizeof(T) + 63) / 64 * 64;
      base = reinterpret_cast<T*>(a);
    }
    T* at(long off) { return base + off; }
    void fill(long off, long n, long first = 0)
    {
      std::memset(mem.data(), 0x5a, mem.size());
      for (long k = 0; k < n; ++k)
        base[off + k] = Codec<T>::enc(first + k);
    }
    void poison() { std::memset(mem.data(), 0x5a, mem.size()); }
    // everything but [off, off + n) still holds the sentinel
    void untouched_outside(long off, long n, const char* what) const
    {
      const char* lo = reinterpret_cast<const char*>(base + off);
      const char* hi = reinterpret_cast<const char*>(base + off + n);
      for (const char* p = mem.data(); p != mem.data() + mem.size(); ++p)
        if ((p < lo || p >= hi) && *p != 0x5a)
          mc::fail("%s: memory outside the range was written, byte %ld relative to its begin", what, long(p - lo));
    }
  };

template <typename T> constexpr long offsets() { return sizeof(T) >= 64 ? 1 : 64 / long(sizeof(T)); }

// largest simd width the algorithm uses for T under policy P
template <typename T, typename P> constexpr long width()
{
  if constexpr (P::_size > 0) return P::_size;
  else return vir::simdize<T>::size();
}
template <typename P> constexpr long unroll() { return P::_unroll_by > 1 ? P::_unroll_by : 1; }

// name a policy once per instantiation; what it promises is read off its spelling, not off the library's internals
constexpr int number_after(const char* s, const char* key)
{
  for (; *s; ++s)
    {
      const char *a = s, *b = key;
      while (*b and *a == *b)
        ++a, ++b;
      if (not *b)
        {
          int n = 0;
          for (; *a >= '0' and *a <= '9'; ++a)
            n = n * 10 + (*a - '0');
          return n ? n : 1;
        }
    }
  return 0;
}
template <int Size, int Unroll, bool Al, bool Au, bool Ma>
  struct Traits
  {
    static constexpr int _size = Size, _unroll_by = Unroll;
    static constexpr bool _prefers_aligned = Al, _auto_prologue = Au, _assume_matching_size = Ma;
  };
#define POLICY(...)                                                                                                    \
  do {                                                                                                                 \
    mc::context = mc::name_of<VIRMC_T>() + " " #__VA_ARGS__;                                                           \
    run<VIRMC_T>(Traits<number_after(#__VA_ARGS__, "prefer_size<"), number_after(#__VA_ARGS__, "unroll_by<"),          \
                        number_after(#__VA_ARGS__, "prefer_aligned") != 0,                                             \
                        number_after(#__VA_ARGS__, "auto_prologue") != 0,                                              \
                        number_after(#__VA_ARGS__, "assume_matching_size") != 0>(), ex::__VA_ARGS__);                  \
  } while (0)

#ifndef VIRMC_SET
#define VIRMC_SET 0
#endif

// VIRMC_SET selects a slice so that translation units compile in parallel.
#define POLICY_SETS()                                                                              \
  if constexpr (VIRMC_SET == 0) /* core */                                                         \
    {                                                                                              \
      POLICY(simd);                                                                                \
      POLICY(simd.unroll_by<3>());                                                                 \
      POLICY(simd.prefer_aligned());                                                               \
      POLICY(simd.prefer_size<5>());                                                               \
      POLICY(simd.auto_prologue());                                                                \
      POLICY(simd.assume_matching_size());                                                         \
    }                                                                                              \
  else if constexpr (VIRMC_SET == 1)                                                               \
    {                                                                                              \
      POLICY(simd.prefer_size<1>());                                                               \
      POLICY(simd.prefer_size<2>());                                                               \
      POLICY(simd.prefer_size<3>());                                                               \
      POLICY(simd.prefer_size<4>());                                                               \
      POLICY(simd.prefer_size<6>());                                                               \
      POLICY(simd.prefer_size<7>());                                                               \
      POLICY(simd.prefer_size<8>());                                                               \
    }                                                                                              \
  else if constexpr (VIRMC_SET == 2)                                                               \
    {                                                                                              \
      POLICY(simd.prefer_size<12>());                                                              \
      POLICY(simd.prefer_size<16>());                                                              \
      POLICY(simd.prefer_size<24>());                                                              \
      POLICY(simd.prefer_size<31>());                                                              \
      POLICY(simd.prefer_size<32>());                                                              \
    }                                                                                              \
  else if constexpr (VIRMC_SET == 3)                                                               \
    {                                                                                              \
      POLICY(simd.unroll_by<2>());                                                                 \
      POLICY(simd.unroll_by<4>());                                                                 \
      POLICY(simd.unroll_by<5>());                                                                 \
      POLICY(simd.unroll_by<8>());                                                                 \
      POLICY(simd.prefer_size<3>().unroll_by<3>());                                                \
      POLICY(simd.unroll_by<2>().prefer_size<4>());                                                \
    }                                                                                              \
  else if constexpr (VIRMC_SET == 4)                                                               \
    {                                                                                              \
      POLICY(simd.prefer_aligned().unroll_by<2>());                                                \
      POLICY(simd.prefer_size<2>().prefer_aligned());                                              \
      POLICY(simd.prefer_size<4>().prefer_aligned().unroll_by<3>());                               \
      POLICY(simd.prefer_aligned().prefer_size<16>());                                             \
      POLICY(simd.prefer_size<6>().prefer_aligned());                                              \
    }                                                                                              \
  else if constexpr (VIRMC_SET == 5)                                                               \
    {                                                                                              \
      POLICY(simd.auto_prologue().unroll_by<2>());                                                 \
      POLICY(simd.prefer_size<4>().auto_prologue());                                               \
      POLICY(simd.auto_prologue().prefer_size<16>());                                              \
      POLICY(simd.assume_matching_size().unroll_by<2>());                                          \
      POLICY(simd.unroll_by<3>().assume_matching_size().prefer_size<4>());                         \
      POLICY(simd.prefer_size<5>().assume_matching_size());                                        \
    }                                                                                              \
  else if constexpr (VIRMC_SET == 6) /* small core for extra configurations */                     \
    {                                                                                              \
      POLICY(simd);                                                                                \
      POLICY(simd.unroll_by<2>());                                                                 \
      POLICY(simd.prefer_aligned());                                                               \
    }                                                                                              \
  else if constexpr (VIRMC_SET == 7) /* combinations of three */                                   \
    {                                                                                              \
      POLICY(simd.prefer_size<4>().auto_prologue().unroll_by<3>());                                \
      POLICY(simd.auto_prologue().prefer_size<6>());                                               \
      POLICY(simd.unroll_by<7>());                                                                 \
      POLICY(simd.unroll_by<2>().prefer_aligned().prefer_size<3>());                               \
      POLICY(simd.prefer_size<32>().unroll_by<2>());                                               \
    }                                                                                              \
  else if constexpr (VIRMC_SET == 10) /* the core policies one by one */                           \
    POLICY(simd);                                                                                  \
  else if constexpr (VIRMC_SET == 11)                                                              \
    POLICY(simd.unroll_by<3>());                                                                   \
  else if constexpr (VIRMC_SET == 12)                                                              \
    POLICY(simd.prefer_aligned());                                                                 \
  else if constexpr (VIRMC_SET == 13)                                                              \
    POLICY(simd.prefer_size<5>());                                                                 \
  else if constexpr (VIRMC_SET == 14)                                                              \
    POLICY(simd.auto_prologue());                                                                  \
  else if constexpr (VIRMC_SET == 15)                                                              \
    POLICY(simd.assume_matching_size());

// all lengths worth distinguishing under P: 0 .. a bit more than two full unrolled chunks, plus (with auto_prologue)
// the neighbourhood of the length at which the prologue becomes unconditional
template <typename T, typename P, typename F>
  void for_lengths(F&& f)
  {
    const long w = width<T, P>(), u = unroll<P>();
    const long top = std::min(2 * w * u + 2 * w + 3, 400L);
    const long inc = P::_assume_matching_size ? w : 1;
    for (long n = 0; n <= top; n += inc)
      f(n);
    if (P::_auto_prologue)
      for (long n = 4000 / long(sizeof(T)) - w - 1; n <= 4000 / long(sizeof(T)) + w + 1; ++n)
        f(n);
  }
template <typename T, typename P> constexpr long max_length()
{ return std::max(2 * width<T, P>() * unroll<P>() + 2 * width<T, P>() + 3, 4000 / long(sizeof(T)) + width<T, P>() + 2); }
#endif

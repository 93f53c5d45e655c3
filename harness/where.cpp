// C18: where-expressions affect exactly the selected elements.
#include "vals.h"
#include "masks.h"
#include <vir/simd.h>
#ifndef VIRMC_T
#define VIRMC_T int
#endif
#ifndef VIRMC_FULL
#define VIRMC_FULL 8
#endif
namespace stdx = vir::stdx;
using GT = VIRMC_T;
constexpr bool isint = std::is_integral_v<GT>;

template <typename V>
  struct W
  {
    using T = typename V::value_type;
    using M = typename V::mask_type;
    static constexpr int N = V::size();

    static V make(const T* a)
    {
      V v = T();
      for (int i = 0; i < N; ++i)
        v[i] = a[i];
      return v;
    }
    static void same(const char* what, const V& v, const T* w)
    {
      for (int i = 0; i < N; ++i)
        MC_CHECK(mc::same_value<T>(v[i], w[i]), "%s: element %d is %g, expected %g", what, i, mc::num(T(v[i])), mc::num(w[i]));
    }

    // small values: every operator is defined on all selected elements
    static void fill(T* a, T* b, int seed)
    {
      for (int i = 0; i < N; ++i)
        {
          a[i] = T((i * 3 + seed * 5) % 7 + 1);
          b[i] = T((i * 5 + seed) % 3 + 1);
        }
    }

    template <typename Op, typename Ref>
      static void binary(const char* name, std::uint64_t bits, const M& k, Op op, Ref ref, bool trap_lanes)
      {
        using U = std::conditional_t<std::is_same_v<T, float>, int, std::conditional_t<std::is_same_v<T, int>, float, int>>;
        for (int seed = 0; seed < 2; ++seed)
          for (int kind = 0; kind < 6; ++kind)
            {
              T a[N], b[N], w[N];
              fill(a, b, seed);
              if (trap_lanes)       // what the operator must not even be applied to
                for (int i = 0; i < N; ++i)
                  if (not (bits >> i & 1))
                    b[i] = T(0);
              mc::at(name, bits, kind, seed);
              V v = make(a);
              if (kind == 0)
                {
                  const V y = make(b);
                  for (int i = 0; i < N; ++i)
                    w[i] = bits >> i & 1 ? ref(a[i], b[i]) : a[i];
                  op(k, v, y);
                  same("simd operand", v, w);
                  same("the operand", y, b);
                }
              else if (kind == 1)
                {
                  const T s = T(2);
                  for (int i = 0; i < N; ++i)
                    w[i] = bits >> i & 1 ? ref(a[i], s) : a[i];
                  op(k, v, s);
                  same("scalar operand", v, w);
                }
              else if (kind == 2)
                {
                  for (int i = 0; i < N; ++i)
                    w[i] = bits >> i & 1 ? ref(a[i], T(3)) : a[i];
                  op(k, v, 3);
                  same("int operand", v, w);
                }
              else if (kind == 3)
                {
                  // the operand is the object itself
                  for (int i = 0; i < N; ++i)
                    w[i] = bits >> i & 1 ? ref(a[i], a[i]) : a[i];
                  op(k, v, v);
                  same("aliased operand", v, w);
                }
              else if (kind == 5)
                {
                  // the operand is an element of the object
                  for (int e = 0; e < N; e += (N > 8 ? 5 : 1))
                    {
                      mc::at(name, bits, kind, seed, e);
                      if (trap_lanes and a[e] == T(0))
                        continue;
                      for (int i = 0; i < N; ++i)
                        w[i] = bits >> i & 1 ? ref(a[i], a[e]) : a[i];
                      v = make(a);
                      op(k, v, v[e]);
                      same("own element as operand", v, w);
                      if constexpr (std::is_same_v<decltype(v[e]), T&>)
                        {
                          v = make(a);
                          T& r = v[e];
                          op(k, v, r);
                          same("reference to own element as operand", v, w);
                        }
                    }
                }
              else
                {
                  // rvalue operand
                  for (int i = 0; i < N; ++i)
                    w[i] = bits >> i & 1 ? ref(a[i], b[i]) : a[i];
                  op(k, v, make(b));
                  same("rvalue operand", v, w);
                }
              for (int i = 0; i < N; ++i)
                MC_CHECK(bool(k[i]) == bool(bits >> i & 1), "the mask changed");
              mc::step();
              mc::ok();
            }
      }

    static void ops(std::uint64_t bits)
    {
      const M k = mc::make_mask<M>(bits);
#define BIN(o, trap) binary("where " #o, bits, k, [](const M& k, V& v, auto&& y) { stdx::where(k, v) o std::forward<decltype(y)>(y); }, \
                            [](T a, T b) { T r = a; r o b; return r; }, trap)
      BIN(=, false);
      BIN(+=, false);
      BIN(-=, false);
      BIN(*=, false);
      BIN(/=, isint);
      if constexpr (isint)
        {
          BIN(%=, true);
          BIN(&=, false);
          BIN(|=, false);
          BIN(^=, false);
          BIN(<<=, false);
          BIN(>>=, false);
        }
      // increments and decrements, unary minus on extreme values in the lanes that are not selected
      T a[N], b[N], w[N];
      fill(a, b, 1);
      auto un = [&](const char* name, auto op, auto ref) {
        mc::at(name, bits);
        V v = make(a);
        for (int i = 0; i < N; ++i)
          w[i] = bits >> i & 1 ? ref(a[i]) : a[i];
        op(v);
        same(name, v, w);
        mc::step();
        mc::ok();
      };
      un("++where", [&](V& v) { ++stdx::where(k, v); }, [](T x) { return T(x + 1); });
      un("where++", [&](V& v) { stdx::where(k, v)++; }, [](T x) { return T(x + 1); });
      un("--where", [&](V& v) { --stdx::where(k, v); }, [](T x) { return T(x - 1); });
      un("where--", [&](V& v) { stdx::where(k, v)--; }, [](T x) { return T(x - 1); });
      un("-where", [&](V& v) { v = -stdx::where(k, v); }, [](T x) { return T(-x); });
      un("-where const", [&](V& v) { const V c = v; v = -stdx::where(k, c); }, [](T x) { return T(-x); });
      // assignment of every value of the alphabet
      static const auto vals = mc::alphabet<T>();
      for (std::size_t p = 0; p < vals.size(); p += N)
        {
          mc::at("where = values", bits, p);
          V v = T(1), y = T(2);
          for (int i = 0; i < N; ++i)
            {
              a[i] = vals[(p + i) % vals.size()];
              b[i] = vals[(p + i + 7) % vals.size()];
              w[i] = bits >> i & 1 ? b[i] : a[i];
            }
          v = make(a);
          y = make(b);
          stdx::where(k, v) = y;
          same("value", v, w);
          mc::step();
          mc::ok();
        }
    }

    // masked loads and stores
    template <typename U, typename Flags>
      static void memory(std::uint64_t bits, Flags flags, std::size_t align)
      {
        static mc::guarded in(4096), out(4096);
        const M k = mc::make_mask<M>(bits);
        int lo = 0, hi = N - 1;
        if (bits)
          {
            lo = __builtin_ctzll(bits);
            hi = 63 - __builtin_clzll(bits);
          }
        // element lo directly behind the leading guard page; element hi directly before the trailing one; the middle
        for (int pos = 0; pos < 3; ++pos)
          {
            std::ptrdiff_t off;
            const std::ptrdiff_t S = sizeof(U);
            if (pos == 0)
              off = -lo * S;
            else if (pos == 1)
              off = 4096 - (hi + 1) * S;
            else
              off = 2048;
            if (off % std::ptrdiff_t(align) != 0)
              {
                // respect the alignment promise: move towards the inside
                if (pos == 0)
                  off += (align - (off % std::ptrdiff_t(align) + align) % align) % align;
                else
                  off -= (off % std::ptrdiff_t(align) + align) % align;
              }
            if (bits == 0)
              off = pos == 0 ? -4096 : pos == 1 ? 4096 : 2048;   // nothing may be accessed at all
            mc::at("masked memory", bits, pos, sizeof(U));
            U* src = reinterpret_cast<U*>(in.begin() + off);
            in.writable();
            auto ok = [&](U* p) { return reinterpret_cast<char*>(p) >= in.begin() and reinterpret_cast<char*>(p + 1) <= in.end(); };
            for (int i = 0; i < N; ++i)
              if (ok(src + i))
                src[i] = U(100 - i);
            in.readonly();
            T a[N], w[N];
            for (int i = 0; i < N; ++i)
              {
                a[i] = T(i + 1);
                w[i] = bits >> i & 1 ? static_cast<T>(U(100 - i)) : a[i];
              }
            V v = make(a);
            stdx::where(k, v).copy_from(src, flags);
            same("masked copy_from", v, w);
            const V c = make(a);
            const V r = stdx::where(k, c).copy_from(src, flags);
            same("const masked copy_from", r, w);
            same("const object", c, a);
            // stores
            std::memset(out.begin(), 0x5c, 4096);
            U* dst = reinterpret_cast<U*>(out.begin() + off);
            if (pos == 1)
              {
                V nc = make(a);
                stdx::where(k, nc).copy_to(dst, flags);
              }
            else
              stdx::where(k, c).copy_to(dst, flags);
            for (int i = 0; i < N; ++i)
              if (bits >> i & 1)
                {
                  const U u = static_cast<U>(a[i]);
                  MC_CHECK(mc::same_value<U>(dst[i], u), "masked copy_to: element %d is %g", i, mc::num(dst[i]));
                  std::memset(dst + i, 0x5c, sizeof(U));
                }
            for (int i = 0; i < 4096; ++i)
              MC_CHECK(out.begin()[i] == 0x5c, "masked copy_to wrote outside of the selected elements (byte %ld)", long(i - off));
            mc::step(3);
            mc::ok();
          }
      }

    // where(mask, mask)
    static void on_masks()
    {
      const auto pats = mc::mask_patterns(N, 4);
      for (auto bits : pats)
        for (auto x : N > 8 ? std::vector<std::uint64_t>{0, ~0ull, bits, ~bits, bits << 1, 0x6969696996969696} : pats)
          for (auto y : {std::uint64_t(0), ~std::uint64_t(0), x ^ bits, bits, std::uint64_t(0x5555555555555555), std::uint64_t(0x3333333333333333)})
            {
              mc::at("where(mask, mask)", bits, x, y);
              const M k = mc::make_mask<M>(bits), my = mc::make_mask<M>(y);
              auto expect = [&](const char* what, const M& got, std::uint64_t r) {
                for (int i = 0; i < N; ++i)
                  MC_CHECK(bool(got[i]) == bool((bits >> i & 1 ? r : x) >> i & 1), "%s: element %d is %d", what, i, int(bool(got[i])));
                mc::step();
              };
              M m = mc::make_mask<M>(x);
              stdx::where(k, m) = my;
              expect("=", m, y);
              m = mc::make_mask<M>(x);
              stdx::where(k, m) = true;
              expect("= true", m, ~0ull);
              m = mc::make_mask<M>(x);
              stdx::where(k, m) = false;
              expect("= false", m, 0);
              m = mc::make_mask<M>(x);
              stdx::where(k, m) &= my;
              expect("&=", m, x & y);
              m = mc::make_mask<M>(x);
              stdx::where(k, m) |= my;
              expect("|=", m, x | y);
              m = mc::make_mask<M>(x);
              stdx::where(k, m) ^= my;
              expect("^=", m, x ^ y);
              m = mc::make_mask<M>(x);
              stdx::where(m, m) = my;          // mask and object are the same
              for (int i = 0; i < N; ++i)
                MC_CHECK(bool(m[i]) == bool((x & y) >> i & 1), "where(m, m) = y: element %d", i);
              mc::ok();
            }
    }

    static void all()
    {
      mc::context = mc::name_of<V>();
      for (auto bits : mc::mask_patterns(N, VIRMC_FULL))
        {
#if VIRMC_PART == 0
          ops(bits);
#elif VIRMC_PART == 1
          memory<T>(bits, stdx::element_aligned, sizeof(T));
          memory<T>(bits, stdx::vector_aligned, stdx::memory_alignment_v<V, T>);
          memory<short>(bits, stdx::element_aligned, 2);
          memory<double>(bits, stdx::element_aligned, 8);
          memory<unsigned char>(bits, stdx::element_aligned, 1);
          memory<long>(bits, stdx::overaligned<8>, 8);
#endif
        }
#if VIRMC_PART == 1
      on_masks();
#endif
    }
  };

// where(bool, arithmetic)
template <typename T>
  void on_scalars()
  {
    mc::context = mc::name_of<T>();
    for (bool k : {false, true})
      for (T x : mc::few<T>())
        {
          auto one = [&](const char* what, auto op, auto ref) {
            mc::at(what, k, x);
            T v = x, w = x;
            op(v);
            if (k)
              ref(w);
            MC_CHECK(mc::same_value<T>(v, w), "%s gives %g, expected %g", what, mc::num(v), mc::num(w));
            mc::step();
            mc::ok();
          };
          if (x == x and x < T(100) and x > T(-100))
            {
#define SC(o, s) one("scalar " #o, [&](T& v) { stdx::where(k, v) o s; }, [&](T& v) { v o s; })
              SC(=, T(9));
              SC(=, 3);
              SC(+=, T(2));
              SC(-=, T(2));
              SC(*=, T(2));
              SC(/=, T(2));
              if constexpr (std::is_integral_v<T>)
                {
                  SC(%=, T(3));
                  SC(&=, T(6));
                  SC(|=, T(6));
                  SC(^=, T(6));
                  SC(<<=, 1);
                  SC(>>=, 1);
                }
              one("++", [&](T& v) { ++stdx::where(k, v); }, [&](T& v) { ++v; });
              one("post ++", [&](T& v) { stdx::where(k, v)++; }, [&](T& v) { ++v; });
              one("--", [&](T& v) { --stdx::where(k, v); }, [&](T& v) { --v; });
              one("post --", [&](T& v) { stdx::where(k, v)--; }, [&](T& v) { --v; });
              one("-", [&](T& v) { v = -stdx::where(k, v); }, [&](T& v) { v = T(-v); });
              one("- const", [&](T& v) { const T c = v; v = -stdx::where(k, c); }, [&](T& v) { v = T(-v); });
            }
          short mem = 42;
          one("copy_from", [&](T& v) { stdx::where(k, v).copy_from(&mem, stdx::element_aligned); }, [&](T& v) { v = 42; });
          one("const copy_from", [&](T& v) { const T c = v; v = stdx::where(k, c).copy_from(&mem, stdx::element_aligned); }, [&](T& v) { v = 42; });
          double out = 7;
          stdx::where(k, x).copy_to(&out, stdx::element_aligned);
          const double want = k ? double(x) : 7.;
          MC_CHECK(mc::same_value(out, want), "copy_to gives %g", out);
          // nothing is accessed when not selected
          if (not k)
            {
              T v = x;
              stdx::where(k, v).copy_from(static_cast<const short*>(nullptr), stdx::element_aligned);
              const T c = x;
              (void)T(stdx::where(k, c).copy_from(static_cast<const short*>(nullptr), stdx::element_aligned));
              stdx::where(k, c).copy_to(static_cast<short*>(nullptr), stdx::element_aligned);
              MC_CHECK(mc::same_value(v, x), "not selected");
            }
        }
  }

#if defined VIR_DISABLE_STDX_SIMD and VIRMC_PART == 0
template <typename V>
  constexpr bool ct()
  {
    using T = typename V::value_type;
    constexpr int N = V::size();
    bool ok = true;
    for (unsigned bits = 0; bits < (1u << (N < 5 ? N : 5)); ++bits)
      {
        auto sel = [&](int i) { return bool(bits >> (i % 5) & 1); };
        typename V::mask_type k([&](std::size_t i) -> bool { return sel(int(i)); });
        V v([](auto i) { return T(i + 1); });
        T mem[N] = {};
        short src[N] = {};
        for (int i = 0; i < N; ++i)
          src[i] = short(50 + i);
        stdx::where(k, v) += T(3);
        stdx::where(k, v).copy_to(mem, stdx::element_aligned);
        for (int i = 0; i < N; ++i)
          ok = ok and v[i] == T(i + 1 + (sel(i) ? 3 : 0)) and mem[i] == (sel(i) ? v[i] : T(0));
        stdx::where(k, v).copy_from(src, stdx::element_aligned);
        for (int i = 0; i < N; ++i)
          ok = ok and v[i] == T(sel(i) ? 50 + i : i + 1);
        stdx::where(!k, v) = T(9);
        ++stdx::where(k, v);
        const V n = -stdx::where(k, v);
        for (int i = 0; i < N; ++i)
          ok = ok and v[i] == T(sel(i) ? 51 + i : 9) and n[i] == T(sel(i) ? -(51 + i) : 9);
      }
    T s = 1;
    stdx::where(true, s) += T(4);
    stdx::where(false, s) = T(4);
    return ok and s == T(5);
  }
static_assert(ct<stdx::simd<GT, stdx::simd_abi::scalar>>() and ct<stdx::fixed_size_simd<GT, 1>>() and ct<stdx::fixed_size_simd<GT, 3>>()
              and ct<stdx::fixed_size_simd<GT, 8>>() and ct<stdx::fixed_size_simd<GT, 16>>());
#endif

int main()
{
  mc::init();
#if VIRMC_PART == 0
  on_scalars<GT>();
#endif
  W<stdx::simd<GT, stdx::simd_abi::scalar>>::all();
  W<stdx::fixed_size_simd<GT, 1>>::all();
  W<stdx::fixed_size_simd<GT, 2>>::all();
  W<stdx::fixed_size_simd<GT, 3>>::all();
  W<stdx::fixed_size_simd<GT, 4>>::all();
  W<stdx::fixed_size_simd<GT, 7>>::all();
  W<stdx::fixed_size_simd<GT, 8>>::all();
#if VIRMC_FULL > 8
  W<stdx::fixed_size_simd<GT, 12>>::all();
#endif
  W<stdx::fixed_size_simd<GT, 16>>::all();
  W<stdx::fixed_size_simd<GT, 31>>::all();
  W<stdx::fixed_size_simd<GT, 32>>::all();
#ifdef VIR_DISABLE_STDX_SIMD // there is no upper limit; native_simd<char> has 64 elements with AVX-512
  if constexpr (sizeof(GT) == 1 or sizeof(GT) == 4)
    {
      W<stdx::fixed_size_simd<GT, 33>>::all();
      W<stdx::fixed_size_simd<GT, 64>>::all();
    }
#endif
  return mc::finish();
}

// C17: construction, loads, stores, element access.
#include "vals.h"
#include <vir/simd.h>
#ifndef VIRMC_T
#define VIRMC_T float
#endif
namespace stdx = vir::stdx;
using GT = VIRMC_T;

// is static_cast<To>(x) defined?
template <typename To, typename From>
  bool conv_ok(From x)
  {
    if constexpr (std::is_floating_point_v<From> and std::is_integral_v<To>)
      return x == x and x > static_cast<long double>(std::numeric_limits<To>::min()) - 1
               and x < static_cast<long double>(std::numeric_limits<To>::max()) + 1
               and (sizeof(To) < 8 or (x > -9e18L and x < 9e18L and (std::is_signed_v<To> or x > -1)));
    else if constexpr (std::is_floating_point_v<From> and std::is_floating_point_v<To> and sizeof(To) < sizeof(From))
      return x != x or x - x != 0 or (x <= std::numeric_limits<To>::max() and x >= std::numeric_limits<To>::lowest());
    else
      return true;
  }

template <typename To, typename From>
  std::vector<From> usable()
  {
    std::vector<From> r;
    for (From x : mc::alphabet<From>())
      if (conv_ok<To>(x))
        r.push_back(x);
    return r;
  }

template <typename V, typename U>
  struct LS
  {
    using T = typename V::value_type;
    static constexpr int N = V::size();
    template <typename Flags>
      static void go(const char* name, Flags flags, std::size_t align, mc::guarded& in, mc::guarded& out)
      {
        const auto lv = usable<T, U>();
        const auto sv = usable<U, T>();
        // positions: right behind the leading guard page, and flush with the trailing one as far as the alignment allows
        const std::size_t bytes = N * sizeof(U);
        std::vector<char*> pos = {in.begin()};
        {
          char* e = in.end() - bytes;
          e -= reinterpret_cast<std::uintptr_t>(e) % align;
          pos.push_back(e);
          if (align == sizeof(U))
            for (unsigned k = 1; k < 8; ++k)
              pos.push_back(in.begin() + k * sizeof(U));
        }
        for (std::size_t q = 0; q < pos.size(); ++q)
          {
            U* mem = reinterpret_cast<U*>(pos[q]);
            for (std::size_t p = 0; p < lv.size(); p += (q < 2 and sizeof(U) > 1 ? 1 : N))
              {
                mc::at(name, sizeof(U), q, p);
                in.writable();
                for (int i = 0; i < N; ++i)
                  mem[i] = lv[(p + i) % lv.size()];
                in.readonly();
                const V a(mem, flags);
                V b = T(1);
                b.copy_from(mem, flags);
                for (int i = 0; i < N; ++i)
                  {
                    const T w = static_cast<T>(mem[i]);
                    MC_CHECK(mc::same_value<T>(a[i], w), "load constructor: element %d is %g, expected %g", i, mc::num(T(a[i])), mc::num(w));
                    MC_CHECK(mc::same_value<T>(b[i], w), "copy_from: element %d is %g, expected %g", i, mc::num(T(b[i])), mc::num(w));
                  }
                mc::step(2);
                mc::ok();
              }
            // stores: the surrounding bytes keep their pattern
            U* dst = reinterpret_cast<U*>(out.begin() + (pos[q] - in.begin()));
            char* lo = reinterpret_cast<char*>(dst);
            char* hi = lo + bytes;
            for (std::size_t p = 0; p < sv.size(); p += (q < 2 and sizeof(T) > 1 ? 1 : N))
              {
                mc::at("store", sizeof(U), q, p);
                V v = T(1);
                for (int i = 0; i < N; ++i)
                  v[i] = sv[(p + i) % sv.size()];
                char* from = lo - 64 < out.begin() ? out.begin() : lo - 64;
                char* to = hi + 64 > out.end() ? out.end() : hi + 64;
                std::memset(from, 0x5c, to - from);
                const V& cv = v;
                cv.copy_to(dst, flags);
                for (int i = 0; i < N; ++i)
                  {
                    const U w = static_cast<U>(sv[(p + i) % sv.size()]);
                    MC_CHECK(mc::same_value<U>(dst[i], w), "copy_to: element %d is %g, expected %g", i, mc::num(dst[i]), mc::num(w));
                    MC_CHECK(mc::same_value<T>(cv[i], sv[(p + i) % sv.size()]), "copy_to modified its object");
                  }
                for (char* c = from; c < lo; ++c)
                  MC_CHECK(*c == 0x5c, "byte %d before the destination changed", int(lo - c));
                for (char* c = hi; c < to; ++c)
                  MC_CHECK(*c == 0x5c, "byte %d behind the destination changed", int(c - hi));
                mc::step();
                mc::ok();
              }
          }
      }
  };

template <typename V>
  struct Ctor
  {
    using T = typename V::value_type;
    static constexpr int N = V::size();
    template <typename U>
      static void broadcast()
      {
        if constexpr (std::is_convertible_v<U, V>)
          {
            for (U x : usable<T, U>())
              {
                mc::at("broadcast", sizeof(U), x);
                const V v = x;
                V w(x);
                V z = T(1);
                z = x;
                const T want = static_cast<T>(x);
                for (int i = 0; i < N; ++i)
                  MC_CHECK(mc::same_value<T>(v[i], want) and mc::same_value<T>(w[i], want) and mc::same_value<T>(z[i], want),
                           "element %d is %g, expected %g", i, mc::num(T(v[i])), mc::num(want));
                mc::step(3);
                mc::ok();
              }
          }
      }
    static void generators()
    {
      // every element from its own call, the index as constant expression, exactly one call per element
      mc::at("generator calls");
      int calls[N + 1] = {};
      const V v([&](auto i) {
        constexpr int k = i;
        static_assert(k >= 0 and k < N);
        static_assert(decltype(i)::value == k);
        ++calls[k];
        return T(k * 3 + 1);
      });
      for (int i = 0; i < N; ++i)
        {
          MC_CHECK(calls[i] == 1, "the generator was called %d times for element %d", calls[i], i);
          MC_CHECK(v[i] == T(i * 3 + 1), "element %d is %g", i, mc::num(T(v[i])));
        }
      mc::step();
      mc::ok();
      const auto vals = mc::alphabet<T>();
      for (std::size_t p = 0; p < vals.size(); p += sizeof(T) == 1 ? N : 1)
        {
          mc::at("generator values", p);
          const V g([&](int i) { return vals[(p + i) % vals.size()]; });
          V c(g), d = T(1), e = T(2), f = T(3);
          d = c;
          e = std::move(c);
          std::swap(e, f);
          for (int i = 0; i < N; ++i)
            {
              const T w = vals[(p + i) % vals.size()];
              MC_CHECK(mc::same_value<T>(g[i], w) and mc::same_value<T>(d[i], w) and mc::same_value<T>(f[i], w)
                         and e[i] == T(3), "element %d", i);
            }
          mc::step(4);
          mc::ok();
        }
      // a generator returning int or a narrower type converts
      const V gi([](int i) { return i + 1; });
      for (int i = 0; i < N; ++i)
        MC_CHECK(gi[i] == T(i + 1), "int generator: element %d", i);
      // element references alias exactly one element
      for (int i = 0; i < N; ++i)
        {
          mc::at("element", i);
          V x([](int k) { return T(k + 1); });
          auto&& r = x[i];
          r = T(99);
          x[i] += T(1);
          ++x[i];
          x[i]--;
          for (int k = 0; k < N; ++k)
            MC_CHECK(x[k] == T(k == i ? 100 : k + 1), "element %d is %g after writing %d", k, mc::num(T(x[k])), i);
          mc::step(4);
          mc::ok();
        }
    }
    static void all()
    {
      mc::context = mc::name_of<V>();
      generators();
      broadcast<bool>(); broadcast<char>(); broadcast<signed char>(); broadcast<unsigned char>(); broadcast<short>();
      broadcast<unsigned short>(); broadcast<int>(); broadcast<unsigned>(); broadcast<long>(); broadcast<unsigned long>();
      broadcast<long long>(); broadcast<unsigned long long>(); broadcast<float>(); broadcast<double>(); broadcast<long double>();
      static_assert(std::is_convertible_v<T, V> and std::is_convertible_v<int, V>);
    }
  };

template <typename V, typename... Us>
  void loadstore()
  {
    mc::context = mc::name_of<V>();
    static mc::guarded in(3 * 4096), out(3 * 4096);
    (LS<V, Us>::go("load element_aligned", stdx::element_aligned, sizeof(Us) == 16 ? 16 : sizeof(Us), in, out), ...);
    (LS<V, Us>::go("load vector_aligned", stdx::vector_aligned, stdx::memory_alignment_v<V, Us> < 64 ? 64 : stdx::memory_alignment_v<V, Us>, in, out), ...);
    (LS<V, Us>::go("load overaligned", stdx::overaligned<128>, 128, in, out), ...);
  }

template <typename V> void both()
{
#if VIRMC_PART == 0
  Ctor<V>::all();
#elif VIRMC_PART == 1
  loadstore<V, GT, float, double, char, unsigned short>();
#else
  loadstore<V, int, unsigned, long, unsigned long, short, signed char, unsigned char, long double, long long>();
#endif
}

#if defined VIR_DISABLE_STDX_SIMD and VIRMC_PART == 0
template <typename V>
  constexpr bool ct()
  {
    using T = typename V::value_type;
    constexpr int N = V::size();
    short mem[N + 2] = {};
    for (int i = 0; i < N; ++i) mem[i] = short(i + 1);
    V v(mem, stdx::element_aligned), w = 5;
    float out[N + 1] = {};
    out[N] = 77;
    v.copy_to(out, stdx::element_aligned);
    bool ok = out[N] == 77;
    w.copy_from(out, stdx::element_aligned);
    V g([](auto i) { return T(i + 1); });
    for (int i = 0; i < N; ++i)
      ok = ok and v[i] == T(i + 1) and out[i] == float(T(i + 1)) and w[i] == T(i + 1) and g[i] == v[i] and V(3)[i] == T(3);
    w[N - 1] = T(9);
    return ok and w[N - 1] == T(9);
  }
static_assert(ct<stdx::simd<GT, stdx::simd_abi::scalar>>() and ct<stdx::fixed_size_simd<GT, 1>>() and ct<stdx::fixed_size_simd<GT, 3>>()
              and ct<stdx::fixed_size_simd<GT, 8>>() and ct<stdx::fixed_size_simd<GT, 32>>());
#endif

int main()
{
  mc::init();
  both<stdx::simd<GT, stdx::simd_abi::scalar>>();
  both<stdx::fixed_size_simd<GT, 1>>();
  both<stdx::fixed_size_simd<GT, 2>>();
  both<stdx::fixed_size_simd<GT, 3>>();
  both<stdx::fixed_size_simd<GT, 4>>();
  both<stdx::fixed_size_simd<GT, 7>>();
  both<stdx::fixed_size_simd<GT, 8>>();
  both<stdx::fixed_size_simd<GT, 16>>();
  both<stdx::fixed_size_simd<GT, 31>>();
  both<stdx::fixed_size_simd<GT, 32>>();
#ifdef VIR_DISABLE_STDX_SIMD // there is no upper limit; native_simd<char> has 64 elements with AVX-512
  if constexpr (sizeof(GT) == 1 or sizeof(GT) == 4)
    {
      both<stdx::fixed_size_simd<GT, 33>>();
      both<stdx::fixed_size_simd<GT, 64>>();
    }
#endif
  both<stdx::simd<GT>>();
  both<stdx::native_simd<GT>>();
  return mc::finish();
}

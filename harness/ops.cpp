// C16: every operator of simd acts on each element like the scalar operator.
#include "vals.h"
#include <vir/simd.h>
#ifndef VIRMC_T
#define VIRMC_T signed char
#endif
namespace stdx = vir::stdx;
using T = VIRMC_T;
constexpr bool isint = std::is_integral_v<T>;
using P = decltype(+T());                          // promoted type
constexpr int bits = sizeof(P) * 8;

// is the scalar expression defined behaviour?
template <typename Q = P> static bool add_ok(T a, T b) { if constexpr (std::is_integral_v<Q>) { Q r; return not (std::is_signed_v<Q> and __builtin_add_overflow(Q(a), Q(b), &r)); } else return true; }
template <typename Q = P> static bool sub_ok(T a, T b) { if constexpr (std::is_integral_v<Q>) { Q r; return not (std::is_signed_v<Q> and __builtin_sub_overflow(Q(a), Q(b), &r)); } else return true; }
template <typename Q = P> static bool mul_ok(T a, T b) { if constexpr (std::is_integral_v<Q>) { Q r; return not (std::is_signed_v<Q> and __builtin_mul_overflow(Q(a), Q(b), &r)); } else return true; }
static bool div_ok(T a, T b) { if constexpr (isint) return b != 0 and not (std::is_signed_v<P> and P(a) == std::numeric_limits<P>::min() and P(b) == -1); else return true; }
static bool any_ok(T, T) { return true; }
static bool sh_ok(T, T b) { return isint and not (b < 0) and static_cast<unsigned long long>(b) < bits; }
// (wrappers: the functions above are templates only because of the discarded statements)
#define add_ok add_ok<>
#define sub_ok sub_ok<>
#define mul_ok mul_ok<>
static bool neg_ok(T a, T) { return sub_ok(T(0), a); }
static bool inc_ok(T a, T) { return add_ok(a, T(1)); }
static bool dec_ok(T a, T) { return sub_ok(a, T(1)); }

static std::vector<T> vals;
template <typename V>
  struct Run
  {
    using T = typename V::value_type;
    static constexpr int N = V::size();
    using M = typename V::mask_type;

    // walk all pairs; lane i of step p holds pair p*stride+i; pairs with undefined scalar result are replaced by (1, 1)
    template <typename OK, typename F>
      static void walk(const char* name, OK ok, F f, bool every_lane)
      {
        const std::size_t n = vals.size(), np = n * n, stride = every_lane ? 1 : N;
        for (std::size_t p = 0; p < np; p += stride)
          {
            T a[N], b[N];
            for (int i = 0; i < N; ++i)
              {
                const std::size_t q = (p + i) % np;
                a[i] = vals[q / n];
                b[i] = vals[q % n];
                if (not ok(a[i], b[i]))
                  a[i] = b[i] = T(1);
              }
            mc::at(name, p);
            f(a, b);
            mc::step();
            mc::ok();
          }
      }

    // libstdc++: a shift by a reference object is ambiguous (by a value or by a simd)
#ifdef VIR_DISABLE_STDX_SIMD
    template <typename R>
      static decltype(auto) own(R&& r)
      { return std::forward<R>(r); }
#else
    template <typename R>
      static T own(R&& r)
      { return T(r); }
#endif

    static V make(const T* a)
    {
      V v = T();
      for (int i = 0; i < N; ++i)
        v[i] = a[i];
      return v;
    }

    template <typename R, typename W>
      static void cmp(const char* what, const R& r, W want)
      {
        for (int i = 0; i < N; ++i)
          {
            const T got = r[i], w = static_cast<T>(want(i));
            MC_CHECK(mc::same_value<T>(got, w), "%s: element %d of %d is %g, expected %g", what, i, N, mc::num(got), mc::num(w));
          }
      }
    template <typename W>
      static void cmpm(const char* what, const M& r, W want)
      {
        for (int i = 0; i < N; ++i)
          MC_CHECK(bool(r[i]) == bool(want(i)), "%s: element %d of %d is %d", what, i, N, int(bool(r[i])));
      }

    static void all(bool every)
    {
      mc::context = mc::name_of<V>();
      // element access first: everything below relies on it
      {
        mc::at("subscript");
        V v = T();
        for (int i = 0; i < N; ++i)
          {
            v[i] = T(i + 1);
            const V& c = v;
            for (int k = 0; k < N; ++k)
              MC_CHECK(c[k] == T(k <= i ? k + 1 : 0) and T(v[k]) == c[k], "element %d after writing %d", k, i);
          }
        static_assert(std::is_same_v<decltype(std::declval<const V&>()[0]), T>);
        mc::step(); mc::ok();
      }
#define BINARY(name, op, OK)                                                                                         \
      walk(name, OK, [](const T* a, const T* b) {                                                                    \
        const V x = make(a), y = make(b);                                                                            \
        static_assert(std::is_same_v<decltype(x op y), V>);                                                          \
        auto want = [&](int i) { return static_cast<T>(a[i] op b[i]); };                                             \
        cmp("v " #op " v", x op y, want);                                                                            \
        V z = x;                                                                                                     \
        V& ref = (z op##= y);                                                                                        \
        MC_CHECK(&ref == &z, "compound assignment must return the object");                                          \
        cmp("v " #op "= v", z, want);                                                                                \
        cmp("left operand", x, [&](int i) { return a[i]; });                                                         \
        cmp("right operand", y, [&](int i) { return b[i]; });                                                        \
      }, every);                                                                                                     \
      {                                                                                                              \
        const auto few = mc::few<T>();                                                                               \
        for (T s : few)                                                                                              \
          {                                                                                                          \
            std::size_t k = 0;                                                                                       \
            for (std::size_t p = 0; p < vals.size(); p += N)                                                         \
              {                                                                                                      \
                T a[N], b[N];                                                                                        \
                bool ok = true, ok2 = true;                                                                          \
                for (int i = 0; i < N; ++i)                                                                          \
                  {                                                                                                  \
                    a[i] = b[i] = vals[(p + i) % vals.size()];                                                       \
                    if (not OK(a[i], s)) a[i] = T(1);                                                                \
                    if (not OK(s, b[i])) b[i] = T(1);                                                                \
                    ok = ok and OK(a[i], s);                                                                         \
                    ok2 = ok2 and OK(s, b[i]);                                                                       \
                  }                                                                                                  \
                mc::at(name " scalar operand", p, s);                                                                \
                if (ok)                                                                                              \
                  {                                                                                                  \
                    cmp("v " #op " s", V(make(a) op s), [&](int i) { return static_cast<T>(a[i] op s); });           \
                    V z = make(a);                                                                                   \
                    z op##= s;                                                                                       \
                    cmp("v " #op "= s", z, [&](int i) { return static_cast<T>(a[i] op s); });                        \
                  }                                                                                                  \
                if (ok2)                                                                                             \
                  cmp("s " #op " v", s op make(b), [&](int i) { return static_cast<T>(s op b[i]); });                \
                mc::step(); mc::ok(); ++k;                                                                           \
              }                                                                                                      \
          }                                                                                                          \
      }
      BINARY("+", +, add_ok)
      BINARY("-", -, sub_ok)
      BINARY("*", *, mul_ok)
      BINARY("/", /, div_ok)
      if constexpr (isint)
        {
          BINARY("%", %, div_ok)
          BINARY("&", &, any_ok)
          BINARY("|", |, any_ok)
          BINARY("^", ^, any_ok)
          // shifts by a simd
          walk("<< simd", sh_ok, [](const T* a, const T* b) {
            const V x = make(a), y = make(b);
            auto want = [&](int i) { return static_cast<T>(a[i] << b[i]); };
            cmp("v << v", x << y, want);
            V z = x;
            V& ref = (z <<= y);
            MC_CHECK(&ref == &z, "compound assignment must return the object");
            cmp("v <<= v", z, want);
          }, every);
          walk(">> simd", sh_ok, [](const T* a, const T* b) {
            const V x = make(a), y = make(b);
            auto want = [&](int i) { return static_cast<T>(a[i] >> b[i]); };
            cmp("v >> v", x >> y, want);
            V z = x;
            V& ref = (z >>= y);
            MC_CHECK(&ref == &z, "compound assignment must return the object");
            cmp("v >>= v", z, want);
          }, every);
          // shifts by an int
          for (int s = 0; s < bits; ++s)
            for (std::size_t p = 0; p < vals.size(); p += N)
              {
                T a[N];
                for (int i = 0; i < N; ++i)
                  a[i] = vals[(p + i) % vals.size()];
                mc::at("shift by int", p, s);
                volatile int vs = s;
                const V x = make(a);
                cmp("v << int", x << int(vs), [&](int i) { return static_cast<T>(a[i] << s); });
                cmp("v >> int", x >> int(vs), [&](int i) { return static_cast<T>(a[i] >> s); });
                V z = x;
                z <<= s;
                cmp("v <<= int", z, [&](int i) { return static_cast<T>(a[i] << s); });
                z = x;
                z >>= s;
                cmp("v >>= int", z, [&](int i) { return static_cast<T>(a[i] >> s); });
                mc::step(4); mc::ok();
              }
          walk("~", any_ok, [](const T* a, const T*) {
            const V x = make(a);
            static_assert(std::is_same_v<decltype(~x), V>);
            cmp("~v", ~x, [&](int i) { return static_cast<T>(~a[i]); });
          }, every);
        }
      walk("comparisons", any_ok, [](const T* a, const T* b) {
        const V x = make(a), y = make(b);
        static_assert(std::is_same_v<decltype(x < y), M>);
        cmpm("==", x == y, [&](int i) { return a[i] == b[i]; });
        cmpm("!=", x != y, [&](int i) { return a[i] != b[i]; });
        cmpm("<", x < y, [&](int i) { return a[i] < b[i]; });
        cmpm("<=", x <= y, [&](int i) { return a[i] <= b[i]; });
        cmpm(">", x > y, [&](int i) { return a[i] > b[i]; });
        cmpm(">=", x >= y, [&](int i) { return a[i] >= b[i]; });
        cmpm("s <", b[0] < y, [&](int i) { return b[0] < b[i]; });
        cmpm("v >= s", x >= b[0], [&](int i) { return a[i] >= b[0]; });
        cmpm("v == s", x == b[0], [&](int i) { return a[i] == b[0]; });
      }, every);
      walk("unary -", neg_ok, [](const T* a, const T*) {
        const V x = make(a);
        static_assert(std::is_same_v<decltype(-x), V>);
        cmp("-v", -x, [&](int i) { return static_cast<T>(-a[i]); });
      }, every);
      walk("unary + !", any_ok, [](const T* a, const T*) {
        const V x = make(a);
        static_assert(std::is_same_v<decltype(+x), V> and std::is_same_v<decltype(!x), M>);
        cmp("+v", +x, [&](int i) { return a[i]; });
        cmpm("!v", !x, [&](int i) { return !a[i]; });
      }, every);
      walk("++", inc_ok, [](const T* a, const T*) {
        V x = make(a), y = make(a);
        auto inc = [&](int i) { T t = a[i]; ++t; return t; };
        V& ref = ++x;
        MC_CHECK(&ref == &x, "++v must return the object");
        cmp("++v", x, inc);
        cmp("v++ (value)", y++, [&](int i) { return a[i]; });
        cmp("v++ (object)", y, inc);
        static_assert(std::is_same_v<decltype(y++), V>);
      }, every);
      walk("--", dec_ok, [](const T* a, const T*) {
        V x = make(a), y = make(a);
        auto dec = [&](int i) { T t = a[i]; --t; return t; };
        V& ref = --x;
        MC_CHECK(&ref == &x, "--v must return the object");
        cmp("--v", x, dec);
        cmp("v-- (value)", y--, [&](int i) { return a[i]; });
        cmp("v-- (object)", y, dec);
      }, every);
      // operands that are the same object
      walk("aliased operands", any_ok, [](const T* a, const T*) {
        V x = make(a);
        if constexpr (isint)
          {
            x ^= x;
            cmp("v ^= v", x, [&](int) { return T(0); });
            x = make(a);
            x &= x;
            cmp("v &= v", x, [&](int i) { return a[i]; });
          }
        x = make(a);
        cmpm("v == itself", x == x, [&](int i) { return a[i] == a[i]; });
#define SELF(op, OK)                                                                                                 \
        {                                                                                                            \
          T c[N];                                                                                                    \
          for (int i = 0; i < N; ++i)                                                                                \
            c[i] = OK(a[i], a[i]) ? a[i] : T(1);                                                                     \
          x = make(c);                                                                                               \
          cmp("x " #op " x", V(x op x), [&](int i) { return static_cast<T>(c[i] op c[i]); });                        \
          x op##= x;                                                                                                 \
          cmp("x " #op "= x", x, [&](int i) { return static_cast<T>(c[i] op c[i]); });                               \
          for (int e = 0; e < N; e += N > 8 ? 5 : 1)                                                                 \
            {                                                                                                        \
              bool ok = true;                                                                                        \
              for (int i = 0; i < N; ++i)                                                                            \
                ok = ok and OK(c[i], c[e]);                                                                          \
              if (not ok)                                                                                            \
                continue;                                                                                            \
              x = make(c);                                                                                           \
              x op##= static_cast<const V&>(x)[e];                                                                   \
              cmp("x " #op "= value of x[e]", x, [&](int i) { return static_cast<T>(c[i] op c[e]); });               \
              x = make(c);                                                                                           \
              x op##= own(x[e]);                                                                                     \
              cmp("x " #op "= x[e]", x, [&](int i) { return static_cast<T>(c[i] op c[e]); });                        \
              if (OK(c[e], c[N - 1 - e]))                                                                            \
                {                                                                                                    \
                  x = make(c);                                                                                       \
                  x[e] op##= static_cast<const V&>(x)[N - 1 - e];                                                    \
                  cmp("x[e] " #op "= x[f]", x, [&](int i) { return i == e ? static_cast<T>(c[e] op c[N - 1 - e]) : c[i]; }); \
                }                                                                                                    \
            }                                                                                                        \
        }
        SELF(+, add_ok)
        SELF(-, sub_ok)
        SELF(*, mul_ok)
        SELF(/, div_ok)
        if constexpr (isint)
          {
            SELF(%, div_ok)
            SELF(&, any_ok)
            SELF(|, any_ok)
            SELF(^, any_ok)
            SELF(<<, sh_ok)
            SELF(>>, sh_ok)
          }
      }, false);
    }
  };

#if VIRMC_CT && defined VIR_DISABLE_STDX_SIMD
// the same operators in constant evaluation
template <typename V>
  constexpr bool ct()
  {
    using T = typename V::value_type;
    constexpr int N = V::size();
    T a[N] = {}, b[N] = {};
    for (int i = 0; i < N; ++i)
      a[i] = T(i * 3 + 7), b[i] = T(i % 3 + 1);
    V x = V([&](auto i) { return a[i]; }), y = V([&](auto i) { return b[i]; });
    auto same = [&](const V& r, auto f) { for (int i = 0; i < N; ++i) if (r[i] != T(f(i))) return false; return true; };
    bool ok = same(x + y, [&](int i) { return a[i] + b[i]; }) and same(x - y, [&](int i) { return a[i] - b[i]; })
      and same(x * y, [&](int i) { return a[i] * b[i]; }) and same(x / y, [&](int i) { return a[i] / b[i]; })
      and same(-x, [&](int i) { return -a[i]; });
    V z = x;
    z += y; ok = ok and same(z, [&](int i) { return T(a[i] + b[i]); });
    z -= y; ok = ok and same(z, [&](int i) { return a[i]; });
    z *= y; ok = ok and same(z, [&](int i) { return T(a[i] * b[i]); });
    z = x; z /= y; ok = ok and same(z, [&](int i) { return T(a[i] / b[i]); });
    z = x; ++z; ok = ok and same(z, [&](int i) { return a[i] + 1; });
    z--; --z; ok = ok and same(z++, [&](int i) { return a[i] - 1; });
    auto m = x < y;
    for (int i = 0; i < N; ++i)
      ok = ok and m[i] == (a[i] < b[i]) and (x == y)[i] == (a[i] == b[i]) and (x >= y)[i] == (a[i] >= b[i]) and (!x)[i] == !a[i];
    if constexpr (isint)
      {
        ok = ok and same(x % y, [&](int i) { return a[i] % b[i]; }) and same(x & y, [&](int i) { return a[i] & b[i]; })
          and same(x | y, [&](int i) { return a[i] | b[i]; }) and same(x ^ y, [&](int i) { return a[i] ^ b[i]; })
          and same(x << y, [&](int i) { return a[i] << b[i]; }) and same(x >> y, [&](int i) { return a[i] >> b[i]; })
          and same(x << 1, [&](int i) { return a[i] << 1; }) and same(x >> 2, [&](int i) { return a[i] >> 2; })
          and same(~x, [&](int i) { return ~a[i]; });
        z = x; z %= y; ok = ok and same(z, [&](int i) { return a[i] % b[i]; });
        z = x; z <<= y; ok = ok and same(z, [&](int i) { return a[i] << b[i]; });
        z = x; z >>= y; ok = ok and same(z, [&](int i) { return a[i] >> b[i]; });
      }
    return ok;
  }
template <int... Ns> constexpr bool cts = (ct<stdx::fixed_size_simd<T, Ns>>() and ...);
static_assert(cts<1, 2, 3, 4, 5, 7, 8, 16, 31, 32>);
static_assert(ct<stdx::simd<T, stdx::simd_abi::scalar>>());
#endif

int main()
{
  mc::init();
  vals = mc::alphabet<T>();
  const bool small = sizeof(T) != 1;
  (void)small;
#if VIRMC_PART == 0
  Run<stdx::simd<T, stdx::simd_abi::scalar>>::all(false);
  Run<stdx::fixed_size_simd<T, 1>>::all(false);
  Run<stdx::fixed_size_simd<T, 2>>::all(false);
  Run<stdx::fixed_size_simd<T, 3>>::all(small);
#elif VIRMC_PART == 1
  Run<stdx::fixed_size_simd<T, 4>>::all(small);
  Run<stdx::fixed_size_simd<T, 5>>::all(false);
  Run<stdx::fixed_size_simd<T, 7>>::all(false);
  Run<stdx::fixed_size_simd<T, 8>>::all(small);
#elif VIRMC_PART == 2
  Run<stdx::fixed_size_simd<T, 12>>::all(false);
  Run<stdx::fixed_size_simd<T, 16>>::all(false);
  Run<stdx::fixed_size_simd<T, 31>>::all(false);
  Run<stdx::fixed_size_simd<T, 32>>::all(false);
  Run<stdx::simd<T>>::all(false);
#ifdef VIR_DISABLE_STDX_SIMD // there is no upper limit; native_simd<char> has 64 elements with AVX-512
  if constexpr (sizeof(T) == 1 or sizeof(T) == 4)
    {
      Run<stdx::fixed_size_simd<T, 33>>::all(false);
      Run<stdx::fixed_size_simd<T, 64>>::all(false);
    }
#endif
#elif VIRMC_PART == 3 // thorough: all remaining widths
  []<int... Ns>(std::integer_sequence<int, Ns...>) {
    (Run<stdx::fixed_size_simd<T, Ns + 1>>::all(sizeof(T) > 2), ...);
  }(std::make_integer_sequence<int, 32>());
#endif
  return mc::finish();
}

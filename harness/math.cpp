// C23: math functions yield in every element what the std function yields.
#include "vals.h"
#include <algorithm>
#include <cmath>
#include <vir/simd.h>
#ifndef VIRMC_T
#define VIRMC_T float
#endif
namespace stdx = vir::stdx;
using T = VIRMC_T;
constexpr bool fp = std::is_floating_point_v<T>;

static std::vector<T> vals, few;
template <typename A>
  struct R
  {
    using V = stdx::simd<T, A>;
    using M = stdx::simd_mask<T, A>;
    static constexpr int N = V::size();
    static V make(const T* a)
    {
      V v = T();
      for (int i = 0; i < N; ++i)
        v[i] = a[i];
      return v;
    }
    static inline bool zero_sign = true;
    template <typename X, typename F>
      static void expect(const char* what, const X& r, F ref)
      {
        static_assert(X::size() == N);
        using E = typename X::value_type;
        for (int i = 0; i < N; ++i)
          {
            const E w = static_cast<E>(ref(i)), g = r[i];
            MC_CHECK(mc::same_value<E>(g, w) or (not zero_sign and g == w), "%s: element %d of %d is %.9g, expected %.9g", what, i, N, mc::num(g), mc::num(w));
          }
        mc::step();
      }

    template <typename Want, typename F, typename G>
      static void one(const char* name, F f, G g, bool (*ok)(T) = nullptr)
      {
        std::vector<T> in = vals;
        if (ok)
          std::erase_if(in, [&](T x) { return not ok(x); });
        for (std::size_t p = 0; p < in.size(); ++p)
          {
            T a[N];
            for (int i = 0; i < N; ++i)
              a[i] = in[(p + i) % in.size()];
            mc::at(name, p);
            const V x = make(a);
            static_assert(std::is_same_v<decltype(f(x)), Want>);
            expect(name, f(x), [&](int i) { return g(a[i]); });
            expect("argument", x, [&](int i) { return a[i]; });
            mc::ok();
          }
      }

    template <typename Want, typename F, typename G>
      static void two(const char* name, F f, G g)
      {
        const std::size_t n = vals.size(), np = n * n;
        for (std::size_t p = 0; p < np; p += N)
          {
            T a[N], b[N];
            for (int i = 0; i < N; ++i)
              {
                a[i] = vals[(p + i) % np / n];
                b[i] = vals[(p + i) % np % n];
              }
            mc::at(name, p);
            static_assert(std::is_same_v<decltype(f(V(), V())), Want>);
            expect(name, f(make(a), make(b)), [&](int i) { return g(a[i], b[i]); });
            mc::ok();
          }
        // one scalar argument
        for (T s : few)
          for (std::size_t p = 0; p < n; p += N)
            {
              T a[N];
              for (int i = 0; i < N; ++i)
                a[i] = vals[(p + i) % n];
              mc::at(name, p, s);
              static_assert(std::is_same_v<decltype(f(V(), T())), Want> and std::is_same_v<decltype(f(T(), V())), Want>);
              expect("simd, scalar", f(make(a), s), [&](int i) { return g(a[i], s); });
              expect("scalar, simd", f(s, make(a)), [&](int i) { return g(s, a[i]); });
              mc::ok();
            }
        // int arguments broadcast, too
        T a[N];
        for (int i = 0; i < N; ++i)
          a[i] = few[i % few.size()];
        mc::at(name, -1);
        expect("simd, int", f(make(a), 2), [&](int i) { return g(a[i], T(2)); });
        expect("int, simd", f(3, make(a)), [&](int i) { return g(T(3), a[i]); });
        mc::ok();
      }

    template <typename F, typename G>
      static void three(const char* name, F f, G g)
      {
        const std::size_t n = few.size(), np = n * n * n;
        for (std::size_t p = 0; p < np; p += N)
          {
            T a[N], b[N], c[N];
            for (int i = 0; i < N; ++i)
              {
                const std::size_t q = (p + i) % np;
                a[i] = few[q / n / n];
                b[i] = few[q / n % n];
                c[i] = few[q % n];
              }
            mc::at(name, p);
            const V x = make(a), y = make(b), z = make(c);
            static_assert(std::is_same_v<decltype(f(x, y, z)), V>);
            expect("v, v, v", f(x, y, z), [&](int i) { return g(a[i], b[i], c[i]); });
            expect("v, s, v", f(x, b[0], z), [&](int i) { return g(a[i], b[0], c[i]); });
            expect("s, v, v", f(a[0], y, z), [&](int i) { return g(a[0], b[i], c[i]); });
            expect("v, v, s", f(x, y, c[0]), [&](int i) { return g(a[i], b[i], c[0]); });
            expect("v, s, s", f(x, b[0], c[0]), [&](int i) { return g(a[i], b[0], c[0]); });
            expect("s, v, s", f(a[0], y, c[0]), [&](int i) { return g(a[0], b[i], c[0]); });
            expect("s, s, v", f(a[0], b[0], z), [&](int i) { return g(a[0], b[0], c[i]); });
            mc::ok();
          }
      }
    static bool fits_long(T x) { return x == x and x > T(-4e18) and x < T(4e18); }

    template <typename = void> static void floats()
    {
#define F1(fn, X) one<X>(#fn, [](const auto& x) { return stdx::fn(x); }, [](auto x) { return std::fn(x); })
#define F1R(fn, X) one<X>(#fn, [](const auto& x) { return stdx::fn(x); }, [](auto x) { return std::fn(x); }, fits_long)
#define F2(fn, X) two<X>(#fn, [](const auto& x, const auto& y) { return stdx::fn(x, y); }, [](T x, T y) { return std::fn(x, y); })
#define F3(fn) three(#fn, [](const auto& x, const auto& y, const auto& z) { return stdx::fn(x, y, z); }, [](T x, T y, T z) { return std::fn(x, y, z); })
      using I = stdx::fixed_size_simd<int, N>;
      using LI = stdx::fixed_size_simd<long, N>;
      using LL = stdx::fixed_size_simd<long long, N>;
      (void)0;
#if VIRMC_PART == 0
      F1(abs, V);
      F1(isnan, M); F1(isfinite, M); F1(isinf, M); F1(isnormal, M); F1(signbit, M); F1(fpclassify, I);
      F1(sqrt, V); F1(trunc, V); F1(ceil, V); F1(floor, V); F1(round, V); F1(nearbyint, V); F1(rint, V);
      F1R(lround, LI); F1R(llround, LL); F1R(lrint, LI); F1R(llrint, LL);
      F1(ilogb, I); F1(logb, V);
      F2(isgreater, M); F2(isgreaterequal, M); F2(isless, M); F2(islessequal, M); F2(islessgreater, M); F2(isunordered, M);
#elif VIRMC_PART == 1
      F1(erf, V); F1(erfc, V); F1(tgamma, V); F1(lgamma, V);
      F1(sin, V); F1(cos, V); F1(tan, V); F1(asin, V); F1(acos, V); F1(atan, V); F1(sinh, V); F1(cosh, V); F1(tanh, V);
      F1(asinh, V); F1(acosh, V); F1(atanh, V);
      F1(log, V); F1(log10, V); F1(log1p, V); F1(log2, V);
#elif VIRMC_PART == 2
      F2(hypot, V); F2(pow, V); F2(fmod, V); F2(remainder, V); F2(nextafter, V); F2(copysign, V); F2(fdim, V); zero_sign = false; F2(fmax, V); F2(fmin, V); zero_sign = true;   // fmax(-0, +0) may be either
      F2(atan2, V);
      F3(hypot); F3(fma);
#elif VIRMC_PART == 3
      // results through pointers
      const std::size_t n = vals.size(), np = n * n;
      for (std::size_t p = 0; p < n; ++p)
        {
          T a[N];
          for (int i = 0; i < N; ++i)
            a[i] = vals[(p + i) % n];
          const V x = make(a);
          auto inf = [&](int i) { return a[i] != a[i] or a[i] - a[i] != 0; };
          {
            mc::at("modf", p);
            V ip = T(77);
            const V f = stdx::modf(x, &ip);
            expect("modf", f, [&](int i) { T d; return std::modf(a[i], &d); });
            expect("modf integral part", ip, [&](int i) { T d; std::modf(a[i], &d); return d; });
            mc::ok();
          }
          {
            mc::at("frexp", p);
            I e = 77;
            const V f = stdx::frexp(x, &e);
            expect("frexp", f, [&](int i) { int d; return std::frexp(a[i], &d); });
            expect("frexp exponent", e, [&](int i) { int d = 0; std::frexp(a[i], &d); return inf(i) ? int(e[i]) : d; });
            mc::ok();
          }
          for (long e0 : {-(1l << 62), -(1l << 40), -(1l << 32) - 1, -(1l << 32), (1l << 32), (1l << 32) + 1, (1l << 33) - 3, (1l << 40) + 5, (1l << 62)})
            {
              mc::at("scalbln of long exponents", p, e0);
              LI le([&](int i) { return e0 - i; });
              expect("scalbln", stdx::scalbln(x, le), [&](int i) { return std::scalbln(a[i], long(e0 - i)); });
              mc::ok();
            }
          for (int e0 : {-2147483600, -70000, -1100, -149, -3, 0, 1, 2, 10, 127, 1100, 65537, 2147483600})
            {
              mc::at("ldexp/scalbn/scalbln", p, e0);
              I e = 0;
              LI le = 0;
              for (int i = 0; i < N; ++i)
                {
                  e[i] = e0 + i;
                  le[i] = e0 - i;
                }
              expect("ldexp", stdx::ldexp(x, e), [&](int i) { return std::ldexp(a[i], e0 + i); });
              expect("scalbn", stdx::scalbn(x, e), [&](int i) { return std::scalbn(a[i], e0 + i); });
              expect("scalbln", stdx::scalbln(x, le), [&](int i) { return std::scalbln(a[i], long(e0 - i)); });
              mc::ok();
            }
        }
      for (std::size_t p = 0; p < np; p += N)
        {
          T a[N], b[N];
          for (int i = 0; i < N; ++i)
            {
              a[i] = vals[(p + i) % np / n];
              b[i] = vals[(p + i) % np % n];
            }
          mc::at("remquo", p);
          I q = 77;
          const V r = stdx::remquo(make(a), make(b), &q);
          expect("remquo", r, [&](int i) { int d; return std::remquo(a[i], b[i], &d); });
          expect("remquo quotient", q, [&](int i) {
            int d = 77;
            const T rr = std::remquo(a[i], b[i], &d);
            return rr != rr ? int(q[i]) : d;
          });
          mc::ok();
        }
#endif
    }

    static void common()
    {
#if VIRMC_PART == 0
      const std::size_t n = vals.size(), np = n * n;
      for (std::size_t p = 0; p < np; p += N)
        {
          T a[N], b[N];
          for (int i = 0; i < N; ++i)
            {
              a[i] = vals[(p + i) % np / n];
              b[i] = vals[(p + i) % np % n];
            }
          mc::at("min/max/minmax", p);
          const V x = make(a), y = make(b);
          static_assert(std::is_same_v<decltype(stdx::min(x, y)), V> and std::is_same_v<decltype(stdx::minmax(x, y)), std::pair<V, V>>);
          auto eq = [&](const char* what, const V& r, auto ref) {
            for (int i = 0; i < N; ++i)
              {
                const T w = ref(i), g = r[i];
                const bool nan = a[i] != a[i] or b[i] != b[i];     // NaN operands violate the precondition of std::min
                MC_CHECK(nan or g == w, "%s: element %d is %g, expected %g", what, i, mc::num(g), mc::num(w));
              }
            mc::step();
          };
          eq("min", stdx::min(x, y), [&](int i) { return std::min(a[i], b[i]); });
          eq("max", stdx::max(x, y), [&](int i) { return std::max(a[i], b[i]); });
          const auto mm = stdx::minmax(x, y);
          eq("minmax.first", mm.first, [&](int i) { return std::min(a[i], b[i]); });
          eq("minmax.second", mm.second, [&](int i) { return std::max(a[i], b[i]); });
          mc::ok();
        }
      const std::size_t f = few.size(), ft = f * f * f;
      for (std::size_t p = 0; p < ft; p += N)
        {
          T a[N], lo[N], hi[N];
          for (int i = 0; i < N; ++i)
            {
              const std::size_t q = (p + i) % ft;
              a[i] = few[q / f / f];
              lo[i] = few[q / f % f];
              hi[i] = few[q % f];
              if (not (lo[i] <= hi[i]))
                std::swap(lo[i], hi[i]);
              if (not (lo[i] <= hi[i]))
                lo[i] = hi[i] = T(1);
              if (a[i] != a[i])
                a[i] = T(2);
            }
          mc::at("clamp", p);
          expect("clamp", stdx::clamp(make(a), make(lo), make(hi)), [&](int i) { return std::clamp(a[i], lo[i], hi[i]); });
          mc::ok();
        }
      if constexpr (not fp and std::is_signed_v<T>)
        for (std::size_t p = 0; p < n; ++p)
          {
            T a[N];
            for (int i = 0; i < N; ++i)
              {
                a[i] = vals[(p + i) % n];
                if (a[i] == std::numeric_limits<T>::min())
                  a[i] = T(-3);
              }
            mc::at("abs", p);
            expect("abs", stdx::abs(make(a)), [&](int i) { return T(a[i] < 0 ? -a[i] : a[i]); });
            mc::ok();
          }
#endif
    }

    static void all()
    {
      mc::context = mc::name_of<V>();
      common();
      if constexpr (fp)
        floats<>();
    }
  };

int main()
{
  mc::init();
  vals = mc::alphabet<T>();
  few = mc::few<T>();
  R<stdx::simd_abi::scalar>::all();
  R<stdx::simd_abi::fixed_size<1>>::all();
  R<stdx::simd_abi::fixed_size<3>>::all();
  R<stdx::simd_abi::fixed_size<8>>::all();
#if VIRMC_WIDE
  R<stdx::simd_abi::fixed_size<2>>::all();
  R<stdx::simd_abi::fixed_size<4>>::all();
  R<stdx::simd_abi::fixed_size<16>>::all();
  R<stdx::simd_abi::fixed_size<31>>::all();
  R<stdx::simd_abi::fixed_size<32>>::all();
#endif
  return mc::finish();
}

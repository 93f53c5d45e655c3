// C03: reduce / transform_reduce return the generalized sum of init and every (transformed) element, each exactly once.
#include "alg.h"
#include <functional>
#include <ranges>
#ifndef VIRMC_ACC
#define VIRMC_ACC VIRMC_T
#endif
#ifndef VIRMC_T2
#define VIRMC_T2 VIRMC_T
#endif
using Acc = VIRMC_ACC;
#define A Acc

template <typename V>
  auto to_acc(const V& v)
  {
    if constexpr (std::is_arithmetic_v<V>)
      return static_cast<A>(v);
    else
      return stdx::static_simd_cast<vir::simdize<A, V::size()>>(v);
  }

template <typename X> constexpr bool is_struct = not std::is_arithmetic_v<X>;

template <typename T> long key(long k) { return k % 113 + 1; }
template <typename T> T val(long k)
{
  if constexpr (std::is_arithmetic_v<T>)
    return T(key<T>(k));
  else
    return T{static_cast<decltype(T::x)>(key<T>(k)), static_cast<decltype(T::y)>(key<T>(k + 5))};
}

// transforms, scalar and simd
struct Id { template <typename V> auto operator()(const V& v) const
  { if constexpr (requires { v.x; }) return to_acc(v.x); else return to_acc(v); } };
struct Odd { template <typename V> auto operator()(const V& v) const
  { auto a = Id()(v); return decltype(a)(a * A(2) + A(1)); } };
struct Prod { template <typename V, typename W> auto operator()(const V& v, const W& w) const
  { auto a = Id()(v); auto b = Id()(w); return decltype(a)(a * b + a); } };
struct Min { template <typename V> V operator()(const V& a, const V& b) const { using std::min; return min(a, b); } };
struct Max { template <typename V> V operator()(const V& a, const V& b) const { using std::max; return max(a, b); } };

#undef A
template <typename T, typename P, typename Policy>
  void run(P, Policy pol)
  {
    using A = std::conditional_t<sizeof(P) != 0, Acc, void>;
    using T2 = std::conditional_t<sizeof(P) != 0, VIRMC_T2, void>;
    // every overload forwards to the same implementation: all of them only with few policies
    constexpr bool all = P::_size == 0 and not P::_auto_prologue and not P::_assume_matching_size
                           and not P::_prefers_aligned and P::_unroll_by <= 3;
    constexpr long w = std::max(width<T, P>(), P::_size > 0 ? 0 : width<T2, P>());
    const long lim = std::min(3 * w * unroll<P>() + 2 * w + 3, 600L);
    const long top = std::max(lim, 4000 / long(sizeof(T)) + w + 2) + 64;
    Buffer<T> a(top);
    Buffer<T2> b(top);
    auto lengths = [&](auto&& f) {
      for (long n = 0; n <= lim; n += P::_assume_matching_size ? w : 1)
        f(n);
      if (P::_auto_prologue)
        for (long n = 4000 / long(sizeof(T)) - w - 1; n <= 4000 / long(sizeof(T)) + w + 1; ++n)
          f(n);
    };
    auto same = [](const char* what, A got, A want) {
      MC_CHECK(mc::same_value(got, want), "%s: got %.17g, expected %.17g", what, mc::num(got), mc::num(want));
    };
    lengths([&](long n) {
      for (long off = 0; off < offsets<T>(); ++off)
        {
          const long o2 = (off * 5 + n) % offsets<T2>();
          a.poison();
          b.poison();
          T* pm = a.at(off);
          T2* qm = b.at(o2);
          for (long k = 0; k < n; ++k)
            pm[k] = val<T>(k), qm[k] = val<T2>(k * 7 + 3);
          const T* p = pm;
          const T2* q = qm;
          std::ranges::subrange<const T*> s1(p, p + n);
          std::ranges::subrange<const T2*> s2(q, q + n);

          mc::at("unary n,off", n, off);
          A want = A(41);
          for (long k = 0; k < n; ++k) want = A(want + A(Odd()(p[k])));
          mc::step(n);
          same("unary", vir::transform_reduce(pol, p, p + n, A(41), std::plus<>(), Odd()), want);
          mc::ok();

          mc::at("binary n,off", n, off);
          want = A(17);
          for (long k = 0; k < n; ++k) want = A(want + A(Prod()(p[k], q[k])));
          mc::step(n);
          same("binary", vir::transform_reduce(pol, p, p + n, q, A(17), std::plus<>(), Prod()), want);
          mc::ok();

          if ((n + off) % 3 == 0 or off == 0)
            {
              mc::at("unary min/max n,off", n, off);
              A lo = A(60), hi = A(50);
              for (long k = 0; k < n; ++k)
                lo = Min()(lo, A(Id()(p[k]))), hi = Max()(hi, A(Id()(p[k])));
              same("min", vir::transform_reduce(pol, p, p + n, A(60), Min(), Id()), lo);
              same("max", vir::transform_reduce(pol, p, p + n, A(50), Max(), Id()), hi);
              mc::step(2 * n);
              mc::ok();
              if constexpr (std::is_integral_v<A>)
                {
                  mc::at("xor, multiplies n,off", n, off);
                  A x = A(0x55), m = A(3);
                  for (long k = 0; k < n; ++k)
                    x = A(x ^ A(Id()(p[k]))), m = A(std::make_unsigned_t<A>(m) * std::make_unsigned_t<A>(Odd()(p[k])));
                  same("xor", vir::transform_reduce(pol, s1, A(0x55), std::bit_xor<>(), Id()), x);
                  if constexpr ((std::is_unsigned_v<A> or sizeof(A) < sizeof(int)) and all)
                    same("multiplies", vir::transform_reduce(pol, s1, A(3), std::multiplies<>(), Odd()), m);
                  mc::step(2 * n);
                  mc::ok();
                }
              mc::at("overloads n,off", n, off);
              want = A(41);
              for (long k = 0; k < n; ++k) want = A(want + A(Odd()(p[k])));
              same("std unary", std::transform_reduce(pol, p, p + n, A(41), std::plus<>(), Odd()), want);
              same("range unary", vir::transform_reduce(pol, s1, A(41), std::plus<>(), Odd()), want);
              want = A(17);
              for (long k = 0; k < n; ++k) want = A(want + A(Prod()(p[k], q[k])));
              same("std binary", std::transform_reduce(pol, p, p + n, q, A(17), std::plus<>(), Prod()), want);
              same("range binary", vir::transform_reduce(pol, s1, s2, A(17), std::plus<>(), Prod()), want);
              mc::step(4 * n);
              mc::ok();
              if constexpr (std::is_same_v<A, T> and all)
                {
                  mc::at("reduce overloads n,off", n, off);
                  A sum = A(0), lo2 = A(60);
                  for (long k = 0; k < n; ++k)
                    sum = A(sum + p[k]), lo2 = Min()(lo2, A(p[k]));
                  same("reduce", vir::reduce(pol, p, p + n), sum);
                  same("reduce init", vir::reduce(pol, p, p + n, A(9)), A(sum + A(9)));
                  same("reduce init op", vir::reduce(pol, p, p + n, A(60), Min()), lo2);
                  same("reduce range", vir::reduce(pol, s1), sum);
                  same("reduce range init", vir::reduce(pol, s1, A(9)), A(sum + A(9)));
                  same("reduce range init op", vir::reduce(pol, s1, A(60), Min()), lo2);
                  same("std::reduce", std::reduce(pol, p, p + n), sum);
                  same("std::reduce init", std::reduce(pol, p, p + n, A(9)), A(sum + A(9)));
                  same("std::reduce init op", std::reduce(pol, p, p + n, A(60), Min()), lo2);
                  mc::step(9 * n);
                  mc::ok();
                  if constexpr (std::is_same_v<T2, T>)
                    {
                      mc::at("inner product n,off", n, off);
                      A ip = A(5);
                      for (long k = 0; k < n; ++k)
                        ip = A(ip + A(p[k] * q[k]));
                      same("inner product", vir::transform_reduce(pol, p, p + n, q, A(5)), ip);
                      same("std inner product", std::transform_reduce(pol, p, p + n, q, A(5)), ip);
                      same("range inner product", vir::transform_reduce(pol, s1, s2, A(5)), ip);
                      mc::step(3 * n);
                      mc::ok();
                    }
                }
            }
        }
    });
  }

int main()
{
  mc::init();
  POLICY_SETS();
  return mc::finish();
}

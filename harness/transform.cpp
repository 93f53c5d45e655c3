// C02: transform stores op(inputs) of every element to the corresponding output element, returns the iterator behind
// the last one and writes nothing else.
#include "alg.h"
#include <ranges>
#if __cpp_lib_ranges_zip >= 202110L
#define HAVE_ZIP 1
#endif
#ifndef VIRMC_OUT
#define VIRMC_OUT VIRMC_T
#endif
#ifndef VIRMC_T2
#define VIRMC_T2 VIRMC_T
#endif

// elementwise functions on arithmetic types, written once for scalars and simds of equal width
template <typename O, typename V>
  auto to(const V& v)
  {
    if constexpr (std::is_arithmetic_v<V>)
      return static_cast<O>(v);
    else
      return stdx::static_simd_cast<vir::simdize<O, V::size()>>(v);
  }

template <typename O>
  constexpr auto un = [](const auto& v) { auto r = to<O>(v); return decltype(r)(r + O(1)); };
template <typename O>
  constexpr auto bin = [](const auto& a, const auto& b) {
    auto x = to<O>(a); auto y = to<O>(b); return decltype(x)(x - y);
  };
template <typename O>
  constexpr auto tri = [](const auto& a, const auto& b, const auto& c) {
    auto x = to<O>(a); auto y = to<O>(b); auto z = to<O>(c); return decltype(x)(x - y + (z - x));
  };

template <typename T>
  long small(T, long k) { return k; }

template <typename T, typename P, typename Policy>
  void run(P, Policy pol)
  {
    using O = VIRMC_OUT;
    using T2 = VIRMC_T2;
    const long top = max_length<O, P>() + max_length<T, P>();
    Buffer<T> a(top);
    Buffer<T2> b(top);
    Buffer<O> out(top);
    std::vector<O> want(top);
    constexpr long w = std::max(width<T, P>(), P::_size > 0 ? 0 : width<T2, P>());
    const long lim = std::min(2 * w * unroll<P>() + 2 * w + 3, 400L);
    auto lengths = [&](auto&& f) {
      for (long n = 0; n <= lim; n += P::_assume_matching_size ? w : 1)
        f(n);
      if (P::_auto_prologue)
        for (long n = 4000 / long(sizeof(O)) - w - 1; n <= 4000 / long(sizeof(O)) + w + 1; ++n)
          f(n);
    };
    auto same = [&](const O* d, long n, const char* what) {
      for (long k = 0; k < n; ++k)
        MC_CHECK(mc::same_value(d[k], want[k]), "%s: output %ld of %ld is %g, expected %g", what, k, n, mc::num(d[k]),
                 mc::num(want[k]));
    };
    lengths([&](long n) {
      for (long off = 0; off < offsets<O>(); ++off)
        {
          const long o1 = (off * 3 + n) % offsets<T>(), o2 = (off * 5 + 1) % offsets<T2>();
          a.fill(o1, n);
          b.fill(o2, n, 7);
          const T* p = a.at(o1);
          const T2* q = b.at(o2);
          O* d = out.at(off);

          mc::at("unary n,off", n, off);
          out.poison();
          std::transform(p, p + n, want.begin(), [](T x) { return O(un<O>(x)); });
          mc::step(n);
          O* r = vir::transform(pol, p, p + n, d, un<O>);
          MC_CHECK(r == d + n, "returned iterator is off by %ld", long(r - (d + n)));
          same(d, n, "unary");
          out.untouched_outside(off, n, "unary");
          mc::ok();

          mc::at("binary n,off", n, off);
          out.poison();
          std::transform(p, p + n, q, want.begin(), [](T x, T2 y) { return O(bin<O>(x, y)); });
          mc::step(n);
          r = vir::transform(pol, p, p + n, q, d, bin<O>);
          MC_CHECK(r == d + n, "returned iterator is off by %ld", long(r - (d + n)));
          same(d, n, "binary");
          out.untouched_outside(off, n, "binary");
          mc::ok();

          if (off % 5 == n % 5)
            {
              mc::at("std:: overloads n,off", n, off);
              out.poison();
              r = std::transform(pol, p, p + n, q, d, bin<O>);
              MC_CHECK(r == d + n, "returned iterator is off by %ld", long(r - (d + n)));
              same(d, n, "std binary");
              out.untouched_outside(off, n, "std binary");
              std::transform(p, p + n, want.begin(), [](T x) { return O(un<O>(x)); });
              out.poison();
              r = std::transform(pol, p, p + n, d, un<O>);
              MC_CHECK(r == d + n, "returned iterator is off by %ld", long(r - (d + n)));
              same(d, n, "std unary");
              mc::step(2 * n);
              mc::ok();

              mc::at("range overloads n,off", n, off);
              std::span<const T> s1(p, n);
              std::span<const T2> s2(q, n);
              std::span<O> sd(d, n);
              out.poison();
              auto it = vir::transform(pol, s1, sd, un<O>);
              MC_CHECK(it == sd.end(), "returned iterator is not the end of the output");
              same(d, n, "range unary");
              out.untouched_outside(off, n, "range unary");
              std::transform(p, p + n, q, want.begin(), [](T x, T2 y) { return O(bin<O>(x, y)); });
              out.poison();
              it = vir::transform(pol, s1, s2, sd, bin<O>);
              MC_CHECK(it == sd.end(), "returned iterator is not the end of the output");
              same(d, n, "range binary");
              out.untouched_outside(off, n, "range binary");
              mc::step(2 * n);
              mc::ok();
#if HAVE_ZIP
              if (n > 0)
                {
                  mc::at("zip n,off", n, off);
                  out.poison();
                  it = vir::transform(pol, std::views::zip(s1, s2), sd, [](const auto& t) {
                    return bin<O>(std::get<0>(t), std::get<1>(t));
                  });
                  MC_CHECK(it == sd.end(), "returned iterator is not the end of the output");
                  same(d, n, "zip2");
                  out.untouched_outside(off, n, "zip2");
                  for (long k = 0; k < n; ++k)
                    want[k] = O(tri<O>(p[k], q[k], p[n - 1 - k]));
                  std::vector<T> rev(p, p + n);
                  std::reverse(rev.begin(), rev.end());
                  out.poison();
                  // the shortest range determines the length
                  std::vector<T> longer(rev);
                  longer.resize(n + 3);
                  it = vir::transform(pol, std::views::zip(s1, s2, longer), sd, [](const auto& t) {
                    return tri<O>(std::get<0>(t), std::get<1>(t), std::get<2>(t));
                  });
                  MC_CHECK(it == sd.end(), "returned iterator is not the end of the output");
                  same(d, n, "zip3");
                  // a single range, and more than three
                  out.poison();
                  it = vir::transform(pol, std::views::zip(s1), sd, [](const auto& t) { return un<O>(std::get<0>(t)); });
                  MC_CHECK(it == sd.end(), "returned iterator is not the end of the output");
                  std::transform(p, p + n, want.begin(), [](T x) { return O(un<O>(x)); });
                  same(d, n, "zip1");
                  out.untouched_outside(off, n, "zip1");
                  out.poison();
                  it = vir::transform(pol, std::views::zip(rev, s2, s1, longer), sd, [](const auto& t) {
                    return tri<O>(std::get<3>(t), std::get<1>(t), std::get<2>(t));
                  });
                  MC_CHECK(it == sd.end(), "returned iterator is not the end of the output");
                  for (long k = 0; k < n; ++k)
                    want[k] = O(tri<O>(rev[k], q[k], p[k]));
                  same(d, n, "zip4");
                  out.untouched_outside(off, n, "zip3");
                  mc::step(2 * n);
                  mc::ok();
                }
#endif
            }
          if constexpr (std::is_same_v<T, O>)
            {
              mc::at("in place n,off", n, off);
              out.fill(off, n);
              std::transform(d, d + n, want.begin(), [](T x) { return O(un<O>(x)); });
              mc::step(n);
              r = vir::transform(pol, d, d + n, d, un<O>);
              MC_CHECK(r == d + n, "returned iterator is off by %ld", long(r - (d + n)));
              same(d, n, "in place");
              out.untouched_outside(off, n, "in place");
              mc::ok();
            }
        }
    });
  }

int main()
{
  mc::init();
  POLICY_SETS();
  return mc::finish();
}

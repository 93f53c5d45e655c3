// C07: every algorithm gives the same result in constant evaluation as at run time (and as the scalar model).
#include "alg.h"
#include <functional>
#include <ranges>
#ifndef VIRMC_MAXN
#define VIRMC_MAXN 13
#endif

constexpr long MAXN = VIRMC_MAXN;
template <typename T>
  constexpr std::array<T, MAXN + 1> input(int seed, long N)
  {
    std::array<T, MAXN + 1> a{};
    for (long k = 0; k < N; ++k)
      a[k] = T((k * 7 + seed) % 31 + 1);
    return a;
  }

template <typename T>
  struct Out
  {
    std::array<T, MAXN + 2> each{}, un{}, bin{};
    long un_end = -1, bin_end = -1, count = -1, calls = 0, lanes = 0;
    T sum{}, red{}, ip{}, lo{};
    constexpr bool operator==(const Out& o) const
    {
      return each == o.each and un == o.un and bin == o.bin and un_end == o.un_end and bin_end == o.bin_end
               and count == o.count and lanes == o.lanes and sum == o.sum and red == o.red and ip == o.ip and lo == o.lo;
    }
  };

struct Min { template <typename V> constexpr V operator()(const V& a, const V& b) const { using std::min; return min(a, b); } };

template <typename T, typename Policy>
  constexpr Out<T> all(Policy pol, long N)
  {
    Out<T> r;
    const auto a = input<T>(3, N), b = input<T>(11, N);
    const T* p = a.data();
    const T* q = b.data();
    r.each = {};
    for (long k = 0; k < N; ++k)
      r.each[k] = a[k];
    r.each[N] = r.each[N + 1] = r.un[N] = r.un[N + 1] = r.bin[N] = r.bin[N + 1] = T(99);
    vir::for_each(pol, r.each.data(), r.each.data() + N, [&](auto&... v) {
      ((v = v + T(1), r.lanes += v.size()), ...);
      ++r.calls;
    });
    r.un_end = vir::transform(pol, p, p + N, r.un.data(), [](const auto& v) { return v + v; }) - r.un.data();
    r.bin_end = vir::transform(pol, p, p + N, q, r.bin.data(), [](const auto& v, const auto& u) { return v - u; })
                  - r.bin.data();
    r.sum = vir::reduce(pol, p, p + N);
    r.red = vir::reduce(pol, p, p + N, T(5));
    r.lo = vir::transform_reduce(pol, p, p + N, T(20), Min(), [](const auto& v) { return v + T(1); });
    r.ip = vir::transform_reduce(pol, p, p + N, q, T(2));
    r.count = vir::count_if(pol, p, p + N, [](const auto& v) { return v > T(9); });
    return r;
  }

template <typename T>
  Out<T> model(long N)
  {
    Out<T> r;
    const auto a = input<T>(3, N), b = input<T>(11, N);
    r.each[N] = r.each[N + 1] = r.un[N] = r.un[N + 1] = r.bin[N] = r.bin[N + 1] = T(99);
    r.sum = 0; r.red = 5; r.lo = 20; r.ip = 2; r.count = 0;
    for (long k = 0; k < N; ++k)
      {
        r.each[k] = T(a[k] + 1);
        r.un[k] = T(a[k] + a[k]);
        r.bin[k] = T(a[k] - b[k]);
        r.sum = T(r.sum + a[k]);
        r.red = T(r.red + a[k]);
        r.lo = std::min(r.lo, T(a[k] + 1));
        r.ip = T(r.ip + T(a[k] * b[k]));
        r.count += a[k] > 9;
      }
    r.un_end = r.bin_end = r.lanes = N;
    return r;
  }

template <typename T, long N, typename Policy>
  void one(Policy pol)
  {
    mc::at("n", N);
    constexpr Out<T> ct = all<T>(Policy(), N);
    const Out<T> rt = all<T>(pol, N), want = model<T>(N);
    auto diff = [](const char* which, const Out<T>& g, const Out<T>& w) {
      MC_CHECK(g.lanes == w.lanes, "%s: for_each passed %ld lanes", which, g.lanes);
      for (long k = 0; k < N + 2; ++k)
        {
          MC_CHECK(g.each[k] == w.each[k], "%s: for_each: element %ld is %g, expected %g", which, k, mc::num(g.each[k]), mc::num(w.each[k]));
          MC_CHECK(g.un[k] == w.un[k], "%s: transform: element %ld", which, k);
          MC_CHECK(g.bin[k] == w.bin[k], "%s: binary transform: element %ld", which, k);
        }
      MC_CHECK(g.un_end == w.un_end and g.bin_end == w.bin_end, "%s: iterator returned by transform", which);
      MC_CHECK(g.sum == w.sum and g.red == w.red, "%s: reduce", which);
      MC_CHECK(g.lo == w.lo and g.ip == w.ip, "%s: transform_reduce", which);
      MC_CHECK(g.count == w.count, "%s: count_if returned %ld instead of %ld", which, g.count, w.count);
      MC_CHECK(g == w, "%s", which);
    };
    diff("constant evaluation", ct, want);
    diff("run time", rt, want);
    mc::step(2 * 8);
    mc::ok();
  }

template <typename T, typename P, typename Policy>
  void run(P, Policy pol)
  {
    constexpr long w = width<T, P>();
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
      ([&] {
        if constexpr (not P::_assume_matching_size)
          one<T, Is>(pol);
        else if constexpr (Is % w == 0)
          one<T, Is>(pol);
      }(), ...);
    }(std::make_index_sequence<VIRMC_MAXN + 1>());
  }

int main()
{
  mc::init();
  POLICY_SETS();
  return mc::finish();
}

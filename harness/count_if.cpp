// C04: count_if returns the number of elements satisfying the predicate.
#include "alg.h"
#include <ranges>

template <typename T, typename P, typename Policy>
  void run(P, Policy pol)
  {
    constexpr long w = width<T, P>();
    constexpr long step = P::_assume_matching_size ? w : 1;
    const long lim = std::min(2 * w * unroll<P>() + 2 * w + 3, 400L);
    Buffer<T> buf(std::max(lim, 4000 / long(sizeof(T)) + w + 2) + 64);
    auto set = [](T& x, bool on) {
      if constexpr (std::is_arithmetic_v<T>)
        x = on ? T(7) : T(2);
      else
        x.x = on ? 7 : 2, x.y = 3;
    };
    auto pred = [](auto const& v) {
      if constexpr (std::is_arithmetic_v<T>)
        return v == T(7);
      else
        return v.x == decltype(T::x)(7);
    };
    auto go = [&](T* p, long n, long want) {
      const T* c = p;
      int got = vir::count_if(pol, c, c + n, pred);
      MC_CHECK(got == want, "count_if returned %d, %ld elements match", got, want);
      mc::step(n);
      mc::ok();
    };
    // every pattern of a short range: exercises every epilogue / prologue path with every outcome
    for (long n = 0; n <= 11; n += step)
      for (long off = 0; off < offsets<T>(); off += n > 8 ? 3 : 1)
        {
          buf.poison();
          for (long bits = 0; bits < (1L << n); ++bits)
            {
              for (long k = 0; k < n; ++k)
                set(buf.at(off)[k], bits >> k & 1);
              mc::at("pattern n,off,bits", n, off, bits);
              go(buf.at(off), n, __builtin_popcountl(bits));
            }
        }
    auto around = [&](long n, long off) {
      T* p = buf.at(off);
      buf.poison();
      for (long inv = 0; inv < 2; ++inv)
        {
          for (long k = 0; k < n; ++k)
            set(p[k], inv);
          mc::at("uniform n,off,inv", n, off, inv);
          go(p, n, inv ? n : 0);
          // exactly one deviating element at every position
          for (long k = 0; k < n; ++k)
            {
              set(p[k], not inv);
              mc::at("one deviating n,off,inv,k", n, off, inv, k);
              go(p, n, inv ? n - 1 : 1);
              set(p[k], inv);
            }
        }
    };
    for (long n = 12 / step * step; n <= lim; n += step)
      for (long off = 0; off < std::min(offsets<T>(), n < 40 ? 64L : 3L); ++off)
        around(n, (off * 7 + n) % offsets<T>());
    if (P::_auto_prologue)
      for (long n = 4000 / long(sizeof(T)) - w - 1; n <= 4000 / long(sizeof(T)) + w + 1; n += 5)
        around(n, n % offsets<T>());
    // other overloads
    for (long n = 0; n <= 2 * w; n += step)
      {
        for (long k = 0; k < n; ++k)
          set(buf.at(1)[k], k % 3 == 0);
        const T* c = buf.at(1);
        const int want = (n + 2) / 3;
        mc::at("overloads n", n);
        MC_CHECK(std::count_if(pol, c, c + n, pred) == want, "std::count_if differs");
        MC_CHECK(vir::count_if(pol, std::span<const T>(c, n), pred) == want, "range count_if differs");
        std::vector<T> vec(c, c + n);
        MC_CHECK(vir::count_if(pol, vec, pred) == want, "count_if over a vector differs");
        mc::step(3 * n);
        mc::ok();
      }
    // long ranges: per-lane counters must not wrap at 2^8 or 2^16
    for (long rounds : {300L, 70000L})
      {
        const long n = rounds * w * unroll<P>() + (P::_assume_matching_size ? 0 : w - 1);
        if (n * long(sizeof(T)) > 100'000'000)
          continue;
        std::vector<T> vec(n);
        for (T& x : vec)
          set(x, true);
        mc::at("long n", n);
        int got = vir::count_if(pol, vec, pred);
        MC_CHECK(got == n, "count_if over a range of %ld matching elements returned %d", n, got);
        for (long k = 0; k < n; k += 1001)
          set(vec[k], false);
        got = vir::count_if(pol, vec, pred);
        MC_CHECK(got == n - (n + 1000) / 1001, "count_if over a long range returned %d", got);
        mc::step(2 * n);
        mc::ok();
      }
  }

int main()
{
  mc::init();
  POLICY_SETS();
  return mc::finish();
}

// C01: for_each hands every element to the callable exactly once, in lanes that are consecutive elements; an lvalue
// reference parameter is written back to the element it came from, nothing else is written.
#include "alg.h"

template <typename T>
  struct Visits
  {
    std::vector<int> count = std::vector<int>(Codec<T>::M + 1);
    long calls = 0;
    template <typename V>
      void see(const V& v)
      {
        ++calls;
        const long k0 = Codec<T>::dec(v[0]);
        for (long i = 0; i < long(V::size()); ++i)
          {
            const long k = Codec<T>::dec(v[i]);
            MC_CHECK(k >= 0 && k < Codec<T>::M, "lane %ld of a chunk holds a value that is not in the range (%ld)", i, k);
            MC_CHECK(k == (k0 + i) % Codec<T>::M, "lanes of a chunk are not consecutive elements: lane 0 is element %ld,"
                     " lane %ld is element %ld", k0, i, k);
            ++count[k];
          }
      }
    void expect(long n)
    {
      for (long k = 0; k < Codec<T>::M; ++k)
        {
          const long want = n / Codec<T>::M + (k < n % Codec<T>::M);
          MC_CHECK(count[k] == want, "element %ld of %ld was passed %d times", k, n, count[k]);
        }
      mc::step(calls);
    }
    void reset() { std::fill(count.begin(), count.end(), 0); calls = 0; }
  };

template <typename T, typename P, typename Policy>
  void run(P, Policy pol)
  {
    static Visits<T> seen;
    Buffer<T> buf(max_length<T, P>() + 64);
    for_lengths<T, P>([&](long n) {
      for (long off = 0; off < offsets<T>(); ++off)
        {
          T* const b = buf.at(off);
          const T* const cb = b;
          // by value over a const range: reads only
          mc::at("by_value n,off", n, off);
          buf.fill(off, n);
          seen.reset();
          vir::for_each(pol, cb, cb + n, [](auto... v) { (seen.see(v), ...); });
          seen.expect(n);
          mc::ok();
          // by value over a mutable range whose callable modifies its copy: nothing is written
          mc::at("by_value_modify n,off", n, off);
          seen.reset();
          vir::for_each(pol, b, b + n, [](auto... v) { ((seen.see(v), Codec<T>::bump(v)), ...); });
          seen.expect(n);
          for (long k = 0; k < n; ++k)
            MC_CHECK(Codec<T>::eq(b[k], Codec<T>::enc(k)), "element %ld changed by a callable taking copies", k);
          buf.untouched_outside(off, n, "by value");
          mc::ok();
          // by lvalue reference: written back
          mc::at("by_reference n,off", n, off);
          seen.reset();
          vir::for_each(pol, b, b + n, [](auto&... v) { ((seen.see(v), Codec<T>::bump(v)), ...); });
          seen.expect(n);
          for (long k = 0; k < n; ++k)
            MC_CHECK(Codec<T>::eq(b[k], Codec<T>::bumped(k)), "element %ld of %ld does not hold what the callable left", k, n);
          buf.untouched_outside(off, n, "by reference");
          mc::ok();
          if (off == n % offsets<T>())
            {
              // the other ways to spell it
              mc::at("std::for_each n,off", n, off);
              buf.fill(off, n);
              seen.reset();
              std::for_each(pol, b, b + n, [](auto&... v) { ((seen.see(v), Codec<T>::bump(v)), ...); });
              seen.expect(n);
              for (long k = 0; k < n; ++k)
                MC_CHECK(Codec<T>::eq(b[k], Codec<T>::bumped(k)), "element %ld of %ld not written back", k, n);
              mc::ok();
              mc::at("span n,off", n, off);
              buf.fill(off, n);
              seen.reset();
              vir::for_each(pol, std::span<T>(b, n), [](auto&... v) { ((seen.see(v), Codec<T>::bump(v)), ...); });
              seen.expect(n);
              for (long k = 0; k < n; ++k)
                MC_CHECK(Codec<T>::eq(b[k], Codec<T>::bumped(k)), "element %ld of %ld not written back", k, n);
              buf.untouched_outside(off, n, "span");
              mc::ok();
              mc::at("vector, const auto& n", n);
              std::vector<T> vec(cb, cb + n);
              for (long k = 0; k < n; ++k)
                vec[k] = Codec<T>::enc(k);
              seen.reset();
              vir::for_each(pol, std::as_const(vec), [](const auto&... v) { (seen.see(v), ...); });
              seen.expect(n);
              seen.reset();
              vir::for_each(pol, vec.begin(), vec.end(), [](auto&... v) { ((seen.see(v), Codec<T>::bump(v)), ...); });
              seen.expect(n);
              for (long k = 0; k < n; ++k)
                MC_CHECK(Codec<T>::eq(vec[k], Codec<T>::bumped(k)), "element %ld of %ld not written back", k, n);
              mc::ok();
            }
        }
    });
  }

int main()
{
  mc::init();
  POLICY_SETS();
  return mc::finish();
}

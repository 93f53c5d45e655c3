// C29: fault injection at every call of a callable.  The exception must reach the caller unchanged, nothing outside of the range
// may be written, and every element holds either its old value or what the callable left for it; the algorithm works as before
// when it is called again.
#include "alg.h"
#include <functional>

struct Fault { long at; };
struct Injector
{
  long calls = 0, at = -1;
  bool fired = false;
  void operator()()
  {
    if (calls++ == at)
      {
        fired = true;
        throw Fault{at};
      }
  }
};

template <typename T, typename P, typename Policy>
  void run(P, Policy pol)
  {
    const long w = width<T, P>(), u = unroll<P>();
    const long top = w * u + w + 2;
    Buffer<T> a(top + 64), b(top + 64), out(top + 64);
    // body(injector) runs the algorithm, after(bool thrown) checks memory
    auto explore = [&](const char* what, long n, long off, auto&& prepare, auto&& body, auto&& after) {
      Injector in;
      prepare();
      mc::at(what, n, off, -1);
      body(in);
      after(false);
      mc::ok();
      const long m = in.calls;
      for (long k = 0; k < m; ++k)
        {
          mc::at(what, n, off, k);
          Injector f;
          f.at = k;
          prepare();
          bool caught = false;
          try
            { body(f); }
          catch (const Fault& e)
            {
              caught = true;
              MC_CHECK(e.at == k, "another exception arrived (%ld)", e.at);
            }
          catch (...)
            { mc::fail("an exception of another type arrived"); }
          MC_CHECK(f.fired, "call %ld was not made the second time", k);
          MC_CHECK(caught, "the exception thrown in call %ld of %ld did not reach the caller", k, m);
          MC_CHECK(f.calls == k + 1, "the callable was called %ld more times after it had thrown", f.calls - k - 1);
          after(true);
          mc::step(k + 1);
          mc::ok();
        }
    };
    for (long n = 0; n <= top; n += P::_assume_matching_size ? w : 1)
      for (long off = 0; off < offsets<T>(); off += (off == 0 ? 1 : offsets<T>() / 2 + 1))
        {
          T* p = a.at(off);
          T* d = out.at((off * 5 + 1) % offsets<T>());
          const long doff = d - out.at(0);
          auto fill = [&] { a.fill(off, n); b.fill(off, n, 3); out.poison(); };
          auto inplace = [&](bool thrown) {
            for (long k = 0; k < n; ++k)
              MC_CHECK(Codec<T>::eq(p[k], Codec<T>::bumped(k)) or (thrown and Codec<T>::eq(p[k], Codec<T>::enc(k))),
                       "element %ld of %ld is neither unchanged nor what the callable left", k, n);
            a.untouched_outside(off, n, "for_each");
          };
          auto unchanged = [&](bool) {
            for (long k = 0; k < n; ++k)
              MC_CHECK(Codec<T>::eq(p[k], Codec<T>::enc(k)), "element %ld of %ld changed", k, n);
            a.untouched_outside(off, n, "input");
          };
          const T sentinel = *(out.at(0) - 1);
          auto written = [&](bool thrown) {
            if (n == 0)
              return;
            for (long k = 0; k < n; ++k)
              MC_CHECK(Codec<T>::eq(d[k], Codec<T>::bumped(k)) or (thrown and std::memcmp(d + k, &sentinel, sizeof(T)) == 0)
                         or (thrown and sizeof(T) > 8 and not Codec<T>::eq(d[k], d[k])),
                       "output %ld of %ld is neither untouched nor the result", k, n);
            out.untouched_outside(doff, n, "transform");
          };
          explore("for_each, thrown before n,off,call", n, off, fill, [&](Injector& in) {
            vir::for_each(pol, p, p + n, [&](auto&... v) { in(); (Codec<T>::bump(v), ...); });
          }, inplace);
          explore("for_each, thrown after n,off,call", n, off, fill, [&](Injector& in) {
            vir::for_each(pol, p, p + n, [&](auto&... v) { (Codec<T>::bump(v), ...); in(); });
          }, inplace);
          explore("for_each by value n,off,call", n, off, fill, [&](Injector& in) {
            vir::for_each(pol, p, p + n, [&](auto... v) { (Codec<T>::bump(v), ...); in(); });
          }, unchanged);
          explore("transform n,off,call", n, off, fill, [&](Injector& in) {
            vir::transform(pol, p, p + n, d, [&](auto v) { in(); Codec<T>::bump(v); return v; });
          }, written);
          explore("binary transform n,off,call", n, off, fill, [&](Injector& in) {
            vir::transform(pol, p, p + n, b.at(off), d, [&](auto v, const auto&) { in(); Codec<T>::bump(v); return v; });
          }, written);
          if constexpr (std::is_arithmetic_v<T>)
            {
              explore("count_if n,off,call", n, off, fill, [&](Injector& in) {
                const long c = vir::count_if(pol, p, p + n, [&](const auto& v) { in(); return v == v; });
                MC_CHECK(c == n, "count_if returned %ld", c);
              }, unchanged);
              explore("reduce n,off,call", n, off, fill, [&](Injector& in) {
                (void) vir::reduce(pol, p, p + n, T(), [&](const auto& x, const auto& y) { in(); using std::max; return max(x, y); });
              }, unchanged);
              explore("transform_reduce n,off,call", n, off, fill, [&](Injector& in) {
                (void) vir::transform_reduce(pol, p, p + n, T(), [&](const auto& x, const auto& y) { in(); using std::max; return max(x, y); },
                                             [&](const auto& x) { in(); return x; });
              }, unchanged);
              explore("binary transform_reduce n,off,call", n, off, fill, [&](Injector& in) {
                (void) vir::transform_reduce(pol, p, p + n, b.at(off), T(),
                                             [&](const auto& x, const auto& y) { in(); using std::max; return max(x, y); },
                                             [&](const auto& x, const auto& y) { in(); using std::max; return max(x, y); });
              }, unchanged);
            }
        }
  }

#ifdef VIRMC_GENERATORS
// callables of the fallback's simd: generators and reduction operators, a throw at every call
template <typename V>
  void generators()
  {
    using T = typename V::value_type;
    constexpr long N = V::size();
    for (long k = -1; k < N; ++k)
      {
        mc::at("generator width,call", N, k);
        Injector in;
        in.at = k;
        bool caught = false;
        try
          {
            V v([&](auto i) { in(); return T(int(i) % 100); });
            for (long i = 0; i < N; ++i)
              MC_CHECK(v[i] == T(i % 100), "element %ld", i);
          }
        catch (const Fault& e)
          {
            caught = true;
            MC_CHECK(e.at == k, "another exception arrived (%ld)", e.at);
          }
        MC_CHECK(caught == (k >= 0), "exception of generator call %ld: caught %d", k, int(caught));
        MC_CHECK(in.calls == (k < 0 ? N : k + 1), "%ld generator calls", in.calls);
        mc::step(in.calls);
        mc::ok();
      }
    V x([](auto i) { return T(int(i) % 50 + 1); });
    auto reduction = [&](const char* what, auto&& f) {
      Injector in;
      f(in);
      const long m = in.calls;
      for (long k = 0; k < m; ++k)
        {
          mc::at(what, N, k);
          Injector g;
          g.at = k;
          bool caught = false;
          try { f(g); }
          catch (const Fault& e) { caught = e.at == k; }
          MC_CHECK(caught, "the exception thrown in call %ld of %ld did not reach the caller", k, m);
          mc::step(k + 1);
          mc::ok();
        }
    };
    reduction("reduce width,call", [&](Injector& in) {
      (void) reduce(x, [&](const auto& a, const auto& b) { in(); using std::max; return max(a, b); });
    });
    typename V::mask_type mask = x > T(1);
    reduction("masked reduce width,call", [&](Injector& in) {
      (void) reduce(where(mask, x), T(1), [&](const auto& a, const auto& b) { in(); using std::max; return max(a, b); });
    });
  }
#endif

int main()
{
  mc::init();
#ifdef VIRMC_GENERATORS
  mc::context = mc::name_of<VIRMC_T>();
  [&]<int... Is>(std::integer_sequence<int, Is...>) {
    (generators<stdx::fixed_size_simd<VIRMC_T, Is + 1>>(), ...);
  }(std::make_integer_sequence<int, 32>());
  generators<stdx::simd<VIRMC_T, stdx::simd_abi::scalar>>();
  generators<stdx::native_simd<VIRMC_T>>();
#else
  POLICY_SETS();
#endif
  return mc::finish();
}

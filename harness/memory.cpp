// C05: the algorithms read only the input ranges, write only the output range (or write back in place), and never
// write when the callable takes its arguments by value.  Ranges are placed flush against inaccessible pages (native
// build) or poisoned shadow (AddressSanitizer build, any 8-byte offset); inputs live in read-only pages.
#include "alg.h"
#include <functional>
#include <ranges>
#if defined __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#define ASAN 1
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=1:handle_segv=0:handle_abort=0:allow_user_poisoning=1:detect_stack_use_after_return=0"; }
#else
#define ASAN 0
#endif

// where: 0 flush with the leading guard, 1 flush with the trailing guard, >= 2 (asan) any offset
template <typename T>
  struct Arena
  {
    mc::guarded mem;
    T* p = nullptr;
    long n = 0;
    explicit Arena(long cap) : mem(cap * sizeof(T) + 512) {}
    T* place(long where, long n_)
    {
      mem.writable();
#if ASAN
      __asan_unpoison_memory_region(mem.begin(), mem.len);
#endif
      std::memset(mem.begin(), 0x5a, mem.len);
      n = n_;
      char* q = where == 0 ? mem.begin()
                  : where == 1 ? mem.end() - n * sizeof(T)
                  : mem.begin() + 128 + 8 * (where - 2);
      p = reinterpret_cast<T*>(q);
      return p;
    }
    void seal(bool readonly)
    {
#if ASAN
      char* b = reinterpret_cast<char*>(p);
      char* e = reinterpret_cast<char*>(p + n);
      if (b > mem.begin())
        __asan_poison_memory_region(mem.begin(), b - mem.begin());
      if (e < mem.end())
        __asan_poison_memory_region(e, mem.end() - e);
#endif
      if (readonly)
        mem.readonly();
    }
    void open()
    {
#if ASAN
      __asan_unpoison_memory_region(mem.begin(), mem.len);
#endif
      mem.writable();
    }
    void intact(const char* what)
    {
      open();
      for (char* c = mem.begin(); c != mem.end(); ++c)
        if ((c < reinterpret_cast<char*>(p) or c >= reinterpret_cast<char*>(p + n)) and *c != 0x5a)
          mc::fail("%s: wrote outside the range, %ld bytes from its begin", what, long(c - reinterpret_cast<char*>(p)));
    }
  };

template <typename T> constexpr long places()
{
  if (not ASAN) return 2;
  long step = sizeof(T) < 8 ? 1 : sizeof(T) / 8;   // in units of 8 bytes, keep natural alignment
  return 2 + 64 / (8 * step);
}
template <typename T> long place_no(long w)
{ return w < 2 ? w : 2 + (w - 2) * (sizeof(T) < 8 ? 1 : long(sizeof(T)) / 8); }

template <typename T, typename P, typename Policy>
  void run(P, Policy pol)
  {
    const long top = max_length<T, P>() + 8;
    Arena<T> a(top), b(top), d(top);
    volatile long sink = 0;
    for_lengths<T, P>([&](long n) {
      for (long pl = 0; pl < places<T>(); ++pl)
        for (long pl2 = 0; pl2 < (pl < 2 ? 2 : 1); ++pl2)
          {
            T* p = a.place(place_no<T>(pl), n);
            T* q = b.place(pl2, n);
            T* o = d.place(place_no<T>(pl < 2 ? 1 - pl2 : pl), n);
            for (long k = 0; k < n; ++k)
              p[k] = Codec<T>::enc(k), q[k] = Codec<T>::enc(k + 1);
            a.seal(true);
            b.seal(true);
            d.seal(false);
            const T* cp = p;
            const T* cq = q;

            mc::at("for_each by value n,place,place2", n, pl, pl2);
            // the range is mutable in type, but the callable takes copies: a write would hit a read-only page
            long calls = 0;
            vir::for_each(pol, p, p + n, [&](auto... v) { (Codec<T>::bump(v), ...); ++calls; });
            vir::for_each(pol, cp, cp + n, [&](const auto&...) { ++calls; });
            vir::for_each(pol, p, p + n, [&](const auto&...) { ++calls; });
            mc::step(calls);
            mc::ok();

            mc::at("count_if n,place,place2", n, pl, pl2);
            if constexpr (std::is_arithmetic_v<T>)
              sink = vir::count_if(pol, cp, cp + n, [](auto const& v) { return v == v; });
            else if constexpr (not std::is_arithmetic_v<vir::struct_element_t<0, T>>)
              sink = vir::count_if(pol, cp, cp + n, [](auto const& v) { using vir::get; const auto& x = get<0>(v).x; return x == x; });
            else
              sink = vir::count_if(pol, cp, cp + n, [](auto const& v) { return get<0>(v) == get<0>(v); });
            MC_CHECK(sink == n, "count_if");
            mc::step(n);
            mc::ok();

            mc::at("transform n,place,place2", n, pl, pl2);
            T* r = vir::transform(pol, p, p + n, o, [](auto v) { Codec<T>::bump(v); return v; });
            MC_CHECK(r == o + n, "returned iterator is off by %ld", long(r - (o + n)));
            r = vir::transform(pol, p, p + n, q, o, [](const auto& x, const auto&) { return x; });
            MC_CHECK(r == o + n, "returned iterator is off by %ld", long(r - (o + n)));
            d.open();
            for (long k = 0; k < n; ++k)
              MC_CHECK(Codec<T>::eq(o[k], Codec<T>::enc(k)), "output %ld", k);
            d.intact("transform");
            d.seal(false);
            mc::step(2 * n);
            mc::ok();

            if constexpr (std::is_arithmetic_v<T>)
              {
                mc::at("transform_reduce n,place,place2", n, pl, pl2);
                const T m = vir::transform_reduce(pol, cp, cp + n, T(1), [](auto x, auto y) { using std::max; return max(x, y); },
                                                  [](auto v) { return v; });
                const T m2 = vir::transform_reduce(pol, cp, cp + n, cq, T(1), [](auto x, auto y) { using std::max; return max(x, y); },
                                                   [](auto v, auto u) { using std::min; return min(v, u); });
                T w1 = 1, w2 = 1;
                for (long k = 0; k < n; ++k)
                  w1 = std::max(w1, p[k]), w2 = std::max(w2, std::min(p[k], q[k]));
                MC_CHECK(m == w1 and m2 == w2, "transform_reduce");
                mc::step(2 * n);
                mc::ok();
              }

            mc::at("for_each by reference n,place,place2", n, pl, pl2);
            d.open();
            for (long k = 0; k < n; ++k)
              o[k] = Codec<T>::enc(k);
            d.seal(false);
            vir::for_each(pol, o, o + n, [](auto&... v) { (Codec<T>::bump(v), ...); });
            d.open();
            for (long k = 0; k < n; ++k)
              MC_CHECK(Codec<T>::eq(o[k], Codec<T>::bumped(k)), "element %ld", k);
            d.intact("for_each");
            mc::step(n);
            mc::ok();
            a.intact("input 1");
            b.intact("input 2");
          }
    });
  }

int main()
{
  mc::init();
  POLICY_SETS();
  return mc::finish();
}

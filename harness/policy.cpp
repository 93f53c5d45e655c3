// C06: what each modifier of the execution policy promises about the calls of the user's callable.
#include "alg.h"
#include <functional>
#include <ranges>
#include <typeinfo>
#include <sys/wait.h>

struct Call { long first, width, nargs; const std::type_info* type; };
static std::vector<Call> calls;

template <typename T, typename V, typename... Vs>
  void record(const V& v, const Vs&... more)
  {
    const long k0 = Codec<T>::dec(v[0]);
    calls.push_back({k0, long(V::size()), 1 + sizeof...(Vs), &typeid(V)});
    static_assert((std::is_same_v<V, Vs> and ...), "all arguments of one call have the same type");
    long i = 0;
    auto each = [&](const auto& u) {
      for (long j = 0; j < long(V::size()); ++j)
        MC_CHECK(Codec<T>::dec(u[j]) == k0 + i * long(V::size()) + j, "argument %ld of one call does not follow the previous one", i);
      ++i;
    };
    each(v);
    (each(more), ...);
  }

// every element exactly once (elements 0 .. n-1, values unique)
inline void covers(long n, const char* what)
{
  std::vector<int> seen(n);
  for (auto& c : calls)
    for (long k = c.first; k < c.first + c.width * c.nargs; ++k)
      {
        MC_CHECK(k >= 0 and k < n, "%s: element %ld is not in the range", what, k);
        ++seen[k];
      }
  for (long k = 0; k < n; ++k)
    MC_CHECK(seen[k] == 1, "%s: element %ld seen %d times", what, k, seen[k]);
}

// can_unroll: the callable is handed M arguments at once (for_each)
template <typename V, typename P>
  void contract(const char* what, long n, std::uintptr_t addr, std::size_t elem, bool can_unroll, bool aligned_range)
  {
    const long w = V::size(), m = unroll<P>();
    covers(n, what);
    long full = 0, full_elems = 0, groups = 0;
    for (auto& c : calls)
      {
        MC_CHECK(c.width <= w, "%s: callable invoked with %ld elements, more than the preferred %ld", what, c.width, w);
        MC_CHECK(c.nargs == 1 or (can_unroll and c.nargs == m and c.width == w),
                 "%s: callable invoked with %ld arguments of %ld elements", what, c.nargs, c.width);
        if (c.width == w)
          {
            MC_CHECK(*c.type == typeid(V), "%s: chunk of full width has an unexpected type", what);
            full += c.nargs;
            full_elems += w * c.nargs;
          }
        groups += c.nargs > 1;
        if (P::_assume_matching_size)
          MC_CHECK(*c.type == typeid(V), "%s: assume_matching_size, but the callable is invoked with another type", what);
      }
    if constexpr (not P::_prefers_aligned and not P::_auto_prologue)
      {
        // chunked from the start: [0, n - n % w) in chunks of w
        MC_CHECK(full == n / w, "%s: %ld chunks of the preferred width instead of %ld", what, full, n / w);
        for (auto& c : calls)
          if (c.width == w and w > 1)
            MC_CHECK(c.first % w == 0, "%s: a full chunk starts at element %ld", what, c.first);
        if (can_unroll and m > 1)
          MC_CHECK(groups == n / (w * m), "%s: %ld calls with %ld arguments instead of %ld", what, groups, m, n / (w * m));
      }
    else if constexpr (P::_prefers_aligned and stdx::is_simd_v<V>)
      {
        constexpr std::size_t al = stdx::memory_alignment_v<V>;
        constexpr bool possible = V::size() > 1 and V::size() * sizeof(typename V::value_type) % al == 0
                                    and al > sizeof(typename V::value_type);
        if (possible and aligned_range)
          {
            long to_align = (al - addr % al) % al / elem;
            if (to_align > n)
              to_align = n;
            MC_CHECK(full == (n - to_align) / w, "%s: %ld full chunks instead of %ld after %ld elements for alignment",
                     what, full, (n - to_align) / w, to_align);
            for (auto& c : calls)
              if (c.width == w)
                MC_CHECK((addr + c.first * elem) % al == 0, "%s: prefer_aligned, but the full chunk at element %ld is at"
                         " a misaligned address", what, c.first);
          }
      }
  }

template <typename T, typename P, typename Policy>
  void run(P, Policy pol)
  {
    using V = vir::simdize<T, P::_size>;
    if constexpr (P::_size > 0)
      static_assert(V::size() == P::_size);
    if constexpr (P::_size > 0 and std::is_arithmetic_v<T>)
      static_assert(std::is_same_v<V, stdx::resize_simd_t<P::_size, stdx::simd<T>>>);
    if constexpr (P::_size == 0 and std::is_arithmetic_v<T> and not std::is_same_v<T, long double>)
      static_assert(V::size() == stdx::native_simd<T>::size());
    Buffer<T> a(max_length<T, P>() + 64), b(max_length<T, P>() + 64), d(max_length<T, P>() + 64);
    for_lengths<T, P>([&](long n) {
      if (n >= Codec<T>::M)
        return;
      for (long off = 0; off < offsets<T>(); ++off)
        {
          const long o2 = (off + 1) % offsets<T>();
          a.fill(off, n);
          b.fill(o2, n);
          d.fill(o2, n);
          T* p = a.at(off);
          const T* cp = p;
          auto addr = reinterpret_cast<std::uintptr_t>(p), daddr = reinterpret_cast<std::uintptr_t>(d.at(o2));
          mc::at("for_each n,off", n, off);
          calls.clear();
          vir::for_each(pol, cp, cp + n, [](const auto&... v) { record<T>(v...); });
          contract<V, P>("for_each", n, addr, sizeof(T), true, true);
          mc::step(calls.size());
          mc::ok();
          mc::at("for_each write n,off", n, off);
          calls.clear();
          vir::for_each(pol, p, p + n, [](auto&... v) { record<T>(v...); });
          contract<V, P>("for_each(write)", n, addr, sizeof(T), true, true);
          mc::step(calls.size());
          mc::ok();
          mc::at("count_if n,off", n, off);
          calls.clear();
          vir::count_if(pol, cp, cp + n, [](const auto& v) {
            record<T>(v);
            if constexpr (std::is_arithmetic_v<T>) return v == v; else return v.x == v.x;
          });
          contract<V, P>("count_if", n, addr, sizeof(T), false, true);
          mc::step(calls.size());
          mc::ok();
          mc::at("transform n,off", n, off);
          calls.clear();
          vir::transform(pol, cp, cp + n, d.at(o2), [](const auto& v) { record<T>(v); return v; });
          contract<V, P>("transform", n, daddr, sizeof(T), false, true);
          mc::step(calls.size());
          mc::ok();
          mc::at("transform2 n,off", n, off);
          calls.clear();
          const T* cq = b.at(o2);
          vir::transform(pol, cp, cp + n, cq, d.at(o2), [](const auto& v, const auto& u) {
            static_assert(std::is_same_v<decltype(v), decltype(u)>);
            MC_CHECK(Codec<T>::dec(v[0]) == Codec<T>::dec(u[0]), "the two arguments are not corresponding elements");
            record<T>(u);
            return v;
          });
          contract<V, P>("transform2", n, daddr, sizeof(T), false, true);
          mc::step(calls.size());
          mc::ok();
          if constexpr (std::is_arithmetic_v<T>)
            {
              mc::at("transform_reduce n,off", n, off);
              calls.clear();
              vir::transform_reduce(pol, cp, cp + n, T(), std::plus<>(), [](const auto& v) { record<T>(v); return v - v; });
              contract<V, P>("transform_reduce", n, addr, sizeof(T), false, true);
              mc::step(calls.size());
              mc::ok();
            }
        }
    });
    if constexpr (P::_assume_matching_size)
      {
        // a range of another size is a precondition violation: trap, never a silent partial result
        constexpr long w = V::size();
        a.fill(0, 4 * w);
        b.fill(0, 4 * w);
        d.fill(0, 4 * w);
        const T* cp = a.at(0);
        for (long n = 1; n < 3 * w; ++n)
          for (int alg = 0; alg < 4; ++alg)
            {
              mc::at("precondition n,alg", n, alg);
              std::fflush(stdout);
              pid_t pid = fork();
              if (pid == 0)
                {
                  std::signal(SIGILL, SIG_DFL);
                  std::signal(SIGTRAP, SIG_DFL);
                  std::signal(SIGABRT, SIG_DFL);
                  std::signal(SIGSEGV, SIG_DFL);
                  volatile long len = n;
                  if (alg == 0)
                    vir::for_each(pol, cp, cp + len, [](const auto&...) {});
                  else if (alg == 1)
                    vir::transform(pol, cp, cp + len, d.at(0), [](const auto& v) { return v; });
                  else if (alg == 2)
                    vir::count_if(pol, cp, cp + len, [](const auto& v) {
                      if constexpr (std::is_arithmetic_v<T>) return v == v; else return v.x == v.x;
                    });
                  else if constexpr (std::is_arithmetic_v<T>)
                    vir::transform_reduce(pol, cp, cp + len, T(), std::plus<>(), [](const auto& v) { return v; });
                  else if (len % w)
                    __builtin_trap();
                  _exit(0);
                }
              int st = 0;
              waitpid(pid, &st, 0);
              if (n % w == 0)
                MC_CHECK(WIFEXITED(st) and WEXITSTATUS(st) == 0, "a range whose size is a multiple of the width must work (status %d)", st);
              else
                MC_CHECK(WIFSIGNALED(st) and (WTERMSIG(st) == SIGILL or WTERMSIG(st) == SIGTRAP or WTERMSIG(st) == SIGABRT),
                         "size %ld is no multiple of %ld, but the program went on (status %d)", n, w, st);
              mc::step();
              mc::ok();
            }
      }
  }

// composition of modifiers, for every sequence of up to three of them
template <typename P> concept can_align = requires(P p) { p.prefer_aligned(); };
template <typename P> concept can_auto = requires(P p) { p.auto_prologue(); };
template <typename P> concept can_match = requires(P p) { p.assume_matching_size(); };
template <typename P> concept can_unroll = requires(P p) { p.template unroll_by<2>(); };
template <typename P> concept can_size = requires(P p) { p.template prefer_size<4>(); };
template <int Depth, bool Al, bool Au, bool Ma, int U, int S, typename P>
  constexpr long walk(P)
  {
    constexpr bool excl = Al or Au or Ma;
    static_assert(can_align<P> == not excl);
    static_assert(can_auto<P> == not excl);
    static_assert(can_match<P> == not excl);
    static_assert(can_unroll<P> == (U == 0));
    static_assert(can_size<P> == (S == 0));
    
    long n = 1;
    if constexpr (Depth > 0)
      {
        if constexpr (not excl)
          n += walk<Depth - 1, true, Au, Ma, U, S>(P().prefer_aligned())
                 + walk<Depth - 1, Al, true, Ma, U, S>(P().auto_prologue())
                 + walk<Depth - 1, Al, Au, true, U, S>(P().assume_matching_size());
        if constexpr (U == 0)
          n += walk<Depth - 1, Al, Au, Ma, 2, S>(P().template unroll_by<2>());
        if constexpr (S == 0)
          n += walk<Depth - 1, Al, Au, Ma, U, 4>(P().template prefer_size<4>());
      }
    return n;
  }

int main()
{
  mc::init();
  mc::context = "modifier sequences";
  constexpr long n = walk<4, false, false, false, 0, 0>(ex::simd);
  for (long i = 0; i < n; ++i)
    mc::at("sequence", i), mc::step(), mc::ok();
  POLICY_SETS();
  return mc::finish();
}

// C05: the algorithms move iterators only within [first, last] and dereference them only within [first, last).  The ranges
// are given by iterators that check every operation (as those of the standard library's debug mode do).
#include "alg.h"
#include <functional>
#include <ranges>

// a contiguous iterator that knows its range
template <typename T>
  struct It
  {
    using value_type = std::remove_cv_t<T>;
    using element_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = T*;
    using reference = T&;
    using iterator_category = std::random_access_iterator_tag;
    using iterator_concept = std::contiguous_iterator_tag;

    T* lo = nullptr;
    long n = 0, i = 0;      // position i of n

    static inline long operations = 0;

    It() = default;
    It(T* b, long size, long pos) : lo(b), n(size), i(pos) {}
    operator It<const T>() const requires (not std::is_const_v<T>) { return {lo, n, i}; }

    It moved(difference_type d) const
    {
      ++operations;
      MC_CHECK(i + d >= 0 and i + d <= n, "an iterator at position %ld of %ld was moved by %ld", i, n, long(d));
      return {lo, n, i + d};
    }
    T& operator*() const
    {
      ++operations;
      MC_CHECK(i < n, "the end iterator of a range of %ld was dereferenced", n);
      return lo[i];
    }
    T* operator->() const { ++operations; return lo + i; }     // std::to_address, also of the end
    T& operator[](difference_type d) const
    {
      ++operations;
      MC_CHECK(i + d >= 0 and i + d < n, "it[%ld] at position %ld of %ld", long(d), i, n);
      return lo[i + d];
    }
    It& operator+=(difference_type d) { return *this = moved(d); }
    It& operator-=(difference_type d) { return *this = moved(-d); }
    It& operator++() { return *this = moved(1); }
    It& operator--() { return *this = moved(-1); }
    It operator++(int) { It r = *this; ++*this; return r; }
    It operator--(int) { It r = *this; --*this; return r; }
    friend It operator+(const It& a, difference_type d) { return a.moved(d); }
    friend It operator+(difference_type d, const It& a) { return a.moved(d); }
    friend It operator-(const It& a, difference_type d) { return a.moved(-d); }
    static void same_range(const It& a, const It& b)
    {
      ++operations;
      MC_CHECK(a.lo == b.lo and a.n == b.n, "iterators of different ranges were compared");
    }
    friend difference_type operator-(const It& a, const It& b) { same_range(a, b); return a.i - b.i; }
    friend bool operator==(const It& a, const It& b) { same_range(a, b); return a.i == b.i; }
    friend auto operator<=>(const It& a, const It& b) { same_range(a, b); return a.i <=> b.i; }
  };
static_assert(std::contiguous_iterator<It<int>> and std::contiguous_iterator<It<const int>>);

template <typename T>
  struct Range
  {
    T* p;
    long n;
    It<T> begin() const { return {p, n, 0}; }
    It<T> end() const { return {p, n, n}; }
    std::ranges::subrange<It<T>> view() const { return {begin(), end()}; }
  };

template <typename T, typename P, typename Policy>
  void run(P, Policy pol)
  {
    const long top = max_length<T, P>() + 70;
    Buffer<T> a(top), b(top), d(top);
    constexpr bool arith = std::is_arithmetic_v<T>;
    for_lengths<T, P>([&](long n) {
      // the alignment decides about the prologue
      for (long off = 0; off < offsets<T>(); off += (offsets<T>() > 16 and off > 1 and off < offsets<T>() - 3) ? 7 : 1)
        {
          const Range<T> in{n ? a.at(off) : nullptr, n}, in2{n ? b.at((off * 3 + 1) % 8) : nullptr, n}, out{n ? d.at(offsets<T>() - 1 - off) : nullptr, n};
          const Range<const T> cin{in.p, n}, cin2{in2.p, n};
          auto fill = [&] {
            for (long k = 0; k < n; ++k)
              in.p[k] = Codec<T>::enc(k), in2.p[k] = Codec<T>::enc(k + 1), out.p[k] = Codec<T>::enc(0);
          };
          auto copied = [&](const char* what, auto r, bool bumped = true) {
            MC_CHECK(r - out.begin() == n, "%s returned an iterator at %ld of %ld", what, long(r - out.begin()), n);
            for (long k = 0; k < n; ++k)
              MC_CHECK(Codec<T>::eq(out.p[k], bumped ? Codec<T>::bumped(k) : Codec<T>::enc(k)), "%s: output %ld", what, k);
            mc::step(n);
            mc::ok();
            fill();
          };
          fill();
          auto bump = [](auto v) { Codec<T>::bump(v); return v; };
          auto first = [](const auto& x, const auto&) { return x; };
          const long ops0 = It<T>::operations + It<const T>::operations;

          mc::at("transform n,offset", n, off);
          copied("transform", vir::transform(pol, in.begin(), in.end(), out.begin(), bump));
          copied("transform of const", vir::transform(pol, cin.begin(), cin.end(), out.begin(), bump));
          mc::at("binary transform n,offset", n, off);
          copied("transform", vir::transform(pol, in.begin(), in.end(), cin2.begin(), out.begin(), first), false);
          mc::at("range transform n,offset", n, off);
          copied("transform", vir::transform(pol, in, out, bump));
          copied("binary transform", vir::transform(pol, cin, in2, out, first), false);
#if __cpp_lib_ranges_zip >= 202110L
          mc::at("zip transform n,offset", n, off);
          copied("zip of 2", vir::transform(pol, std::views::zip(in.view(), cin2.view()), out, [](auto const& t) { return std::get<0>(t); }), false);
          copied("zip of 3", vir::transform(pol, std::views::zip(in.view(), cin2.view(), in2.view()), out,
                                            [](auto const& t) { return std::get<0>(t); }), false);
#endif

          mc::at("for_each n,offset", n, off);
          long lanes = 0;
          vir::for_each(pol, cin.begin(), cin.end(), [&](const auto&... v) { ((lanes += v.size()), ...); });
          vir::for_each(pol, in, [&](const auto&... v) { ((lanes += v.size()), ...); });
          MC_CHECK(lanes == 2 * n, "%ld elements visited", lanes);
          vir::for_each(pol, in.begin(), in.end(), [](auto&... v) { (Codec<T>::bump(v), ...); });
          for (long k = 0; k < n; ++k)
            MC_CHECK(Codec<T>::eq(in.p[k], Codec<T>::bumped(k)), "element %ld", k);
          mc::step(3 * n);
          mc::ok();
          fill();

          if constexpr (arith)
            {
              mc::at("reduce n,offset", n, off);
              auto mx = [](auto x, auto y) { using std::max; return max(x, y); };
              auto mn = [](auto x, auto y) { using std::min; return min(x, y); };
              auto id = [](auto x) { return x; };
              T w1 = 1, w2 = 1;
              for (long k = 0; k < n; ++k)
                w1 = std::max(w1, in.p[k]), w2 = std::max(w2, std::min(in.p[k], in2.p[k]));
              MC_CHECK(vir::reduce(pol, cin.begin(), cin.end(), T(1), mx) == w1, "reduce");
              MC_CHECK(vir::reduce(pol, in, T(1), mx) == w1, "reduce");
              MC_CHECK(vir::transform_reduce(pol, in.begin(), in.end(), T(1), mx, id) == w1, "transform_reduce");
              MC_CHECK(vir::transform_reduce(pol, in.begin(), in.end(), cin2.begin(), T(1), mx, mn) == w2, "binary transform_reduce");
              MC_CHECK(vir::transform_reduce(pol, in, in2, T(1), mx, mn) == w2, "binary transform_reduce");
              mc::step(5 * n);
              mc::ok();
              mc::at("count_if n,offset", n, off);
              auto pr = [](auto const& v) { return v == v; };
              MC_CHECK(vir::count_if(pol, cin.begin(), cin.end(), pr) == n and vir::count_if(pol, in, pr) == n, "count_if");
              mc::step(2 * n);
              mc::ok();
            }
          MC_CHECK(It<T>::operations + It<const T>::operations > ops0, "no operation was observed");
        }
    });
  }

int main()
{
  mc::init();
  POLICY_SETS();
  return mc::finish();
}

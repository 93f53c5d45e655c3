// C02 for structs: transform from structs to structs, from structs to one of their members and from arithmetic types to structs.
#include "alg.h"

template <typename T, typename V>
  void make(V& r, const auto& x)          // all members from one simd: x, x + 1, x + 2
  {
    using vir::get;
    using X = std::remove_cvref_t<decltype(x)>;
    using F = typename X::value_type;
    auto put = [&](auto& m, int add) {
      using M = std::remove_cvref_t<decltype(m)>;
      m = stdx::static_simd_cast<M>(x + X(F(add)));
    };
    put(get<0>(r), 0);
    put(get<1>(r), 1);
    if constexpr (vir::struct_size_v<T> > 2)
      put(get<2>(r), 2);
  }

template <typename T>
  T made(long k)
  {
    using M0 = vir::struct_element_t<0, T>;
    using M1 = vir::struct_element_t<1, T>;
    if constexpr (vir::struct_size_v<T> > 2)
      return T{M0(k), M1(k + 1), vir::struct_element_t<2, T>(k + 2)};
    else
      return T{M0(k), M1(k + 1)};
  }

template <typename T> constexpr bool nested()
{
  return []<std::size_t... Is>(std::index_sequence<Is...>) {
    return (not std::is_arithmetic_v<vir::struct_element_t<Is, T>> or ...);
  }(std::make_index_sequence<vir::struct_size_v<T>>());
}

template <typename T, typename P, typename Policy>
  void run(P, Policy pol)
  {
    using M = vir::struct_element_t<0, T>;
    const long w = std::max(width<T, P>(), P::_size > 0 ? 0 : width<M, P>());
    const long lim = 2 * w * unroll<P>() + 2 * w + 3;
    Buffer<T> a(lim + 64), out(lim + 64);
    Buffer<M> f(lim + 64), g(lim + 64);
    const long offs = offsets<M>();
    for (long n = 0; n <= lim; n += P::_assume_matching_size ? w : 1)
      for (long off = 0; off < offs; ++off)
        {
          const long o1 = (off * 3 + n) % 16;
          a.fill(o1, n);
          const T* p = a.at(o1);
          T* d = out.at(off);
          auto ends = [&](auto r, auto e) { MC_CHECK(r == e, "returned iterator is off by %ld", long(r - e)); };

          mc::at("struct to struct n,off", n, off);
          out.poison();
          ends(vir::transform(pol, p, p + n, d, [](auto v) { Codec<T>::bump(v); return v; }), d + n);
          for (long k = 0; k < n; ++k)
            MC_CHECK(Codec<T>::eq(d[k], Codec<T>::bumped(k)), "element %ld of %ld", k, n);
          out.untouched_outside(off, n, "struct to struct");
          mc::step(n);
          mc::ok();

          mc::at("struct in place n,off", n, off);
          out.fill(off, n);
          ends(vir::transform(pol, d, d + n, d, [](auto v) { Codec<T>::bump(v); return v; }), d + n);
          for (long k = 0; k < n; ++k)
            MC_CHECK(Codec<T>::eq(d[k], Codec<T>::bumped(k)), "element %ld of %ld", k, n);
          out.untouched_outside(off, n, "struct in place");
          mc::step(n);
          mc::ok();

          // two inputs, the second one the reverse
          mc::at("two structs n,off", n, off);
          std::vector<T> b(p, p + n);
          std::reverse(b.begin(), b.end());
          out.poison();
          ends(vir::transform(pol, p, p + n, b.begin(), d, [](const auto& v, const auto& u) {
                 using vir::get;
                 auto r = v;
                 get<1>(r) = get<1>(u);
                 return r;
               }), d + n);
          for (long k = 0; k < n; ++k)
            {
              T want = p[k];
              vir::struct_get<1>(want) = vir::struct_get<1>(p[n - 1 - k]);
              MC_CHECK(Codec<T>::eq(d[k], want), "element %ld of %ld", k, n);
            }
          out.untouched_outside(off, n, "two structs");
          mc::step(n);
          mc::ok();

         if constexpr (not nested<T>())
          {
          mc::at("struct to member n,off", n, off);
          g.poison();
          M* e = g.at(off);
          ends(vir::transform(pol, p, p + n, e, [](const auto& v) { using vir::get; return get<0>(v); }), e + n);
          for (long k = 0; k < n; ++k)
            MC_CHECK(mc::same_value(e[k], vir::struct_get<0>(p[k])), "element %ld of %ld", k, n);
          g.untouched_outside(off, n, "struct to member");
          mc::step(n);
          mc::ok();

          mc::at("member to struct n,off", n, off);
          for (long k = 0; k < n; ++k)
            f.at(o1)[k] = M(k);
          const M* q = f.at(o1);
          out.poison();
          ends(vir::transform(pol, q, q + n, d, [](const auto& x) {
                 constexpr int N = std::remove_cvref_t<decltype(x)>::size();
                 const std::array<T, N> zeros = {};
                 vir::simdize<T, N> r(zeros.data(), stdx::element_aligned);
                 make<T>(r, x);
                 return r;
               }), d + n);
          for (long k = 0; k < n; ++k)
            MC_CHECK(Codec<T>::eq(d[k], made<T>(k)), "element %ld of %ld", k, n);
          out.untouched_outside(off, n, "member to struct");
          mc::step(n);
          mc::ok();
          }
        }
  }

int main()
{
  mc::init();
  POLICY_SETS();
  return mc::finish();
}

// C10: simdize<S, N> is an array-of-struct view in structure-of-array form: member k of lane i is member k of element i,
// for loads, stores, subscripts, broadcasts, structured bindings, conversions and forwarded operators.
#include "mc.h"
#include <vir/simdize.h>
#include <array>
#include <complex>
#include <tuple>
#include <utility>
#include <vector>
namespace stdx = vir::stdx;

template <typename T> struct P1 { T x; };
template <typename T> struct P2 { T x, y; };
template <typename T> struct P3 { T x, y, z; };
template <typename T> struct P4 { T x, y, z, w; };
template <typename T> struct P5 { T x, y, z, w, v; };
template <typename A, typename B> struct AB { A a; B b; };
template <typename A, typename B> struct BA { B b; A a; };
template <typename A, typename B, typename C> struct ABC { A a; B b; C c; };
template <typename T, int K> struct NT { T x, y; };
struct PlainF { float f, g; };
struct PlainM { float f; double d; short s; };
struct PlainC { char c; int i; char e; long long l; };
struct Plain1 { int i; };
template <typename T> struct Pt
{
  T x, y;
  friend constexpr Pt operator+(const Pt& a, const Pt& b) { return {T(a.x + b.x), T(a.y + b.y)}; }
  friend constexpr Pt operator-(const Pt& a, const Pt& b) { return {T(a.x - b.x), T(a.y - b.y)}; }
  friend constexpr Pt operator*(const Pt& a, const Pt& b) { return {T(a.x * b.x), T(a.y * b.x + b.y)}; }
  friend constexpr auto operator==(const Pt& a, const Pt& b) { return a.x == b.x && a.y == b.y; }
  friend constexpr auto operator!=(const Pt& a, const Pt& b) { return a.x != b.x || a.y != b.y; }
  friend constexpr auto operator<(const Pt& a, const Pt& b) { return a.x < b.x; }
  friend constexpr auto operator>(const Pt& a, const Pt& b) { return a.y > b.x; }
  friend constexpr auto operator<=(const Pt& a, const Pt& b) { return a.x <= b.y; }
  friend constexpr auto operator>=(const Pt& a, const Pt& b) { return a.y >= b.y; }
  friend constexpr Pt operator/(const Pt& a, const Pt& b) { return {T(a.y + b.x), T(a.x - b.y)}; }
  friend constexpr Pt operator%(const Pt& a, const Pt& b) { return {T(a.x - b.y), T(a.y + a.x)}; }
  friend constexpr Pt operator&(const Pt& a, const Pt& b) { return {T(a.y - b.y), T(b.y + a.x)}; }
  friend constexpr Pt operator|(const Pt& a, const Pt& b) { return {T(b.x - a.y), T(b.y - a.x)}; }
  friend constexpr Pt operator^(const Pt& a, const Pt& b) { return {T(b.x + a.x), T(b.y - a.x)}; }
  friend constexpr Pt operator<<(const Pt& a, const Pt& b) { return {T(b.x + a.x), T(a.y)}; }
  friend constexpr Pt operator>>(const Pt& a, const Pt& b) { return {T(b.y), T(a.x)}; }
};

template <std::size_t I, typename S> using mem_t = std::remove_cvref_t<decltype(vir::struct_get<I>(std::declval<S&>()))>;
template <std::size_t I, typename S> mem_t<I, S> memval(long i) { return mem_t<I, S>(i * 5 + I + 1); }
template <typename S> constexpr auto seq = std::make_index_sequence<vir::struct_size_v<S>>();
template <typename S> S make(long i)
{
  return [&]<std::size_t... Is>(std::index_sequence<Is...>) { return S{memval<Is, S>(i)...}; }(seq<S>);
}
template <typename S> bool same(const S& a, const S& b)
{
  return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
    return (mc::same_value(vir::struct_get<Is>(a), vir::struct_get<Is>(b)) and ...);
  }(seq<S>);
}
template <typename S> std::string show(const S& a)
{
  std::string r = "{";
  [&]<std::size_t... Is>(std::index_sequence<Is...>) {
    ((r += std::to_string(mc::num(vir::struct_get<Is>(a))) + " "), ...);
  }(seq<S>);
  return r + "}";
}

// lanes of v are elements first .. first + N - 1
template <typename S, typename V> void lanes(const V& v, long first, const char* what)
{
  constexpr long n = V::size();
  for (long i = 0; i < n; ++i)
    {
      const S e = v[i];
      MC_CHECK(same(e, make<S>(first + i)), "%s: [%ld] is %s, expected %s", what, i, show(e).c_str(),
               show(make<S>(first + i)).c_str());
      [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        (([&] {
          const auto& m = vir::get<Is>(v);
          static_assert(std::remove_cvref_t<decltype(m)>::size() == n);
          MC_CHECK(mc::same_value(mem_t<Is, S>(m[i]), memval<Is, S>(first + i)),
                   "%s: get<%d>[%ld] is %g, expected %g", what, int(Is), i, mc::num(mem_t<Is, S>(m[i])),
                   mc::num(memval<Is, S>(first + i)));
        }()), ...);
      }(seq<S>);
    }
}

template <std::size_t I, std::size_t K, typename S, typename V>
  auto simd_or_value(const V& src)
  {
    if constexpr (K >> I & 1)
      return memval<I, S>(7);
    else
      return vir::get<I>(src);
  }
template <std::size_t K, typename S, typename V, std::size_t... Is>
  void partial(const V& src, long first, std::index_sequence<Is...>)
  {
    auto expect = [&](const V& r, const char* what) {
      auto member = [&](auto i_) {
        constexpr std::size_t I = decltype(i_)::value;
        for (long i = 0; i < long(V::size()); ++i)
          MC_CHECK(mc::same_value(mem_t<I, S>(vir::get<I>(r)[i]), memval<I, S>(K >> I & 1 ? 7 : i + first)),
                   "%s, members 0x%lx broadcast: get<%d>[%ld] is %g", what, long(K), int(I), i, mc::num(mem_t<I, S>(vir::get<I>(r)[i])));
      };
      (member(std::integral_constant<std::size_t, Is>()), ...);
      mc::step();
    };
    expect(V(std::tuple(simd_or_value<Is, K, S>(src)...)), "from a tuple");
    if constexpr (K + 1 != 1u << sizeof...(Is))
      expect(V(simd_or_value<Is, K, S>(src)...), "from members");
  }

// From and to aggregates of simds; members given as scalars are broadcast.
template <typename S, typename V>
  void aggregates(const V& src, long first)
  {
    constexpr long n = V::size();
    constexpr std::size_t members = vir::struct_size_v<S>;
    constexpr bool as_tuple = requires { src.as_tuple(); };
    static_assert(V::template memory_alignment<> == alignof(S) and V::template memory_alignment<int> == alignof(int));
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
      mc::at("aggregates");
      using Tup = std::tuple<std::remove_cvref_t<decltype(vir::get<Is>(src))>...>;
      static_assert(std::is_same_v<typename V::mask_type, typename std::tuple_element_t<0, Tup>::mask_type>);
      const Tup t(vir::get<Is>(src)...);
      lanes<S>(V(t), first, "from a tuple of simds");
      static_assert(std::is_convertible_v<Tup, V>);
      if constexpr (as_tuple)
        {
          if constexpr (members > 1)
            {
              const Tup back = src;
              static_assert(std::is_convertible_v<V, Tup>);
              lanes<S>(V(back), first, "to a tuple of simds and back");
            }
          V again(src);
          again.as_tuple() = Tup(std::remove_cvref_t<decltype(vir::get<Is>(src))>([](int i) { return memval<Is, S>(i + 50); })...);
          lanes<S>(again, 50, "assignment to as_tuple()");
          if constexpr (members == 2)
            {
              using X = std::tuple_element_t<0, Tup>;
              using Y = std::tuple_element_t<members - 1, Tup>;
              lanes<S>(V(AB<X, Y>{vir::get<0>(src), vir::get<members - 1>(src)}), first, "from a struct of simds");
              const auto conv = static_cast<AB<X, Y>>(src);
              for (long i = 0; i < n; ++i)
                MC_CHECK((mc::same_value(mem_t<0, S>(conv.a[i]), memval<0, S>(i + first))
                           and mc::same_value(mem_t<members - 1, S>(conv.b[i]), memval<members - 1, S>(i + first))), "to a struct of simds: lane %ld", i);
            }
        }
    }(seq<S>);
    // every subset of the members given as one value
    if constexpr (members > 1 and members <= 3)
      [&]<std::size_t... Ks>(std::index_sequence<Ks...>) {
        (partial<Ks, S>(src, first, seq<S>), ...);
      }(std::make_index_sequence<(members > 1 and members <= 3 ? 1u << members : 0u)>());
    mc::ok();
  }

template <typename S, int N, typename V> void vectorized();
template <typename S, int N>
  void one()
  {
    using V = vir::simdize<S, N>;
    mc::context = mc::name_of<S>() + " x" + std::to_string(N);
    // with 64-byte registers the default width of structs with a char member exceeds what the other members support;
    // such types stay as they are
    if constexpr (stdx::native_simd<char>::size() <= 32 or not std::is_same_v<V, S> or N != 0)
      vectorized<S, N, V>();
  }

template <typename S, int N, typename V>
  void vectorized()
  {
    static_assert(V::size() == (N == 0 ? V::size() : N));
    static_assert(std::is_same_v<typename V::value_type, S>);
    static_assert(std::tuple_size<V>::value == vir::struct_size_v<S>);
    constexpr long n = V::size();
    const long total = n + 9;
    std::vector<S> in;
    for (long i = 0; i < total; ++i)
      in.push_back(make<S>(i));
    for (long off = 0; off < 9; ++off)
      {
        mc::at("load off", off);
        const S* p = in.data() + off;
        const V v(p, stdx::element_aligned);
        lanes<S>(v, off, "load constructor");
        lanes<S>(V(in.begin() + off), off, "load constructor, vector iterator");
        V w(in.data() + 8 - off);
        lanes<S>(w, 8 - off, "load constructor, no flag");
        w.copy_from(p, stdx::element_aligned);
        lanes<S>(w, off, "copy_from");
        mc::step(4 * n);
        mc::ok();

        mc::at("store off", off);
        std::vector<S> out;
        std::vector<unsigned char> raw((total + 8) * sizeof(S), 0x5a), ref;
        S* o = reinterpret_cast<S*>(raw.data());
        ref = raw;
        // member values put into the register one by one, not through the load path
        V built = v;
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
          ((vir::get<Is>(built) = std::remove_cvref_t<decltype(vir::get<Is>(built))>([&](int i) {
             return memval<Is, S>(i + 100 - off); })), ...);
        }(seq<S>);
        built.copy_to(o + off, stdx::element_aligned);
        for (long i = 0; i < n; ++i)
          MC_CHECK(same(o[off + i], make<S>(100 - off + i)), "store: element %ld is %s, expected %s", i,
                   show(o[off + i]).c_str(), show(make<S>(100 - off + i)).c_str());
        for (long b = 0; b < long(raw.size()); ++b)
          if (b < off * long(sizeof(S)) or b >= (off + n) * long(sizeof(S)))
            MC_CHECK(raw[b] == 0x5a, "store: byte %ld outside of the stored range changed", b - off * long(sizeof(S)));
        lanes<S>(built, 100 - off, "subscript");
        // round trip into another place
        V(o + off, stdx::element_aligned).copy_to(o + 8 - off);
        for (long i = 0; i < n; ++i)
          MC_CHECK(same(o[8 - off + i], make<S>(100 - off + i)), "round trip: element %ld", i);
        mc::step(3 * n);
        mc::ok();
      }
    mc::at("broadcast, copies, bindings");
    const S b = make<S>(3);
    const V bv(b);
    for (long i = 0; i < n; ++i)
      MC_CHECK(same(S(bv[i]), b), "broadcast: [%ld] is %s", i, show(S(bv[i])).c_str());
    V v(in.data());
    V c = v;
    lanes<S>(c, 0, "copy");
    c = V(in.data() + 1);
    lanes<S>(c, 1, "assignment");
    lanes<S>(v, 0, "original after assignment to its copy");
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
      // construction from the members, one simd per member
      V m(vir::get<Is>(v)...);
      lanes<S>(m, 0, "member-wise construction");
      static_assert((std::is_same_v<std::tuple_element_t<Is, V>, std::remove_cvref_t<decltype(vir::get<Is>(v))>> and ...));
      static_assert((std::is_same_v<typename std::tuple_element_t<Is, V>::value_type, mem_t<Is, S>> and ...));
    }(seq<S>);
    constexpr std::size_t members = vir::struct_size_v<S>;
    if constexpr (members == 2)
      {
        auto& [x, y] = v;
        const auto& [cx, cy] = std::as_const(v);
        for (long i = 0; i < n; ++i)
          MC_CHECK((mc::same_value(mem_t<0, S>(x[i]), memval<0, S>(i)) and mc::same_value(mem_t<members - 1, S>(y[i]), memval<members - 1, S>(i))
                     and mc::same_value(mem_t<0, S>(cx[i]), memval<0, S>(i)) and mc::same_value(mem_t<members - 1, S>(cy[i]), memval<members - 1, S>(i))),
                   "structured binding, lane %ld", i);
        x = decltype(x + x)([](int i) { return memval<0, S>(i + 1); });
        y = decltype(y + y)([](int i) { return memval<1, S>(i + 1); });
        lanes<S>(v, 1, "write through structured binding");
      }
    else if constexpr (members == 3)
      {
        auto& [x, y, z] = v;
        x = decltype(x + x)([](int i) { return memval<0, S>(i + 1); });
        y = decltype(y + y)([](int i) { return memval<1, S>(i + 1); });
        z = decltype(z + z)([](int i) { return memval<2, S>(i + 1); });
        lanes<S>(v, 1, "write through structured binding");
      }
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
      if constexpr (requires { v.as_tuple(); })
        {
          static_assert(std::tuple_size_v<std::remove_cvref_t<decltype(v.as_tuple())>> == sizeof...(Is));
          ([&] {
            for (long i = 0; i < n; ++i)
              MC_CHECK(mc::same_value(mem_t<Is, S>(std::get<Is>(v.as_tuple())[i]), mem_t<Is, S>(vir::get<Is>(v)[i])), "as_tuple");
          }(), ...);
        }
    }(seq<S>);
    static_assert(vir::simdize_size_v<typename std::tuple_element<0, V>::type> == n);
#if VIRMC_PART >= 6
    aggregates<S>(V(in.data() + 2), 2);
#endif
    mc::step(8 * n);
    mc::ok();
#if VIRMC_CT
    if constexpr (std::is_default_constructible_v<S>)
      {
        mc::at("constant evaluation");
        constexpr std::array<S, n> res = [] {
          std::array<S, n + 1> a{};
          for (long i = 0; i < n + 1; ++i)
            a[i] = [&]<std::size_t... Is>(std::index_sequence<Is...>) { return S{mem_t<Is, S>(i * 5 + Is + 1)...}; }(seq<S>);
          V v(a.data() + 1, stdx::element_aligned);
          std::array<S, n> o{};
          v.copy_to(o.data(), stdx::element_aligned);
          return o;
        }();
        for (long i = 0; i < n; ++i)
          MC_CHECK(same(res[i], make<S>(i + 1)), "element %ld", i);
        mc::step();
        mc::ok();
      }
#endif
  }

template <typename S, int... Ns> void sizes() { (one<S, Ns>(), ...); }

template <typename T, int N>
  void operators()
  {
    using S = Pt<T>;
    using V = vir::simdize<S, N>;
    mc::context = mc::name_of<V>();
    for (long a = -2; a < 6; ++a)
      for (long b = -2; b < 6; ++b)
        {
          mc::at("operators a,b", a, b);
          std::array<S, N> x, y;
          for (int i = 0; i < N; ++i)
            x[i] = {T(a + i), T(b - i)}, y[i] = {T(b + (i & 3)), T(a * 2 + i % 3)};
          const V v(x.data()), u(y.data());
          const S s{T(a), T(b)};
          auto eq = [&](const V& r, auto f, const char* what) {
            for (int i = 0; i < N; ++i)
              MC_CHECK(S(r[i]) == f(i), "%s: lane %d", what, i);
          };
          eq(v + V(s), [&](int i) { return x[i] + s; }, "+ broadcast");
          eq(V(s) - v, [&](int i) { return s - x[i]; }, "broadcast -");
          eq(v - s, [&](int i) { return x[i] - s; }, "- scalar struct");
          eq(s - v, [&](int i) { return s - x[i]; }, "scalar struct -");
          eq(v * s, [&](int i) { return x[i] * s; }, "* scalar struct");
          eq(s * v, [&](int i) { return s * x[i]; }, "scalar struct *");
          // the member-wise simds as such, on either side
          using B = Pt<std::remove_cvref_t<decltype(V().x)>>;
          const B bv = v, bu = u;
#define OP(op)                                                                                                         \
          eq(v op u, [&](int i) { return x[i] op y[i]; }, #op);                                                        \
          eq(u op v, [&](int i) { return y[i] op x[i]; }, #op " swapped");                                             \
          eq(v op bu, [&](int i) { return x[i] op y[i]; }, #op " with struct of simds");                               \
          eq(bv op u, [&](int i) { return x[i] op y[i]; }, "struct of simds " #op);                                    \
          mc::step(4)
          OP(+); OP(-); OP(*); OP(/); OP(%); OP(&); OP(|); OP(^); OP(<<); OP(>>);
#undef OP
#define OP(op)                                                                                                         \
          {                                                                                                            \
            auto k = v op u;                                                                                           \
            auto l = v op bu;                                                                                          \
            auto m = bv op u;                                                                                          \
            auto n = u op v;                                                                                           \
            for (int i = 0; i < N; ++i)                                                                                \
              {                                                                                                        \
                MC_CHECK(bool(k[i]) == (x[i] op y[i]), #op ": lane %d", i);                                            \
                MC_CHECK(bool(l[i]) == (x[i] op y[i]), #op " with struct of simds: lane %d", i);                       \
                MC_CHECK(bool(m[i]) == (x[i] op y[i]), "struct of simds " #op ": lane %d", i);                         \
                MC_CHECK(bool(n[i]) == (y[i] op x[i]), #op " swapped: lane %d", i);                                    \
              }                                                                                                        \
            mc::step(4);                                                                                               \
          }
          OP(==) OP(!=) OP(<) OP(>) OP(<=) OP(>=)
#undef OP
          mc::step(6);
          mc::ok();
        }
  }

template <typename T>
  void defaults()
  {
    constexpr int w = stdx::native_simd<T>::size();
    static_assert(std::is_same_v<vir::simdize<T>, stdx::simd<T, stdx::simd_abi::deduce_t<T, w>>>);
    static_assert(vir::simdize<T>::size() == w);
    static_assert(vir::simdize<P2<T>>::size() == w);
    static_assert(vir::simdize<P3<T>>::size() == w);
    constexpr int wc = stdx::native_simd<signed char>::size(), wm = w > wc ? w : wc;
    if constexpr (wm <= 32 or sizeof(T) == 1)
      {
        static_assert(vir::simdize<AB<T, signed char>>::size() == wm);
        static_assert(vir::simdize<std::tuple<T, signed char>>::size() == wm);
        static_assert(vir::simdize<std::tuple<signed char, T>>::size() == wm);
      }
    static_assert(vir::simdize_size_v<vir::simdize<T>> == w);
    static_assert(vir::simdize_size_v<T> == 0);
    static_assert(vir::simdize_size_v<std::tuple<stdx::native_simd<T>, stdx::native_simd<T>>> == w);
    static_assert(vir::simdize_size_v<std::tuple<vir::simdize<T, 2>, vir::simdize<T, 3>>> == 0);
    static_assert(std::is_same_v<vir::resize_simdize_t<4, vir::simdize<T>>, vir::simdize<T, 4>>);
    static_assert(std::is_same_v<vir::resize_simdize_t<4, vir::simdize<P2<T>>>, vir::simdize<P2<T>, 4>>);
    mc::context = mc::name_of<T>();
    mc::at("widths");
    mc::step();
    mc::ok();
  }

// Nested structs: leaf values are numbered in declaration order.
template <typename T> struct W1 { P1<T> a; };
template <typename T> struct W2 { P2<T> a; };
template <typename T> struct W3 { P3<T> a; };
template <typename T> struct W4 { P4<T> a; };
template <typename T> struct WW2 { W2<T> a; };
template <typename T> struct N12 { T a; P2<T> b; };
template <typename T> struct N21 { P2<T> a; T b; };
template <typename T> struct N211 { P2<T> a; T b, c; };
template <typename T> struct N22 { P2<T> a; P2<T> b; };
template <typename T> struct N321 { P3<T> a; P2<T> b; T c; };
template <typename T> struct D4 { P2<P2<T>> a; };
template <typename T> struct D14 { short x; P2<P2<T>> a; };
template <typename T> struct D41 { P2<P2<T>> a; T x; };
template <typename T> struct D24 { P2<T> a; P2<P2<T>> b; };
struct NPlain { PlainF a; short b; PlainM c; };

template <typename S> constexpr int leaves()
{
  if constexpr (std::is_arithmetic_v<S>)
    return 1;
  else
    return []<std::size_t... Is>(std::index_sequence<Is...>) { return (leaves<mem_t<Is, S>>() + ...); }(seq<S>);
}
template <typename S, std::size_t I> constexpr int leaf_offset()
{
  return []<std::size_t... Is>(std::index_sequence<Is...>) { return (0 + ... + leaves<mem_t<Is, S>>()); }(std::make_index_sequence<I>());
}
template <typename S> S nmake(long i, int k)
{
  if constexpr (std::is_arithmetic_v<S>)
    return S(i * 7 + k + 1);
  else
    return [&]<std::size_t... Is>(std::index_sequence<Is...>) { return S{nmake<mem_t<Is, S>>(i, k + leaf_offset<S, Is>())...}; }(seq<S>);
}
// number of the first leaf that differs, or -1
template <typename S> int ndiff(const S& x, long i, int k)
{
  if constexpr (std::is_arithmetic_v<S>)
    return x == S(i * 7 + k + 1) ? -1 : k;
  else
    {
      int r = -1;
      [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        ((r = r >= 0 ? r : ndiff(vir::struct_get<Is>(x), i, k + leaf_offset<S, Is>())), ...);
      }(seq<S>);
      return r;
    }
}
template <typename S, typename V> void nlanes(const V& v, const long* first, int k, const char* what)
{
  if constexpr (std::is_arithmetic_v<S>)
    {
      for (long i = 0; i < long(V::size()); ++i)
        MC_CHECK(v[i] == S(first[i] * 7 + k + 1), "%s: leaf %d of lane %ld is %g", what, k, i, mc::num(S(v[i])));
    }
  else if constexpr (requires { v[0]; })
    {
      for (long i = 0; i < long(V::size()); ++i)
        {
          const S e = v[i];
          const int d = ndiff<S>(e, first[i], k);
          MC_CHECK(d < 0, "%s: leaf %d of [%ld]", what, d, i);
        }
      [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        (nlanes<mem_t<Is, S>>(vir::get<Is>(v), first, k + leaf_offset<S, Is>(), what), ...);
      }(seq<S>);
    }
  else          // a nested member of a struct that is vectorized via its template argument: a struct of simds
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
      (nlanes<mem_t<Is, S>>(vir::struct_get<Is>(v), first, k + leaf_offset<S, Is>(), what), ...);
    }(seq<S>);
}
template <typename S, typename V> V nbuild(long first, int k)
{
  if constexpr (std::is_arithmetic_v<S>)
    return V([&](int i) { return S((first + i) * 7 + k + 1); });
  else
    return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
      if constexpr (requires(const V& v) { v[0]; })
        return V(nbuild<mem_t<Is, S>, std::tuple_element_t<Is, V>>(first, k + leaf_offset<S, Is>())...);
      else
        return V{nbuild<mem_t<Is, S>, vir::struct_element_t<Is, V>>(first, k + leaf_offset<S, Is>())...};
    }(seq<S>);
}
template <typename S, int N>
  void nested()
  {
    using V = vir::simdize<S, N>;
    static_assert(V::size() == (N == 0 ? V::size() : N));
    static_assert(std::is_same_v<typename V::value_type, S> and std::tuple_size_v<V> == vir::struct_size_v<S>);
    constexpr long n = V::size();
    mc::context = mc::name_of<S>() + " nested x" + std::to_string(N);
    long up[n], same[n];
    for (long i = 0; i < n; ++i)
      up[i] = 5 + i, same[i] = 3;
    {
      mc::at("broadcast");
      const V b(nmake<S>(3, 0));
      nlanes<S>(b, same, 0, "broadcast");
      mc::at("member-wise construction");
      const V v = nbuild<S, V>(5, 0);
      nlanes<S>(v, up, 0, "member-wise construction");
      V c = v;
      nlanes<S>(c, up, 0, "copy");
      c = b;
      nlanes<S>(c, same, 0, "assignment");
      nlanes<S>(v, up, 0, "original after assignment to its copy");
      mc::step(5);
      mc::ok();
    }
    for (long off = 0; off < 5; ++off)
      {
        mc::at("nested store off", off);
        const V v = nbuild<S, V>(5, 0);
        std::vector<unsigned char> raw((n + 9) * sizeof(S), 0x5a);
        S* o = reinterpret_cast<S*>(raw.data());
        v.copy_to(o + off, stdx::element_aligned);
        for (long i = 0; i < n; ++i)
          {
            const int d = ndiff<S>(o[off + i], 5 + i, 0);
            MC_CHECK(d < 0, "store: leaf %d of element %ld", d, i);
          }
        for (long b = 0; b < long(raw.size()); ++b)
          if (b < off * long(sizeof(S)) or b >= (off + n) * long(sizeof(S)))
            MC_CHECK(raw[b] == 0x5a, "store: byte %ld outside of the stored range changed", b - off * long(sizeof(S)));
        mc::step();
        mc::ok();
        mc::at("nested load off", off);
        std::vector<S> in;
        for (long i = 0; i < n + 9; ++i)
          in.push_back(nmake<S>(i + 5 - off, 0));
        const V l(in.data() + off, stdx::element_aligned);
        nlanes<S>(l, up, 0, "load constructor");
        V m(nmake<S>(0, 0));
        m.copy_from(in.begin() + off);
        nlanes<S>(m, up, 0, "copy_from");
        mc::step(2);
        mc::ok();
      }
  }
template <typename S, int... Ns> void nests() { (nested<S, Ns>(), ...); }

int main()
{
  mc::init();
  using T = VIRMC_T;
  // no transformation
  struct Empty {};
  static_assert(std::is_same_v<vir::simdize<void>, void>);
  static_assert(std::is_same_v<vir::simdize<bool>, bool>);
  static_assert(std::is_same_v<vir::simdize<std::tuple<>>, std::tuple<>>);
  static_assert(std::is_same_v<vir::simdize<Empty>, Empty>);
  static_assert(std::is_same_v<vir::simdize<int*>, int*>);
  static_assert(std::is_same_v<vir::simdize<std::tuple<int, int*>>, std::tuple<int, int*>>);
#if VIRMC_PART == 0
  defaults<T>();
  sizes<P2<T>, 0, 1, 2, 3, 4, 5, 8, 16>();
  sizes<P3<T>, 0, 1, 2, 3, 4, 6, 8, 16>();
#elif VIRMC_PART == 1
  sizes<P1<T>, 0, 1, 4>();
  sizes<P4<T>, 0, 1, 2, 4, 8>();
  sizes<P5<T>, 0, 4>();
  sizes<NT<T, 7>, 0, 4, 8>();
  sizes<std::pair<T, T>, 4>();
  sizes<P2<T>, 32, 7>();
  sizes<P3<T>, 32, 7>();
#elif VIRMC_PART == 2
  sizes<std::tuple<T, T>, 0, 4, 8>();
  sizes<std::tuple<T, T, T>, 0, 4, 8>();
  sizes<std::tuple<T, short>, 0, 8>();
  sizes<std::tuple<T, int, char>, 0, 4>();
  sizes<AB<T, int>, 0, 1, 2, 4, 8, 16>();
  sizes<AB<char, T>, 0, 4, 8>();
  sizes<AB<T, char>, 4, 8>();
#elif VIRMC_PART == 3
  sizes<BA<T, int>, 0, 4, 8>();
  sizes<BA<short, T>, 0, 4, 8>();
  sizes<ABC<T, int, unsigned>, 0, 2, 4, 8, 16>();
  sizes<ABC<int, T, int>, 0, 4, 8, 16>();
  sizes<ABC<float, float, T>, 0, 4, 8>();
  sizes<ABC<short, unsigned short, T>, 0, 4, 8, 16>();
#elif VIRMC_PART == 4
  sizes<PlainF, 0, 1, 2, 4, 8, 16>();
  sizes<PlainM, 0, 1, 4, 8>();
  sizes<PlainC, 0, 4>();
  sizes<Plain1, 0, 4>();
  operators<T, 4>();
  operators<T, 8>();
  operators<T, 3>();
  operators<T, 1>();
#elif VIRMC_PART == 5
  nests<W1<T>, 0, 1, 2, 4, 8>();
  nests<W2<T>, 0, 1, 2, 3, 4, 8, 16>();
  nests<W3<T>, 0, 1, 2, 3, 4, 8, 16>();
  nests<W4<T>, 0, 4>();
  nests<WW2<T>, 0, 2, 4, 8>();
  nests<N12<T>, 0, 1, 3, 4, 8>();
  nests<N21<T>, 0, 1, 3, 4, 8>();
  nests<N211<T>, 0, 2, 4>();
  nests<N22<T>, 0, 2, 4>();
  nests<N321<T>, 0, 4>();
  nests<std::tuple<std::tuple<T, short>, T>, 4, 8>();
  nests<std::tuple<T, P2<short>, std::tuple<T, T>>, 4, 8>();
  nests<NPlain, 4, 8>();
#elif VIRMC_PART == 6
  sizes<P1<T>, 4>();
  sizes<P2<T>, 0, 3>();
  sizes<P3<T>, 4>();
  sizes<std::tuple<T, T>, 4>();
  sizes<std::pair<T, short>, 8>();
#elif VIRMC_PART == 7
  sizes<AB<T, int>, 4>();
  sizes<std::tuple<T, int, char>, 4>();
  sizes<PlainF, 0, 1>();
  sizes<PlainM, 8>();
  sizes<P4<T>, 4>();
#elif VIRMC_PART == 8
  nests<D4<T>, 4>();
  nests<D14<T>, 4>();
#elif VIRMC_PART == 9
  nests<D41<T>, 4>();
  nests<D24<T>, 4>();
#endif
  return mc::finish();
}

// C10 (types): the space of struct types over a set of leaf types: every tuple, pair and aggregate of one to three leaves and
// every nesting of two of them, with the type simdize makes of each: which types count as vectorizable, the width, the number
// and types of the members, and simdize_size of every combination of member widths.
#include "mc.h"
#include <vir/simd.h>
#include <vir/simdize.h>
#include <tuple>
#include <utility>
namespace stdx = vir::stdx;
#ifndef VIRMC_PART
#define VIRMC_PART 0
#endif
inline void expect(bool x, const char* what) { if (not x) mc::fail("%s", what); }

template <typename A> struct S1 { A a; };
template <typename A, typename B> struct S2 { A a; B b; };
template <typename A, typename B, typename C> struct S3 { A a; B b; C c; };
template <typename A, typename B> struct S2r { B b; A a; };         // members not in the order of the template arguments
template <typename A> struct Dup { A a; A b; };
enum class Enum { e };

template <typename T> struct leaves;           // number of leaves, all vectorizable?, widest native simd
template <typename T> constexpr bool good()
{ return std::is_arithmetic_v<T> and not std::is_same_v<T, bool>; }
template <typename T> struct leaves
{
  static constexpr bool ok = good<T>();
  static constexpr int width = [] { if constexpr (good<T>()) return int(stdx::native_simd<T>::size()); else return 0; }();
  static constexpr bool fits(int w)             // (whether there is a simd of this many elements)
  { if constexpr (good<T>()) return w <= int(stdx::simd_abi::max_fixed_size<T>) or w == width; else return false; }
};
template <typename... Ts> struct many
{
  static constexpr bool ok = (leaves<Ts>::ok and ...);
  static constexpr int width = std::max({leaves<Ts>::width...});
  static constexpr bool fits(int w) { return (leaves<Ts>::fits(w) and ...); }
};
template <typename A> struct leaves<S1<A>> : many<A> {};
template <typename A> struct leaves<Dup<A>> : many<A, A> {};
template <typename A, typename B> struct leaves<S2<A, B>> : many<A, B> {};
template <typename A, typename B> struct leaves<S2r<A, B>> : many<A, B> {};
template <typename A, typename B, typename C> struct leaves<S3<A, B, C>> : many<A, B, C> {};
template <typename A, typename B> struct leaves<std::pair<A, B>> : many<A, B> {};
template <typename... Ts> struct leaves<std::tuple<Ts...>> : many<Ts...> {};

template <typename T> concept complete = requires { sizeof(T); };

template <typename S, int N>
  void one()
  {
    using L = leaves<S>;
    constexpr int w = N == 0 ? L::width : N;
    mc::at("type", N);
    if constexpr (L::ok)
      {
        if constexpr (L::fits(w))
          {
            using V = vir::simdize<S, N>;
            expect(not std::is_same_v<V, S>, "simdize leaves a vectorizable struct as it is");
            if constexpr (not std::is_same_v<V, S>)
              {
                expect(V::size() == w, "simdize<S, N>::size()");
                expect(std::is_same_v<typename V::value_type, S>, "value_type");
                expect(std::is_same_v<vir::resize_simdize_t<w, V>, V>, "resize_simdize_t to the same size");
                expect(std::is_same_v<vir::resize_simdize_t<1, V>, vir::simdize<S, 1>>, "resize_simdize_t to 1");
                constexpr std::size_t n = vir::struct_size_v<S>;
                expect(std::tuple_size_v<V> == n, "tuple_size");
                if constexpr (std::tuple_size_v<V> == n)
                  [&]<std::size_t... I>(std::index_sequence<I...>) {
                    ([&] {
                      using M = vir::struct_element_t<I, S>;
                      using E = std::tuple_element_t<I, V>;
                      mc::at("member", N, int(I));
                      expect(vir::simdize_size_v<E> == w, "width of a member");
                      if constexpr (good<M>())
                        {
                          expect(stdx::is_simd_v<E>, "a leaf is not a simd");
                          expect(std::is_same_v<E, vir::simdize<M, w>>, "type of a member");
                        }
                      mc::step();
                    }(), ...);
                  }(std::make_index_sequence<n>());
              }
          }
      }
    else if constexpr (N == 0)
      expect(std::is_same_v<vir::simdize<S>, S>, "simdize of a type that cannot be vectorized is another type");
    mc::step();
    mc::ok();
  }

template <typename S>
  void type()
  {
    mc::context = mc::name_of<S>();
    mc::at("concepts");
    expect(vir::vectorizable_struct<S> == leaves<S>::ok, "vectorizable_struct");
    expect(not vir::vectorizable_struct_template<S> or leaves<S>::ok, "vectorizable_struct_template without vectorizable members");
    expect(vir::simdize_size_v<S> == 0, "simdize_size of a struct without simds");
    mc::step(3);
    mc::ok();
    one<S, 0>();
    one<S, 1>();
    one<S, 2>();
    one<S, 4>();
  }

template <typename... Ts> struct list {};
template <typename F, typename... Ts> void each(list<Ts...>, F&& f) { (f.template operator()<Ts>(), ...); }

// simdize_size: width w of a leaf (0: not a simd)
template <typename T, int W> struct of_width { using type = stdx::fixed_size_simd<T, W>; };
template <typename T> struct of_width<T, 0> { using type = T; };
template <typename T, int W> using wid = typename of_width<T, W>::type;
constexpr int common(std::initializer_list<int> l) { for (int x : l) if (x != *l.begin()) return 0; return *l.begin(); }
template <int A, int B, int C>
  void widths()
  {
    using a = wid<float, A>; using b = wid<short, B>; using c = wid<double, C>;
    mc::at("simdize_size", A, B, C);
    constexpr int ab = common({A, B}), abc = common({A, B, C}), bc = common({B, C});
    expect(vir::simdize_size_v<std::tuple<a, b, c>> == abc, "tuple of three");
    expect(vir::simdize_size_v<S3<a, b, c>> == abc, "struct of three");
    expect(vir::simdize_size_v<std::tuple<std::tuple<a, b>, c>> == common({ab, C}), "tuple in a tuple, first");
    expect(vir::simdize_size_v<S2<a, std::pair<b, c>>> == common({A, bc}), "pair in a struct, last");
    expect(vir::simdize_size_v<S1<S1<std::tuple<a, b, c>>>> == abc, "nested twice");
    expect(vir::simdize_size_v<S2<a, b>> == ab and vir::simdize_size_v<std::pair<a, b>> == ab, "two");
    expect(vir::simdize_size_v<a> == A and vir::simdize_size_v<S1<a>> == A, "one");
    mc::step(7);
    mc::ok();
  }

int main()
{
  mc::init();
#if VIRMC_PART == 0
  using Leaves = list<float, signed char, double, bool, int*, Enum>;
  each(Leaves(), []<typename A>() {
    type<std::tuple<A>>();
    type<S1<A>>();
    type<Dup<A>>();
    type<S1<S1<A>>>();
    type<std::tuple<std::tuple<std::tuple<A>>>>();
    each(Leaves(), []<typename B>() {
      type<std::pair<A, B>>();
      type<std::tuple<A, B>>();
      type<S2<A, B>>();
      type<S2r<A, B>>();
    });
  });
#elif VIRMC_PART == 1
  using Leaves = list<float, short, bool>;
  each(Leaves(), []<typename A>() { each(Leaves(), []<typename B>() { each(Leaves(), []<typename C>() {
    type<std::tuple<A, B, C>>();
    type<S3<A, B, C>>();
    type<S2<A, S2<B, C>>>();
    type<S2<std::pair<A, B>, C>>();
    type<std::tuple<S1<A>, std::tuple<B, C>>>();
    type<std::pair<S2r<A, B>, S1<C>>>();
    type<S1<S3<A, B, C>>>();
  }); }); });
#elif VIRMC_PART == 2
  []<int... I>(std::integer_sequence<int, I...>) {
    constexpr int w[] = {0, 1, 2, 3};
    (widths<w[I % 4], w[I / 4 % 4], w[I / 16]>(), ...);
  }(std::make_integer_sequence<int, 64>());
#endif
  return mc::finish();
}

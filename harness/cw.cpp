// C15: constexpr_wrapper: an operation on wrapped constants yields the wrapped result of the operation on the values;
// with an operand that is no constant it is the operation on the values.
#include "mc.h"
#include <vir/constexpr_wrapper.h>
#include <array>
#include <memory>
using vir::cw;
template <auto> struct constant {};
template <auto X> struct Derived : vir::constexpr_wrapper<X> {};

template <auto Want, typename Got> constexpr bool is_wrapped
  = std::is_same_v<std::remove_cv_t<Got>, vir::constexpr_wrapper<Want>>
      and std::is_same_v<typename Got::value_type, std::remove_const_t<decltype(Want)>>
      and Got::value == Want;

#define BINOPS(X) X(+, plus) X(-, minus) X(*, times) X(/, over) X(%, mod) X(&, band) X(|, bor) X(^, bxor) X(&&, land)   \
  X(||, lor) X(<<, shl) X(>>, shr) X(==, eq) X(!=, ne) X(<, lt) X(<=, le) X(>, gt) X(>=, ge)

#define X(op, name)                                                                                                    \
  template <auto A, auto B> void name##_()                                                                             \
  {                                                                                                                    \
    if constexpr (requires { typename constant<(A op B)>; })                                                           \
      {                                                                                                                \
        mc::at("binary " #op, A, B);                                                                                   \
        constexpr auto want = (A op B);                                                                                \
        using W = std::integral_constant<decltype(B), B>;                                                              \
        using V = std::integral_constant<decltype(A), A>;                                                              \
        MC_CHECK((is_wrapped<(A op B), decltype(cw<A> op cw<B>)>), "cw " #op " cw");                                   \
        MC_CHECK((is_wrapped<(A op B), decltype(cw<A> op W())>), "cw " #op " integral_constant");                      \
        MC_CHECK((is_wrapped<(A op B), decltype(V() op cw<B>)>), "integral_constant " #op " cw");                      \
        MC_CHECK((is_wrapped<(A op B), decltype(Derived<A>() op cw<B>)>), "derived " #op " cw");                       \
        MC_CHECK((is_wrapped<(A op B), decltype(cw<A> op Derived<B>())>), "cw " #op " derived");                       \
        MC_CHECK((is_wrapped<(A op B), decltype(Derived<A>() op Derived<B>())>), "derived " #op " derived");           \
        auto a = A;                                                                                                    \
        auto b = B;                                                                                                    \
        MC_CHECK((std::is_same_v<decltype(cw<A> op b), decltype(A op b)>) and (cw<A> op b) == want, "cw " #op " value"); \
        MC_CHECK((std::is_same_v<decltype(a op cw<B>), decltype(a op B)>) and (a op cw<B>) == want, "value " #op " cw"); \
        mc::step(8);                                                                                                   \
        mc::ok();                                                                                                      \
      }                                                                                                                \
  }
BINOPS(X)
#undef X
template <auto A, auto B> void binary()
{
#define X(op, name) name##_<A, B>();
  BINOPS(X)
#undef X
  mc::at("binary ,", A, B);
  MC_CHECK((is_wrapped<B, decltype((cw<A>, cw<B>))>), "comma");
  mc::ok();
}

template <auto A> void unary()
{
#define U(op)                                                                                                          \
  if constexpr (requires { typename constant<(op A)>; })                                                               \
    {                                                                                                                  \
      mc::at("unary " #op, A);                                                                                         \
      MC_CHECK((is_wrapped<(op A), decltype(op cw<A>)>), "%s cw", #op);                                                \
      MC_CHECK((is_wrapped<(op A), decltype(op Derived<A>())>), "%s derived", #op);                                    \
      mc::step(2);                                                                                                     \
      mc::ok();                                                                                                        \
    }
  U(+) U(-) U(~) U(!)
#undef U
  mc::at("conversions", A);
  using T = std::remove_const_t<decltype(A)>;
  static_assert(std::is_same_v<decltype(vir::cw<A>), const vir::constexpr_wrapper<A>>);
  static_assert(std::is_same_v<typename vir::constexpr_wrapper<A>::type, vir::constexpr_wrapper<A>>);
  static_assert(std::is_empty_v<vir::constexpr_wrapper<A>>);
  static_assert(std::is_convertible_v<vir::constexpr_wrapper<A>, T>);
  const T x = cw<A>;
  MC_CHECK(x == A and cw<A>.value == A and cw<A>() == A and *cw<A>.operator->() == A, "value");
  static_assert(std::is_same_v<decltype(cw<A>()), T>);
  static_assert(vir::constexpr_value<vir::constexpr_wrapper<A>>);
  static_assert(vir::constexpr_value<vir::constexpr_wrapper<A>, T>);
  static_assert(vir::constexpr_value<vir::constexpr_wrapper<A>, long>);
  static_assert(not vir::constexpr_value<vir::constexpr_wrapper<A>, void*> or std::is_same_v<T, int*>);
  static_assert(vir::constexpr_value<std::integral_constant<T, A>>);
  static_assert(not vir::constexpr_value<T>);
  mc::step(4);
  mc::ok();
}

template <auto... As> struct list {};
template <auto A, auto... Bs> void against(list<Bs...>) { (binary<A, Bs>(), ...); unary<A>(); }
template <auto... As, typename L> void cross(list<As...>, L l) { (against<As>(l), ...); }

// a type with every operator, all different
struct Ops
{
  int v = 0;
  bool operator==(const Ops&) const = default;
  constexpr int operator=(int x) const { return v * 1000 + x * 16; }
  constexpr int operator+=(int x) const { return v * 1000 + x * 16 + 1; }
  constexpr int operator-=(int x) const { return v * 1000 + x * 16 + 2; }
  constexpr int operator*=(int x) const { return v * 1000 + x * 16 + 3; }
  constexpr int operator/=(int x) const { return v * 1000 + x * 16 + 4; }
  constexpr int operator%=(int x) const { return v * 1000 + x * 16 + 5; }
  constexpr int operator&=(int x) const { return v * 1000 + x * 16 + 6; }
  constexpr int operator|=(int x) const { return v * 1000 + x * 16 + 7; }
  constexpr int operator^=(int x) const { return v * 1000 + x * 16 + 8; }
  constexpr int operator<<=(int x) const { return v * 1000 + x * 16 + 9; }
  constexpr int operator>>=(int x) const { return v * 1000 + x * 16 + 10; }
  constexpr int operator->*(int x) const { return v * 1000 + x * 16 + 11; }
  constexpr int operator,(int x) const { return v * 1000 + x * 16 + 12; }
  constexpr int operator++() const { return v * 4 + 1; }
  constexpr int operator++(int) const { return v * 4 + 2; }
  constexpr int operator--() const { return v * 4 + 3; }
  constexpr int operator--(int) const { return v * 4 + 4; }
  constexpr int operator*() const { return v * 4 + 5; }
  constexpr int operator&() const { return v * 4 + 6; }
  constexpr int operator()(int a, int b) const { return v * 100 + a * 10 + b; }
  constexpr int operator()(int a) const { return v * 100 + a * 10 + 1; }
  constexpr int operator()() const { return v * 100 + 7; }
  constexpr int operator[](int a) const { return v * 100 + a + 3; }
  constexpr int get() const { return v; }
};
template <int V, int B> void ops()
{
  constexpr Ops a{V};
  auto c = cw<Ops{V}>;
  auto b = cw<B>;
#define A(op)                                                                                                          \
  mc::at("assignment " #op, V, B);                                                                                     \
  MC_CHECK((is_wrapped<(a op B), decltype(c op b)>), "cw " #op " cw");                                                 \
  mc::ok();
  A(=) A(+=) A(-=) A(*=) A(/=) A(%=) A(&=) A(|=) A(^=) A(<<=) A(>>=) A(->*)
#undef A
  mc::at("comma", V, B);
  MC_CHECK((is_wrapped<(a, B), decltype((c, b))>), "cw , cw");
  mc::ok();
  mc::at("unary", V);
  MC_CHECK((is_wrapped<V * 4 + 1, decltype(++c)>), "++ prefix");
  MC_CHECK((is_wrapped<V * 4 + 2, decltype(c++)>), "++ postfix");
  MC_CHECK((is_wrapped<V * 4 + 3, decltype(--c)>), "-- prefix");
  MC_CHECK((is_wrapped<V * 4 + 4, decltype(c--)>), "-- postfix");
  MC_CHECK((is_wrapped<V * 4 + 5, decltype(*c)>), "dereference");
  MC_CHECK((is_wrapped<V * 4 + 6, decltype(&c)>), "address-of");
  MC_CHECK(c->get() == V and c->v == V, "->");
  mc::step(7);
  mc::ok();
  mc::at("call, subscript", V, B);
  MC_CHECK((is_wrapped<V * 100 + B * 10 + 4, decltype(c(b, cw<4>))>), "call with constants");
  MC_CHECK((is_wrapped<V * 100 + 40 + B, decltype(c(cw<4>, b))>), "call with constants, swapped");
  MC_CHECK((is_wrapped<V * 100 + B * 10 + 1, decltype(c(b))>), "call with a constant");
  int rb = B, r4 = 4;
  MC_CHECK((std::is_same_v<decltype(c(rb, cw<4>)), int>) and c(rb, cw<4>) == V * 100 + B * 10 + 4, "call value, constant");
  MC_CHECK((std::is_same_v<decltype(c(cw<4>, rb)), int>) and c(cw<4>, rb) == V * 100 + 40 + B, "call constant, value");
  MC_CHECK(c(rb, r4) == V * 100 + B * 10 + 4, "call values");
  MC_CHECK((is_wrapped<V * 100 + 7, decltype(c())>) or (std::is_same_v<decltype(c()), int>), "call");
  MC_CHECK(c() == V * 100 + 7, "call without arguments");
  MC_CHECK((is_wrapped<V * 100 + B + 3, decltype(c[b])>), "subscript with a constant");
  MC_CHECK((std::is_same_v<decltype(c[rb]), int>) and c[rb] == V * 100 + B + 3, "subscript with a value");
  mc::step(10);
  mc::ok();
}

struct HasArrow
{
  static constexpr int target[2] = {5, 6};
  int which = 0;
  struct T { int x; };
  static constexpr T t[2] = {{50}, {60}};
  constexpr const T* operator->() const { return &t[which]; }
};
struct Adl { int v; friend constexpr int operator+(Adl a, Adl b) { return a.v * 10 + b.v; } constexpr Adl(int x) : v(x) {} bool operator==(const Adl&) const = default; };

int main()
{
  mc::init();
  using I = list<-7, -3, -1, 0, 1, 2, 3, 5, 31, 2147483647, -2147483647 - 1>;
#if VIRMC_PART == 0
  mc::context = "int";
  cross(I(), I());
#elif VIRMC_PART == 1
  mc::context = "unsigned, short, char";
  cross(list<0u, 1u, 2u, 7u, 31u, 4294967295u>(), list<0u, 1u, 3u, 4294967295u>());
  cross(list<short(-3), short(0), short(2), short(32767)>(), list<short(-1), short(0), short(3)>());
  cross(list<'\0', '\1', 'a', '\x7f'>(), list<'\0', '\2', 'b'>());
  cross(list<false, true>(), list<false, true>());
#elif VIRMC_PART == 2
  mc::context = "mixed types";
  cross(list<-3, 0, 1, 2147483647>(), list<0u, 2u, 4294967295u>());
  cross(list<0u, 3u>(), list<-1, 0, 2>());
  cross(list<-5l, 0l, 3l>(), list<-1, 2, 2147483647>());
  cross(list<1ul, 9ul, ~0ul>(), list<-1, 0, 2>());
  cross(list<short(3), short(-2)>(), list<'a', '\1'>());
  cross(list<true>(), list<-1, 0, 3>());
#ifndef __clang__
  mc::context = "floating point";
  cross(list<0., 1.5, -2.25, 1e300>(), list<0., 2., -0.5>());
  cross(list<1.f, 3.f>(), list<2, -1>());
  cross(list<3, 5>(), list<2., .5>());
#endif
#else
  mc::context = "class types";
  ops<0, 0>(); ops<0, 1>(); ops<1, 2>(); ops<3, -1>(); ops<-2, 3>(); ops<7, 15>();
  mc::at("arrow");
  static_assert(cw<HasArrow{0}>->x == 50 and cw<HasArrow{1}>->x == 60);
  static_assert(is_wrapped<12, decltype(cw<Adl(1)> + cw<2>)> and is_wrapped<21, decltype(cw<2> + cw<Adl(1)>)>);
  static_assert(std::is_same_v<decltype(cw<Adl(1)> + 2), int> and (cw<Adl(1)> + 2) == 12 and (2 + cw<Adl(1)>) == 21);
  static constexpr int arr[3] = {4, 5, 6};
#ifdef __clang__ // g++ 13 computes the wrong default template argument
  static_assert(is_wrapped<5, decltype(*cw<&arr[1]>)>);
  static_assert(is_wrapped<6, decltype(cw<&arr[0]>[cw<2>])>);
#endif
  static_assert(is_wrapped<(&arr[0] + 2), decltype(cw<&arr[0]> + cw<2>)>);
  static_assert(cw<&arr[0]>[1] == 5);
  constexpr std::array<int, 3> sa{7, 8, 9};
  static_assert(is_wrapped<8, decltype(cw<sa>[cw<1>])> and cw<sa>[2] == 9);
  static_assert(cw<sa>->size() == 3);
  static_assert(is_wrapped<42, decltype(cw<[](int a, int b) { return a * b; }>(cw<6>, cw<7>))>);
  static_assert(is_wrapped<(std::array<int, 3>{7, 8, 9} == sa), decltype(cw<sa> == cw<std::array<int, 3>{7, 8, 9}>)>);
  mc::step(10);
  mc::ok();
#endif
  return mc::finish();
}

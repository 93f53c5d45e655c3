// C11: checks shared by the generated reflection harness (mc/gen.py emits the structs).
#pragma once
#include "mc.h"
#include <vir/struct_reflect.h>
#include <array>
#include <concepts>
#include <memory>
#include <tuple>
#include <utility>

struct Inner { int a; float b; };
struct Nested { Inner i; char c; };
enum class E : short { zero, one };
using Arr = std::array<short, 2>;
using Pair = std::pair<int, char>;
inline bool operator==(const Inner& x, const Inner& y) { return x.a == y.a and x.b == y.b; }
inline bool operator==(const Nested& x, const Nested& y) { return x.i == y.i and x.c == y.c; }

template <typename T> constexpr T value(int k)
{
  if constexpr (std::is_same_v<T, Inner>) return {k, float(k) / 2};
  else if constexpr (std::is_same_v<T, Nested>) return {{k, float(k) / 2}, char(k)};
  else if constexpr (std::is_same_v<T, Arr>) return Arr{short(k), short(k + 1)};
  else if constexpr (std::is_same_v<T, Pair>) return Pair(k, char(k + 1));
  else if constexpr (std::is_same_v<T, bool>) return k % 2 == 0;
  else if constexpr (std::is_pointer_v<T>) return T(nullptr);
  else return T(k);
}

template <typename S, typename... Ms>
  struct Want
  {
    static constexpr std::size_t n = sizeof...(Ms);
    using Tup = std::tuple<Ms...>;
    using Refs = std::tuple<Ms&...>;
    using CRefs = std::tuple<const Ms&...>;
    using Is = std::make_index_sequence<n>;

    static void size()
    {
      mc::at("size members", n);
      static_assert(vir::reflectable_struct<S>);
      static_assert(vir::reflectable_struct<const S>);
      static_assert(vir::reflectable_struct<S&>);
      static_assert(vir::reflectable_struct<const S&>);
      MC_CHECK(vir::struct_size_v<S> == n, "number of members is %d, expected %d", int(vir::struct_size_v<S>), int(n));
      mc::step();
      mc::ok();
    }
    // ptrs: the members' addresses in declaration order
    static void get(S& s, const void* const (&ptrs)[n + 1])
    {
      size();
      [&]<std::size_t... I>(std::index_sequence<I...>) {
        (([&] {
          mc::at("struct_get index", I);
          using M = std::tuple_element_t<I, Tup>;
          static_assert(std::is_same_v<decltype(vir::struct_get<I>(s)), M&>);
          static_assert(std::is_same_v<decltype(vir::struct_get<I>(std::as_const(s))), const M&>);
          static_assert(std::is_same_v<vir::struct_element_t<I, S>, M>);
          static_assert(std::is_same_v<typename vir::struct_element<I, S>::type, M>);
          static_assert(std::is_same_v<vir::struct_element_t<I, const S>, const M>);
          MC_CHECK(std::addressof(vir::struct_get<I>(s)) == ptrs[I], "refers to another member");
          MC_CHECK(std::addressof(vir::struct_get<I>(std::as_const(s))) == ptrs[I], "const: refers to another member");
          MC_CHECK(std::addressof(vir::struct_get<I>(std::move(s))) == ptrs[I], "rvalue: refers to another member");
          mc::step(3);
          mc::ok();
        }()), ...);
      }(Is());
    }
    static void tuples(S& s, const void* const (&ptrs)[n + 1], auto&& equal)
    {
      [&]<std::size_t... I>(std::index_sequence<I...>) {
        mc::at("to_tuple_ref, to_tuple members", n);
        auto r = vir::to_tuple_ref(s);
        auto cr = vir::to_tuple_ref(std::as_const(s));
        static_assert(std::is_same_v<decltype(r), Refs>);
        static_assert(std::is_same_v<decltype(cr), CRefs>);
        (MC_CHECK(std::addressof(std::get<I>(r)) == ptrs[I], "to_tuple_ref: element %d refers to another member", int(I)), ...);
        (MC_CHECK(std::addressof(std::get<I>(cr)) == ptrs[I], "to_tuple_ref const: element %d refers to another member", int(I)), ...);
        auto t = vir::to_tuple(s);
        auto ct = vir::to_tuple(std::as_const(s));
        static_assert(std::is_same_v<decltype(t), Tup>);
        static_assert(std::is_same_v<decltype(ct), Tup>);
        (MC_CHECK((std::get<I>(t) == *static_cast<const std::tuple_element_t<I, Tup>*>(ptrs[I])), "to_tuple: element %d", int(I)), ...);
        (MC_CHECK((std::get<I>(ct) == *static_cast<const std::tuple_element_t<I, Tup>*>(ptrs[I])), "to_tuple const: element %d", int(I)), ...);
        (MC_CHECK((std::get<I>(vir::to_tuple(S(s))) == *static_cast<const std::tuple_element_t<I, Tup>*>(ptrs[I])), "to_tuple rvalue: element %d", int(I)), ...);
        static_assert(std::is_same_v<vir::as_tuple_t<S>, Tup>);
        static_assert(std::is_same_v<vir::as_tuple_t<const S>, const Tup>);
        static_assert(std::is_same_v<vir::as_tuple_t<S&>, Tup&>);
        static_assert(std::is_same_v<vir::as_tuple_t<const S&>, const Tup&>);
        static_assert(std::is_same_v<vir::as_tuple_t<S&&>, Tup&&>);
        // a copy stays as it was when the object changes
        if constexpr (n > 0 and (std::is_move_assignable_v<Ms> and ...))
          {
            auto before = vir::to_tuple(s);
            ((std::get<I>(r) = value<std::tuple_element_t<I, Tup>>(101 + I)), ...);
            (MC_CHECK((*static_cast<const std::tuple_element_t<I, Tup>*>(ptrs[I]) == value<std::tuple_element_t<I, Tup>>(101 + I)),
                      "write through to_tuple_ref: element %d", int(I)), ...);
            MC_CHECK(before == t, "the copy changed with the object");
          }
        mc::step(7);
        mc::ok();
      }(Is());
      if constexpr (n == 2)
        {
          mc::at("to_pair_ref, to_pair");
          using A = std::tuple_element_t<0, Tup>;
          using B = std::tuple_element_t<n - 1, Tup>;
          auto r = vir::to_pair_ref(s);
          auto cr = vir::to_pair_ref(std::as_const(s));
          static_assert(std::is_same_v<decltype(r), std::pair<A&, B&>>);
          static_assert(std::is_same_v<decltype(cr), std::pair<const A&, const B&>>);
          MC_CHECK(std::addressof(r.first) == ptrs[0] and std::addressof(r.second) == ptrs[1], "to_pair_ref");
          MC_CHECK(std::addressof(cr.first) == ptrs[0] and std::addressof(cr.second) == ptrs[1], "to_pair_ref const");
          auto p = vir::to_pair(s);
          auto cp = vir::to_pair(std::as_const(s));
          static_assert(std::is_same_v<decltype(p), std::pair<A, B>>);
          static_assert(std::is_same_v<decltype(cp), std::pair<A, B>>);
          MC_CHECK(p.first == *static_cast<const A*>(ptrs[0]) and p.second == *static_cast<const B*>(ptrs[1]), "to_pair");
          MC_CHECK(cp == p, "to_pair const");
          static_assert(std::is_same_v<vir::as_pair_t<S>, std::pair<A, B>>);
          static_assert(std::is_same_v<vir::as_pair_t<const S>, const std::pair<A, B>>);
          static_assert(std::is_same_v<vir::as_pair_t<S&>, std::pair<A, B>&>);
          static_assert(std::is_same_v<vir::as_pair_t<const S&>, const std::pair<A, B>&>);
          mc::step(4);
          mc::ok();
        }
    }
  };
template <typename S> concept pairable = requires(S s) { vir::to_pair(s); };
template <typename S> concept pair_ref_able = requires(S s) { vir::to_pair_ref(s); };
template <std::size_t I, typename S> concept gettable = requires(S s) { vir::struct_get<I>(s); };

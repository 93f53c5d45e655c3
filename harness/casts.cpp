// C22: conversions keep every value, never change the number of elements, and are implicit only where value-preserving.
#include "vals.h"
#include "masks.h"
#include <vir/simd.h>
#include <vir/simd_cvt.h>
#if __cplusplus >= 202002L and not VIR_HAVE_SIMD_CVT
#error "vir::cvt is missing"
#endif
#include <vir/simd_cast.h>
#ifndef VIRMC_T
#define VIRMC_T float
#endif
namespace stdx = vir::stdx;
using From = VIRMC_T;
#ifdef VIR_DISABLE_STDX_SIMD
constexpr bool fallback = true;
#else
constexpr bool fallback = false;
#endif

// ---- the oracle: which conversions keep every value -------------------------------------------------------------
template <typename T> constexpr int rank()
{
  if (std::is_same_v<T, bool>) return 0;
  if (sizeof(T) == 1) return 1;
  if (std::is_same_v<T, short> or std::is_same_v<T, unsigned short> or std::is_same_v<T, char16_t>) return 2;
  if (std::is_same_v<T, int> or std::is_same_v<T, unsigned> or std::is_same_v<T, wchar_t> or std::is_same_v<T, char32_t>) return 3;
  if (std::is_same_v<T, long> or std::is_same_v<T, unsigned long>) return 4;
  return 5;
}
template <typename T> constexpr bool character()
{
#ifdef __cpp_char8_t
  if (std::is_same_v<T, char8_t>)
    return true;
#endif
  return std::is_same_v<T, wchar_t> or std::is_same_v<T, char16_t> or std::is_same_v<T, char32_t>;
}
template <typename U, typename T> constexpr bool keeps_values()
{
  using LU = std::numeric_limits<U>;
  using LT = std::numeric_limits<T>;
  if constexpr (std::is_same_v<U, T>)
    return true;
  else if constexpr (std::is_integral_v<U> and std::is_integral_v<T>)
    return LU::is_signed ? LT::is_signed and sizeof(U) <= sizeof(T) : LU::digits <= LT::digits;
  else if constexpr (std::is_integral_v<U>)
    return LU::digits <= LT::digits;
  else if constexpr (std::is_integral_v<T>)
    return false;
  else
    return sizeof(U) <= sizeof(T);
}
template <typename U, typename T> constexpr bool implicit_simd()
{ return keeps_values<U, T>() and (std::is_same_v<U, T> or not std::is_integral_v<U> or not std::is_integral_v<T> or rank<T>() > rank<U>()); }
template <typename U, typename T> constexpr bool implicit_broadcast()
{ return keeps_values<U, T>() or std::is_same_v<U, int> or (std::is_same_v<U, unsigned> and std::is_unsigned_v<T>); }

template <typename To, typename F>
  bool conv_ok(F x)
  {
    if constexpr (std::is_floating_point_v<F> and std::is_integral_v<To>)
      return x == x and x > static_cast<long double>(std::numeric_limits<To>::min()) - 1
               and x < static_cast<long double>(std::numeric_limits<To>::max()) + 1
               and (sizeof(To) < 8 or (x > -9e18L and x < 9e18L and (std::is_signed_v<To> or x > -1)));
    else if constexpr (std::is_floating_point_v<F> and std::is_floating_point_v<To> and sizeof(To) < sizeof(F))
      return x != x or x - x != 0 or (x <= std::numeric_limits<To>::max() and x >= std::numeric_limits<To>::lowest());
    else
      return true;
  }

MC_DETECT2(can_static, To, V, stdx::static_simd_cast<To>(std::declval<const V&>()))
MC_DETECT2(can_vir_static, To, V, vir::static_simd_cast<To>(std::declval<const V&>()))
MC_DETECT2(can_simd_cast, To, V, stdx::simd_cast<To>(std::declval<const V&>()))
MC_DETECT1(can_to_native, V, stdx::to_native(std::declval<const V&>()))
MC_DETECT1(can_to_compatible, V, stdx::to_compatible(std::declval<const V&>()))
MC_DETECT2(can_add, V, X, std::declval<const V&>() + std::declval<const X&>())

template <typename R, typename V>
  void expect(const char* what, const R& r, const V& v)
  {
    using To = typename R::value_type;
    static_assert(R::size() == V::size());
    for (int i = 0; i < int(V::size()); ++i)
      {
        const To w = static_cast<To>(v[i]);
        MC_CHECK(mc::same_value<To>(r[i], w), "%s: element %d is %g, expected %g", what, i, mc::num(To(r[i])), mc::num(w));
      }
    mc::step();
  }

template <typename A, typename To>
  void pair()
  {
    using V = stdx::simd<From, A>;
    using R = stdx::simd<To, A>;
    constexpr int N = V::size();
    constexpr bool fixed = std::is_same_v<A, stdx::simd_abi::fixed_size<N>>;
    mc::context = mc::name_of<V>() + " -> " + mc::name_of<To>();
    // availability
    mc::at("constraints", N);
    if constexpr (fallback)
      {
       // (between the character types and the integer of the same rank the library follows libstdc++, not the TS: not promised)
       constexpr bool odd = rank<From>() == rank<To>() and not std::is_same_v<From, To> and (character<From>() or character<To>());
       if constexpr (not odd)
        static_assert(std::is_convertible_v<V, R> == (std::is_same_v<From, To> or (fixed and implicit_simd<From, To>())));
        static_assert(std::is_constructible_v<R, V> == std::is_convertible_v<V, R>);
        static_assert(std::is_convertible_v<From, R> == implicit_broadcast<From, To>());
        static_assert(can_static<To, V> and can_static<R, V> and can_vir_static<To, V> and can_vir_static<R, V>);
        static_assert(can_simd_cast<To, V> == keeps_values<From, To>() and can_simd_cast<R, V> == keeps_values<From, To>());
        static_assert(not can_static<stdx::fixed_size_simd<To, N + 1>, V> and not can_simd_cast<stdx::fixed_size_simd<To, N + 1>, V>);
        static_assert(not can_vir_static<stdx::fixed_size_simd<To, N + 1>, V>);
        if constexpr (N > 1)
          static_assert(not can_static<stdx::fixed_size_simd<To, (N > 1 ? N - 1 : 1)>, V> and not can_static<stdx::simd<To, stdx::simd_abi::scalar>, V>);
        static_assert(not std::is_convertible_v<V, stdx::fixed_size_simd<To, N + 1>>);
        static_assert(std::is_same_v<decltype(stdx::static_simd_cast<To>(V())), R> and std::is_same_v<decltype(stdx::static_simd_cast<R>(V())), R>);
        // a mixed operation is available exactly if one operand converts
        if constexpr (not std::is_same_v<From, To> and not odd)
          static_assert(can_add<V, R> == (fixed and (implicit_simd<From, To>() or implicit_simd<To, From>())));
        static_assert(can_add<V, To> == implicit_broadcast<To, From>());
      }
    static_assert(not can_static<void, V> and not can_static<bool, V> and not can_static<const char*, V>);
    mc::step();
    mc::ok();
    auto vals = mc::alphabet<From>();
    std::erase_if(vals, [](From x) { return not conv_ok<To>(x); });
    for (std::size_t p = 0; p < vals.size(); p += sizeof(From) == 1 ? N : 1)
      {
        mc::at("values", p);
        V v = From();
        for (int i = 0; i < N; ++i)
          v[i] = vals[(p + i) % vals.size()];
        expect("static_simd_cast<T>", stdx::static_simd_cast<To>(v), v);
        expect("static_simd_cast<V>", stdx::static_simd_cast<R>(v), v);
        if constexpr (fallback)
          {
            expect("vir::static_simd_cast<T>", vir::static_simd_cast<To>(v), v);
            expect("vir::static_simd_cast<V>", vir::static_simd_cast<R>(v), v);
          }
#if VIR_HAVE_SIMD_CVT
        {
          const R r = vir::cvt(v);
          expect("vir::cvt", r, v);
          R s = To(1);
          s = vir::cvt(v);
          expect("vir::cvt assignment", s, v);
          auto f = [](R x) { return x; };
          expect("vir::cvt argument", f(vir::cvt(v)), v);
        }
#endif
        if constexpr (fallback and keeps_values<From, To>())
          {
            expect("simd_cast<T>", stdx::simd_cast<To>(v), v);
            expect("simd_cast<V>", stdx::simd_cast<R>(v), v);
          }
        if constexpr (std::is_convertible_v<V, R>)
          {
            const R r = v;
            expect("implicit conversion", r, v);
            R s = To(0);
            s = v;
            expect("implicit conversion in assignment", s, v);
          }
        mc::ok();
      }
  }

template <typename A>
  void all_to()
  {
    pair<A, char>(); pair<A, signed char>(); pair<A, unsigned char>(); pair<A, short>(); pair<A, unsigned short>();
    pair<A, int>(); pair<A, unsigned>(); pair<A, long>(); pair<A, unsigned long>(); pair<A, long long>(); pair<A, unsigned long long>();
    pair<A, float>(); pair<A, double>(); pair<A, long double>(); pair<A, wchar_t>(); pair<A, char16_t>(); pair<A, char32_t>();
  }

// between ABIs
template <typename V, typename R>
  void abi(const char* what)
  {
    if constexpr (V::size() == R::size())
      {
        mc::context = mc::name_of<V>() + " -> " + mc::name_of<R>();
        auto vals = mc::alphabet<From>();
        for (std::size_t p = 0; p < vals.size(); p += sizeof(From) == 1 ? V::size() : 1)
          {
            mc::at(what, p);
            V v = From();
            for (int i = 0; i < int(V::size()); ++i)
              v[i] = vals[(p + i) % vals.size()];
            expect("static_simd_cast between ABIs", stdx::static_simd_cast<R>(v), v);
            if constexpr (fallback)
              expect("simd_cast between ABIs", stdx::simd_cast<R>(v), v);
            mc::ok();
          }
        // masks
        using VM = typename V::mask_type;
        using RM = typename R::mask_type;
        for (auto b : mc::mask_patterns(V::size(), 8))
          {
            mc::at("mask", b);
            const VM m = mc::make_mask<VM>(b);
            const RM r = stdx::static_simd_cast<RM>(m);
            for (int i = 0; i < int(V::size()); ++i)
              MC_CHECK(bool(r[i]) == bool(b >> i & 1), "mask element %d", i);
#if VIR_HAVE_SIMD_CVT
            const RM c = vir::cvt(m);
            RM d(true);
            d = vir::cvt(m);
            MC_CHECK(stdx::all_of(c == r) and stdx::all_of(d == r), "vir::cvt of a mask");
            const stdx::fixed_size_simd_mask<short, V::size()> e = vir::cvt(m);
            const stdx::fixed_size_simd_mask<double, V::size()> g = vir::cvt(m);
            for (int i = 0; i < int(V::size()); ++i)
              MC_CHECK(bool(e[i]) == bool(b >> i & 1) and bool(g[i]) == bool(b >> i & 1), "vir::cvt of a mask: element %d", i);
#endif
            mc::step();
            mc::ok();
          }
      }
  }

#if VIR_HAVE_SIMD_CVT
// vir::cvt of plain arithmetic types
template <typename To>
  void plain()
  {
    mc::context = mc::name_of<From>() + " -> " + mc::name_of<To>();
    for (From x : mc::alphabet<From>())
      if (conv_ok<To>(x))
        {
          mc::at("vir::cvt of a scalar", x);
          const To y = vir::cvt(x);
          To z = To(7);
          z = vir::cvt(x);
          MC_CHECK(mc::same_value<To>(y, static_cast<To>(x)) and mc::same_value<To>(z, y), "%g, expected %g", mc::num(y), mc::num(static_cast<To>(x)));
          mc::step();
          mc::ok();
        }
  }
#endif

template <typename V>
  void to_x()
  {
    constexpr int N = V::size();
    using VM = typename V::mask_type;
    mc::context = mc::name_of<V>();
    constexpr bool fixed = std::is_same_v<typename V::abi_type, stdx::simd_abi::fixed_size<N>>;
    if constexpr (fallback)
      {
        static_assert(std::is_same_v<decltype(stdx::to_fixed_size(V())), stdx::fixed_size_simd<From, N>>);
        static_assert(std::is_same_v<decltype(stdx::to_fixed_size(VM())), stdx::fixed_size_simd_mask<From, N>>);
        static_assert(can_to_native<V> == (fixed and N == stdx::native_simd<From>::size()));
        static_assert(can_to_native<VM> == (fixed and N == stdx::native_simd<From>::size()));
        static_assert(can_to_compatible<V> == (fixed and N == stdx::simd<From>::size()));
        static_assert(can_to_compatible<VM> == (fixed and N == stdx::simd<From>::size()));
      }
    auto vals = mc::alphabet<From>();
    for (std::size_t p = 0; p < vals.size(); p += sizeof(From) == 1 ? N : 1)
      {
        mc::at("to_*", p);
        V v = From();
        for (int i = 0; i < N; ++i)
          v[i] = vals[(p + i) % vals.size()];
        expect("to_fixed_size", stdx::to_fixed_size(v), v);
        if constexpr (can_to_native<V>)
          {
            static_assert(std::is_same_v<decltype(stdx::to_native(v)), stdx::native_simd<From>>);
            expect("to_native", stdx::to_native(v), v);
          }
        if constexpr (can_to_compatible<V>)
          {
            static_assert(std::is_same_v<decltype(stdx::to_compatible(v)), stdx::simd<From>>);
            expect("to_compatible", stdx::to_compatible(v), v);
          }
        mc::ok();
      }
    for (auto b : mc::mask_patterns(N, 8))
      {
        mc::at("to_* of masks", b);
        const VM m = mc::make_mask<VM>(b);
        auto same = [&](const char* what, const auto& r) {
          static_assert(std::remove_cvref_t<decltype(r)>::size() == N);
          for (int i = 0; i < N; ++i)
            MC_CHECK(bool(r[i]) == bool(b >> i & 1), "%s: element %d", what, i);
          mc::step();
        };
        same("to_fixed_size", stdx::to_fixed_size(m));
        if constexpr (can_to_native<VM>)
          same("to_native", stdx::to_native(m));
        if constexpr (can_to_compatible<VM>)
          same("to_compatible", stdx::to_compatible(m));
        same("vir::static_simd_cast<own type>(mask)", vir::static_simd_cast<VM>(m));
        same("vir::static_simd_cast<fixed_size mask>(mask)", vir::static_simd_cast<stdx::fixed_size_simd_mask<From, N>>(m));
        same("vir::static_simd_cast<fixed_size mask>(mask)", vir::static_simd_cast<stdx::fixed_size_simd_mask<short, N>>(m));
        if constexpr (fallback)
          {
            same("static_simd_cast<int>(mask)", stdx::static_simd_cast<int>(m));
            same("static_simd_cast<double>(mask)", stdx::static_simd_cast<double>(m));
            same("static_simd_cast<char mask>(mask)", stdx::static_simd_cast<stdx::fixed_size_simd_mask<char, N>>(m));
            same("static_simd_cast<own type>(mask)", stdx::static_simd_cast<VM>(m));
          }
        mc::ok();
      }
    if constexpr (fallback)
      {
        // masks of a different number of elements are not convertible
        static_assert(not std::is_convertible_v<VM, stdx::fixed_size_simd_mask<From, N + 1>>);
        static_assert(not can_static<stdx::fixed_size_simd_mask<From, N + 1>, VM>);
        static_assert(not std::is_convertible_v<bool, VM> and std::is_constructible_v<VM, bool>);
      }
  }

#ifdef VIR_DISABLE_STDX_SIMD
template <int N>
  constexpr bool ct()
  {
    const stdx::fixed_size_simd<From, N> x([](auto i) { return From(i + 1); });
    const auto a = stdx::static_simd_cast<short>(x);
    const auto b = stdx::static_simd_cast<stdx::fixed_size_simd<double, N>>(x);
#if VIR_HAVE_SIMD_CVT
    const stdx::fixed_size_simd<unsigned, N> c = vir::cvt(x);
#else
    const auto c = stdx::static_simd_cast<unsigned>(x);
#endif
    const auto d = stdx::to_fixed_size(x);
    bool ok = true;
    for (int i = 0; i < N; ++i)
      ok = ok and a[i] == i + 1 and b[i] == i + 1 and c[i] == unsigned(i + 1) and d[i] == From(i + 1);
    return ok;
  }
static_assert(ct<1>() and ct<3>() and ct<8>() and ct<32>());
#endif

int main()
{
  mc::init();
  using stdx::simd_abi::fixed_size;
#if VIRMC_PART == 0
  all_to<stdx::simd_abi::scalar>();
  all_to<fixed_size<1>>();
  all_to<fixed_size<2>>();
#elif VIRMC_PART == 1
  all_to<fixed_size<3>>();
  all_to<fixed_size<8>>();
#elif VIRMC_PART == 2
#if VIR_HAVE_SIMD_CVT
  plain<char>(); plain<signed char>(); plain<unsigned char>(); plain<short>(); plain<unsigned short>(); plain<int>(); plain<unsigned>();
  plain<long>(); plain<unsigned long>(); plain<long long>(); plain<unsigned long long>(); plain<float>(); plain<double>(); plain<long double>();
#endif
  using S = stdx::simd<From, stdx::simd_abi::scalar>;
  using F1 = stdx::fixed_size_simd<From, 1>;
  abi<S, F1>("scalar -> fixed_size");
  abi<F1, S>("fixed_size -> scalar");
  abi<stdx::native_simd<From>, stdx::fixed_size_simd<From, stdx::native_simd<From>::size()>>("native -> fixed_size");
  abi<stdx::fixed_size_simd<From, stdx::native_simd<From>::size()>, stdx::native_simd<From>>("fixed_size -> native");
  to_x<S>();
  to_x<stdx::native_simd<From>>();
  to_x<stdx::simd<From>>();
  []<int... Ns>(std::integer_sequence<int, Ns...>) { (to_x<stdx::fixed_size_simd<From, Ns + 1>>(), ...); }(std::make_integer_sequence<int, fallback ? 31 : 8>());
#else
  all_to<fixed_size<16>>();
  all_to<fixed_size<31>>();
#endif
  return mc::finish();
}

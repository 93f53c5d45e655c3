// C25: traits, concepts, ABI tags and widths describe the types truthfully.  The space is the product of a list of
// probe types (every arithmetic type, qualified and compound types, tags, flags, simds and masks) with every trait, and
// of value types x ABI tags x widths.
#include "mc.h"
#include <vir/simd.h>
#include <vir/simd_concepts.h>
#include <array>
#include <tuple>
namespace stdx = vir::stdx;
#ifndef VIRMC_PART
#define VIRMC_PART 0
#endif
#ifdef VIR_DISABLE_STDX_SIMD
constexpr bool fallback = true;
#else
constexpr bool fallback = false;
#endif
template <typename... Ts> struct list {};
template <typename T> struct tag { using type = T; };
template <typename F, typename... Ts> void each(list<Ts...>, F&& f) { (f(tag<Ts>()), ...); }
template <typename... As, typename... Bs> list<As..., Bs...> operator+(list<As...>, list<Bs...>) { return {}; }

using Vectorizable = list<char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long,
                          long long, unsigned long long, float, double, long double, wchar_t, char16_t, char32_t
#ifdef __cpp_char8_t
                          , char8_t
#endif
                          >;
using Core = list<char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long,
                  long long, unsigned long long, float, double, long double>;
enum Plain { plain };
enum class Scoped { scoped };
struct Class {};
struct Derived : stdx::simd<float> {};
union Union { int i; float f; };

// bytes of the widest register that holds elements of type T on this target
template <typename T> constexpr int reg()
{
#if defined __AVX512F__
  return 64;
#elif defined __AVX2__
  return 32;
#elif defined __AVX__
  return std::is_floating_point_v<T> ? 32 : 16;
#else
  return 16;
#endif
}
template <typename T> constexpr int native_size()
{
#if defined __AVX512F__ && !defined __AVX512BW__
  if (sizeof(T) < 4 and not fallback) return 32 / sizeof(T);
#endif
  return sizeof(T) > 8 ? 1 : reg<T>() / int(sizeof(T));
}
template <typename T> constexpr int compatible_size() { return sizeof(T) > 8 ? 1 : 16 / int(sizeof(T)); }

struct Facts { bool arith = false, vec = false, abi = false, simd = false, mask = false, flag = false; };
template <typename T>
  void facts(Facts f)
  {
    mc::context = mc::name_of<T>();
    mc::at("traits");
    auto eq = [](const char* what, bool got, bool want) {
      MC_CHECK(got == want, "%s is %d, expected %d", what, got, want);
      mc::step();
    };
    eq("is_abi_tag", stdx::is_abi_tag<T>::value, f.abi);
    eq("is_abi_tag_v", stdx::is_abi_tag_v<T>, f.abi);
    eq("is_simd", stdx::is_simd<T>::value, f.simd);
    eq("is_simd_v", stdx::is_simd_v<T>, f.simd);
    eq("is_simd_mask", stdx::is_simd_mask<T>::value, f.mask);
    eq("is_simd_mask_v", stdx::is_simd_mask_v<T>, f.mask);
    eq("is_simd_flag_type", stdx::is_simd_flag_type<T>::value, f.flag);
    eq("is_simd_flag_type_v", stdx::is_simd_flag_type_v<T>, f.flag);
    eq("arithmetic", vir::arithmetic<T>, f.arith);
    eq("vectorizable", vir::vectorizable<T>, f.vec);
    eq("simd_abi_tag", vir::simd_abi_tag<T>, f.abi);
    eq("any_simd", vir::any_simd<T>, f.simd);
    eq("any_simd_mask", vir::any_simd_mask<T>, f.mask);
    eq("any_simd_or_mask", vir::any_simd_or_mask<T>, f.simd or f.mask);
    mc::ok();
  }
// a type that is none of all this, and everything derived from it
template <typename T>
  void compounds()
  {
    facts<T*>({});
    facts<T&>({});
    facts<T&&>({});
    facts<T[2]>({});
    facts<T[]>({});
    facts<T* const*>({});
    facts<std::tuple<T>>({});
    facts<std::array<T, 4>>({});
    facts<tag<T>>({});
    facts<T()>({});
    facts<void(T)>({});
    facts<T(*)(T)>({});
    facts<T Class::*>({});
  }

// one value type with one ABI tag that has N elements
template <typename T, typename A, int N>
  void type()
  {
    using V = stdx::simd<T, A>;
    using M = stdx::simd_mask<T, A>;
    facts<V>({.simd = true});
    facts<M>({.mask = true});
    facts<A>({.abi = true});
    mc::context = mc::name_of<V>();
    mc::at("members", N);
    auto yes = [](const char* what, bool b) { MC_CHECK(b, "%s does not hold", what); mc::step(); };
    yes("size", V::size() == N and M::size() == N);
    yes("simd_size", stdx::simd_size_v<T, A> == N and stdx::simd_size<T, A>::value == N);
    yes("member types of simd", std::is_same_v<typename V::value_type, T> and std::is_same_v<typename V::mask_type, M>
          and std::is_same_v<typename V::abi_type, A>);
    yes("member types of simd_mask", std::is_same_v<typename M::value_type, bool> and std::is_same_v<typename M::simd_type, V>
          and std::is_same_v<typename M::abi_type, A>);
    if (fallback)
    yes("value semantics", std::is_default_constructible_v<V> and std::is_trivially_copyable_v<V> and std::is_nothrow_copy_constructible_v<V>
          and std::is_copy_assignable_v<V> and std::is_destructible_v<V>);
    if (fallback)
    yes("value semantics of masks", std::is_default_constructible_v<M> and std::is_trivially_copyable_v<M>
          and std::is_copy_assignable_v<M> and std::is_destructible_v<M>);
    yes("object size", sizeof(V) >= N * sizeof(T));
    yes("typed_simd", vir::typed_simd<V, T>);
    yes("not typed_simd", not vir::typed_simd<M, T> and not vir::typed_simd<M, bool> and not vir::typed_simd<V, bool> and not vir::typed_simd<V, const T>
          and not vir::typed_simd<V, std::conditional_t<std::is_same_v<T, float>, double, float>>
          and not vir::typed_simd<V, std::conditional_t<std::is_same_v<T, long>, long long, long>> and not vir::typed_simd<T, T>);
    yes("sized_simd", vir::sized_simd<V, N> and not vir::sized_simd<V, N + 1> and not vir::sized_simd<V, N - 1> and not vir::sized_simd<M, N>
          and not vir::sized_simd<V, 0> and not vir::sized_simd<T, 1>);
    yes("sized_simd_mask", vir::sized_simd_mask<M, N> and not vir::sized_simd_mask<M, N + 1> and not vir::sized_simd_mask<M, N - 1>
          and not vir::sized_simd_mask<V, N> and not vir::sized_simd_mask<M, 0> and not vir::sized_simd_mask<bool, 1>);
    constexpr auto pow2 = [](std::size_t a) { return a != 0 and (a & (a - 1)) == 0; };
    yes("memory_alignment", pow2(stdx::memory_alignment_v<V>) and stdx::memory_alignment_v<V> % alignof(T) == 0
          and stdx::memory_alignment<V>::value == stdx::memory_alignment_v<V, T>);
    yes("memory_alignment of masks", pow2(stdx::memory_alignment_v<M>) and stdx::memory_alignment_v<M> == stdx::memory_alignment_v<M, bool>);
    mc::ok();
    each(Core(), [&]<typename U>(tag<U>) {
      mc::at("rebind", N, sizeof(U));
      yes("memory_alignment<V, U>", pow2(stdx::memory_alignment_v<V, U>) and stdx::memory_alignment_v<V, U> % alignof(U) == 0);
      if constexpr (N <= 32 or fallback)
        {
          using VU = stdx::rebind_simd_t<U, V>;
          using MU = stdx::rebind_simd_t<U, M>;
          yes("rebind_simd", stdx::is_simd_v<VU> and std::is_same_v<typename VU::value_type, U> and VU::size() == N);
          yes("rebind_simd of masks", stdx::is_simd_mask_v<MU> and std::is_same_v<typename MU::simd_type::value_type, U> and MU::size() == N);
          if constexpr (fallback and std::is_same_v<U, T>)
            yes("rebind to the same value type", std::is_same_v<VU, V> and std::is_same_v<MU, M>);
        }
      mc::ok();
    });
    [&]<int... W>(std::integer_sequence<int, W...>) {
      ([&] {
        mc::at("resize", N, W + 1);
        using VW = stdx::resize_simd_t<W + 1, V>;
        using MW = stdx::resize_simd_t<W + 1, M>;
        yes("resize_simd", stdx::is_simd_v<VW> and std::is_same_v<typename VW::value_type, T> and VW::size() == W + 1);
        yes("resize_simd: the mask type of the resized simd is the resized mask type", std::is_same_v<typename VW::mask_type, MW>);
        yes("resize_simd of masks", stdx::is_simd_mask_v<MW> and std::is_same_v<typename MW::simd_type::value_type, T> and MW::size() == W + 1);
        mc::ok();
      }(), ...);
    }(std::make_integer_sequence<int, 32>());
  }

template <typename T, int N>
  void sizes()
  {
    using F = stdx::simd_abi::fixed_size<N>;
    static_assert(std::is_same_v<stdx::fixed_size_simd<T, N>, stdx::simd<T, F>>);
    static_assert(std::is_same_v<stdx::fixed_size_simd_mask<T, N>, stdx::simd_mask<T, F>>);
    type<T, F, N>();
    auto yes = [](const char* what, bool b) { MC_CHECK(b, "%s does not hold", what); mc::step(); };
    mc::at("deduce", N);
    using D = stdx::simd_abi::deduce_t<T, N>;
    yes("deduce", stdx::is_abi_tag_v<D> and stdx::simd_size_v<T, D> == N);
    yes("deduce::type", std::is_same_v<D, typename stdx::simd_abi::deduce<T, N>::type>);
    using D2 = stdx::simd_abi::deduce_t<T, N, F>;
    yes("deduce with hint", stdx::is_abi_tag_v<D2> and stdx::simd_size_v<T, D2> == N);
    using D3 = stdx::simd_abi::deduce_t<T, N, stdx::simd_abi::scalar, stdx::simd_abi::native<T>>;
    yes("deduce with hints", stdx::is_abi_tag_v<D3> and stdx::simd_size_v<T, D3> == N);
    mc::ok();
  }

template <typename T>
  void value_type()
  {
    mc::context = mc::name_of<T>();
    auto yes = [](const char* what, bool b) { MC_CHECK(b, "%s does not hold", what); mc::step(); };
    mc::at("widths");
    yes("native width", stdx::simd_size_v<T, stdx::simd_abi::native<T>> == native_size<T>());
    yes("compatible width", stdx::simd_size_v<T, stdx::simd_abi::compatible<T>> == compatible_size<T>());
    yes("scalar width", stdx::simd_size_v<T, stdx::simd_abi::scalar> == 1);
    yes("default ABI is compatible", std::is_same_v<stdx::simd<T>, stdx::simd<T, stdx::simd_abi::compatible<T>>>
          and std::is_same_v<stdx::simd_mask<T>, stdx::simd_mask<T, stdx::simd_abi::compatible<T>>>
          and stdx::simd_size_v<T> == stdx::simd<T>::size());
    yes("native_simd", std::is_same_v<stdx::native_simd<T>, stdx::simd<T, stdx::simd_abi::native<T>>>
          and std::is_same_v<stdx::native_simd_mask<T>, stdx::simd_mask<T, stdx::simd_abi::native<T>>>);
    yes("max_fixed_size", stdx::simd_abi::max_fixed_size<T> >= 32);
    mc::ok();
    type<T, stdx::simd_abi::scalar, 1>();
    type<T, stdx::simd_abi::native<T>, native_size<T>()>();
    type<T, stdx::simd_abi::compatible<T>, compatible_size<T>()>();
    // invalid ABI tags
    mc::at("invalid ABI");
    yes("simd with an invalid ABI tag is disabled", not std::is_default_constructible_v<stdx::simd<T, int>>
          and not std::is_copy_constructible_v<stdx::simd<T, Class>> and not std::is_destructible_v<stdx::simd_mask<T, void>>
          and not std::is_default_constructible_v<stdx::simd_mask<T, float>>);
    yes("any_simd is false for invalid specializations", not vir::any_simd<stdx::simd<T, int>> and not vir::any_simd_mask<stdx::simd_mask<T, Class>>
          and not vir::any_simd_or_mask<stdx::simd<T, void>>);
    if (fallback)
      yes("is_simd is false for invalid specializations", not stdx::is_simd_v<stdx::simd<T, int>> and not stdx::is_simd_mask_v<stdx::simd_mask<T, int>>);
    mc::ok();
  }

template <typename T>
  void invalid()
  {
    mc::context = mc::name_of<T>();
    mc::at("invalid value type");
    auto yes = [](const char* what, bool b) { MC_CHECK(b, "%s does not hold", what); mc::step(); };
    using S = stdx::simd_abi::scalar;
    using F = stdx::simd_abi::fixed_size<4>;
    yes("simd of a type that is not vectorizable is disabled",
        not std::is_default_constructible_v<stdx::simd<T, S>> and not std::is_default_constructible_v<stdx::simd<T, F>>
          and not std::is_destructible_v<stdx::simd<T, F>> and not std::is_destructible_v<stdx::simd<T, S>>);
    yes("simd_mask of a type that is not vectorizable is disabled",
        not std::is_default_constructible_v<stdx::simd_mask<T, S>> and not std::is_default_constructible_v<stdx::simd_mask<T, F>>
          and not std::is_destructible_v<stdx::simd_mask<T, F>> and not std::is_destructible_v<stdx::simd_mask<T, S>>);
    yes("concepts", not vir::any_simd<stdx::simd<T, S>> and not vir::any_simd<stdx::simd<T, F>> and not vir::any_simd_mask<stdx::simd_mask<T, S>>
          and not vir::any_simd_mask<stdx::simd_mask<T, F>> and not vir::any_simd_or_mask<stdx::simd<T, F>>);
    if (fallback)
      yes("is_simd", not stdx::is_simd_v<stdx::simd<T, S>> and not stdx::is_simd_v<stdx::simd<T, F>> and not stdx::is_simd_mask_v<stdx::simd_mask<T, S>>
            and not stdx::is_simd_mask_v<stdx::simd_mask<T, F>>);
    mc::ok();
  }

template <typename T>
  void all_sizes()
  { [&]<int... Ns>(std::integer_sequence<int, Ns...>) { (sizes<T, Ns + 1>(), ...); }(std::make_integer_sequence<int, 32>()); }

int main()
{
  mc::init();
#if VIRMC_PART == 0
  each(Vectorizable(), []<typename T>(tag<T>) {
    facts<T>({.arith = true, .vec = true});
    facts<const T>({.arith = true, .vec = true});
    facts<volatile T>({.arith = true, .vec = true});
    compounds<T>();
  });
  facts<bool>({.arith = true});
  compounds<bool>();
  facts<void>({});
  facts<std::nullptr_t>({});
  each(list<Plain, Scoped, Class, Union, Derived, void*>(), []<typename T>(tag<T>) { facts<T>({}); compounds<T>(); });
  // tags and flags
  each(list<stdx::simd_abi::scalar, stdx::simd_abi::fixed_size<1>, stdx::simd_abi::fixed_size<32>, stdx::simd_abi::native<float>,
            stdx::simd_abi::compatible<double>>(),
       []<typename A>(tag<A>) { facts<A>({.abi = true}); compounds<A>(); });
  each(list<stdx::element_aligned_tag, stdx::vector_aligned_tag, stdx::overaligned_tag<1>, stdx::overaligned_tag<2>, stdx::overaligned_tag<16>,
            stdx::overaligned_tag<4096>>(),
       []<typename A>(tag<A>) { facts<A>({.flag = true}); compounds<A>(); });
  facts<std::remove_const_t<decltype(stdx::element_aligned)>>({.flag = true});
  facts<std::remove_const_t<decltype(stdx::vector_aligned)>>({.flag = true});
  facts<std::remove_const_t<decltype(stdx::overaligned<64>)>>({.flag = true});
  MC_CHECK((std::is_same_v<std::remove_const_t<decltype(stdx::overaligned<64>)>, stdx::overaligned_tag<64>>), "overaligned<64> has the wrong tag");
  MC_CHECK((not std::is_same_v<stdx::overaligned_tag<64>, stdx::overaligned_tag<32>>), "overaligned tags coincide");
  each(list<stdx::simd<float>, stdx::native_simd<char>, stdx::fixed_size_simd<double, 3>, stdx::simd<int, stdx::simd_abi::scalar>>(),
       []<typename V>(tag<V>) {
         facts<const V>({}); facts<volatile V>({}); compounds<V>();
         facts<const typename V::mask_type>({}); compounds<typename V::mask_type>();
       });
  each(list<bool, Plain, Scoped, Class, float*>(), []<typename T>(tag<T>) { invalid<T>(); });
#elif VIRMC_PART == 1
  each(Vectorizable(), []<typename T>(tag<T>) { value_type<T>(); });
#else
  all_sizes<VIRMC_T>();
#endif
  return mc::finish();
}

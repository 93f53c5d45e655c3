// C05: ranges whose elements are not contiguous in memory are not accepted by any algorithm, contiguous ones are.
#include <vir/simd_execution.h>
#include <array>
#include <deque>
#include <list>
#include <ranges>
#include <span>
#include <vector>

inline constexpr auto f1 = [](auto v) { return v; };
inline constexpr auto f2 = [](auto v, auto) { return v; };
inline constexpr auto pr = [](auto v) { return v == v; };

template <typename I, typename O = int*>
  concept iterators = requires(I a, O o) {
    vir::for_each(vir::execution::simd, a, a, [](auto...) {});
  };
template <typename I> concept t1 = requires(I a, int* o) { vir::transform(vir::execution::simd, a, a, o, f1); };
template <typename I> concept t2 = requires(I a, int* o) { vir::transform(vir::execution::simd, o, o, a, o, f2); };
template <typename I> concept t3 = requires(I a, int* o) { vir::transform(vir::execution::simd, o, o, a, f1); };
template <typename I> concept r1 = requires(I a, int* o) { vir::reduce(vir::execution::simd, a, a, 1); };
template <typename I> concept r2 = requires(I a, int* o) { vir::transform_reduce(vir::execution::simd, o, o, a, 1); };
template <typename I> concept r3 = requires(I a, int* o) { vir::transform_reduce(vir::execution::simd, a, a, 1, std::plus<>(), f1); };
template <typename I> concept c1 = requires(I a) { vir::count_if(vir::execution::simd, a, a, pr); };
template <typename R> concept rg = requires(R& r) { vir::for_each(vir::execution::simd, r, [](auto...) {}); };
template <typename R> concept rr = requires(R& r) { vir::reduce(vir::execution::simd, r); };
template <typename R> concept rc = requires(R& r) { vir::count_if(vir::execution::simd, r, pr); };
template <typename R> concept rt = requires(R& r) { vir::transform(vir::execution::simd, r, r, f1); };
template <typename R> concept rtr = requires(R& r) { vir::transform_reduce(vir::execution::simd, r, r, 1); };

template <typename I, bool Out = true>
  constexpr bool all_accept = iterators<I> and t1<I> and t2<I> and t3<I> == Out and r1<I> and r2<I> and r3<I> and c1<I>;
template <typename I>
  constexpr bool none_accepts = not iterators<I> and not t1<I> and not t2<I> and not t3<I> and not r1<I> and not r2<I> and not r3<I>
                                  and not c1<I>;
template <typename R> constexpr bool rng = rg<R> and rr<R> and rc<R> and rt<R> and rtr<R>;
template <typename R> constexpr bool norng = not rg<R> and not rr<R> and not rc<R> and not rt<R> and not rtr<R>;

static_assert(all_accept<int*>);
static_assert(all_accept<std::vector<int>::iterator>);
static_assert(all_accept<std::span<int>::iterator>);
static_assert(all_accept<std::array<int, 5>::iterator>);
static_assert(none_accepts<std::deque<int>::iterator>);
static_assert(none_accepts<std::list<int>::iterator>);
static_assert(none_accepts<std::reverse_iterator<int*>>);
static_assert(none_accepts<std::vector<int>::reverse_iterator>);
static_assert(none_accepts<std::vector<int>::const_reverse_iterator>);
static_assert(none_accepts<std::vector<bool>::iterator>);
static_assert(none_accepts<std::move_iterator<int*>>);
using strided = decltype(std::views::iota(0, 9) | std::views::transform([](int i) { return i; }));
static_assert(none_accepts<std::ranges::iterator_t<strided>>);

static_assert(rng<std::vector<int>>);
static_assert(rng<std::array<int, 7>>);
static_assert(rng<int[7]>);
static_assert(rng<std::span<int>>);
static_assert(norng<std::deque<int>>);
static_assert(norng<std::list<int>>);
static_assert(norng<std::vector<bool>>);
static_assert(norng<std::ranges::reverse_view<std::span<int>>>);
static_assert(norng<strided>);
int main() {}

// C30: no hidden state.  Part 0: the memory footprint of every algorithm call (every access is reported by compiler
// instrumentation): it writes nothing but its output range and its own stack.  Part 1: two calls in flight at the same time - all
// interleavings at the granularity of the calls of their callables, including complete nesting - give what they give alone.
// Part 2: footprint of operations on simds and masks.
#if VIRMC_PART != 1
#include "footprint.h"
#endif
#include "alg.h"
#include <functional>
#include <ucontext.h>

#if VIRMC_PART == 0
template <typename T, typename P, typename Policy>
  void run(P, Policy pol)
  {
    const long w = width<T, P>(), u = unroll<P>();
    const long top = w * u + 2 * w + 2;
    Buffer<T> a(top + 64), b(top + 64), out(top + 64);
    for (long n = 0; n <= top; n += P::_assume_matching_size ? w : 1)
      for (long off = 0; off < offsets<T>(); ++off)
        {
          a.fill(off, n);
          b.fill((off + 3) % offsets<T>(), n);
          out.fill(off, n);
          T* p = a.at(off);
          T* q = b.at((off + 3) % offsets<T>());
          T* d = out.at(off);
          const std::pair<T*, T*> dst(d, d + n);
          auto point = [&](const char* what, auto&& call, auto... out) {
            mc::at(what, n, off);
            fp::observe(call, out...);
            mc::step(fp::accesses);
            fp::accesses = 0;
            mc::ok();
          };
          point("for_each n,off", [&] { vir::for_each(pol, d, d + n, [](auto&... v) { (Codec<T>::bump(v), ...); }); }, dst);
          point("for_each by value n,off", [&] { vir::for_each(pol, p, p + n, [](auto... v) { (Codec<T>::bump(v), ...); }); });
          point("for_each by const reference n,off", [&] { vir::for_each(pol, p, p + n, [](const auto&...) {}); });
          point("transform n,off", [&] { vir::transform(pol, p, p + n, d, [](auto v) { Codec<T>::bump(v); return v; }); }, dst);
          point("binary transform n,off", [&] { vir::transform(pol, p, p + n, q, d, [](const auto& v, const auto&) { return v; }); }, dst);
          if constexpr (std::is_arithmetic_v<T>)
            {
              auto mx = [](const auto& x, const auto& y) { using std::max; return max(x, y); };
              point("count_if n,off", [&] { (void) vir::count_if(pol, p, p + n, [](const auto& v) { return v > T(3); }); });
              point("reduce n,off", [&] { (void) vir::reduce(pol, p, p + n, T(), mx); });
              point("transform_reduce n,off", [&] { (void) vir::transform_reduce(pol, p, p + n, T(), mx, [](const auto& x) { return x; }); });
              point("binary transform_reduce n,off", [&] { (void) vir::transform_reduce(pol, p, p + n, q, T(), mx, mx); });
            }
        }
  }

int main()
{
  mc::init();
  fp::setup();
  POLICY_SETS();
  return mc::finish();
}

#elif VIRMC_PART == 2
template <typename V>
  void ops()
  {
    using T = typename V::value_type;
    using M = typename V::mask_type;
    constexpr int N = V::size();
    alignas(256) static T in[N + 64], mem[N + 64];
    static bool bits[N + 64];
    alignas(V) static V x, y, r;
    static M k, m;
    for (int i = 0; i < N + 64; ++i)
      in[i] = T(i % 50 + 1), mem[i] = T(0), bits[i] = i % 3 == 0;
    x = V(in, stdx::element_aligned);
    y = V(in + 7, stdx::element_aligned);
    k = x > T(5);
    auto point = [&](const char* what, auto&& call, auto... out) {
      mc::at(what, N);
      fp::observe(call, out...);
      mc::step(fp::accesses);
      fp::accesses = 0;
      mc::ok();
    };
    auto one = [](auto& v) { return std::pair(&v, &v + 1); };
    auto arr = [](auto* p, int n) { return std::pair(p, p + n); };
    point("load", [&] { r.copy_from(in + 1, stdx::element_aligned); }, one(r));
    point("store", [&] { x.copy_to(mem + 3, stdx::element_aligned); }, arr(mem + 3, N));
    point("aligned store", [&] { x.copy_to(mem, stdx::vector_aligned); }, arr(mem, N));
    point("arithmetic", [&] { r = x + y * x - y / x; }, one(r));
    point("unary", [&] { r = -x; ++r; --r; }, one(r));
    point("compare", [&] { m = (x == y) || (x < y) || (x >= y); }, one(m));
    point("element", [&] { r[N - 1] = T(3); r[0] += T(1); }, one(r));
    point("mask load", [&] { m.copy_from(bits + 1, stdx::element_aligned); }, one(m));
    point("mask store", [&] { k.copy_to(bits + 2, stdx::element_aligned); }, arr(bits + 2, N));
    point("mask element", [&] { m[0] = true; m[N - 1] = false; }, one(m));
    point("mask operators", [&] { m = !(k && m) || k; }, one(m));
    point("mask reductions", [&] { volatile int s = popcount(k) + any_of(k) + all_of(k) + none_of(k) + some_of(k); (void) s; });
    point("where assignment", [&] { where(k, r) = x; where(k, r) += y; }, one(r));
    point("where load", [&] { where(k, r).copy_from(in + 2, stdx::element_aligned); }, one(r));
    point("where store", [&] { where(k, x).copy_to(mem + 5, stdx::element_aligned); }, arr(mem + 5, N));
    point("reduce", [&] { volatile T s = T(reduce(x) + hmin(x) + hmax(x)); (void) s; });
    point("masked reduce", [&] { volatile T s = T(reduce(where(k, x)) + hmin(where(k, x)) + hmax(where(k, x))); (void) s; });
    point("min max", [&] { r = min(x, y); r = max(r, x); r = clamp(r, x, y); }, one(r));
    point("generator", [&] { r = V([](auto i) { return T(int(i)); }); }, one(r));
    point("static_simd_cast", [&] {
      auto z = stdx::static_simd_cast<stdx::fixed_size_simd<double, N>>(stdx::to_fixed_size(x));
      volatile double s = z[0];
      (void) s;
    });
    point("concat", [&] { auto z = stdx::concat(x, y); volatile T s = z[0]; (void) s; });
    if constexpr (N % 2 == 0)
      point("split", [&] {
        auto z = stdx::split<vir::simdize<T, N / 2>>(x);
        volatile T s = z[0][0];
        (void) s;
      });
    if constexpr (std::is_floating_point_v<T>)
      point("math", [&] { r = sqrt(x); r = floor(r); r = pow(r, y); m = isnan(r); }, one(r), one(m));
  }
int main()
{
  mc::init();
  fp::setup();
  mc::context = mc::name_of<VIRMC_T>();
  ops<stdx::fixed_size_simd<VIRMC_T, 1>>();
  ops<stdx::fixed_size_simd<VIRMC_T, 3>>();
  ops<stdx::fixed_size_simd<VIRMC_T, 8>>();
  ops<stdx::fixed_size_simd<VIRMC_T, 16>>();
  ops<stdx::native_simd<VIRMC_T>>();
  return mc::finish();
}

#else // interleavings
// stateless exploration of all schedules with at most VIRMC_PREEMPT preemptions: a schedule is the sequence of decisions "switch"
// or "continue" made at the points where both calls can continue
#ifndef VIRMC_PREEMPT
#define VIRMC_PREEMPT 3
#endif
struct Schedule
{
  std::vector<int> choice;
  unsigned pos = 0;
  int used = 0;
  bool preempt()
  {
    if (used == VIRMC_PREEMPT)
      return false;
    if (pos == choice.size())
      choice.push_back(0);
    used += choice[pos];
    return choice[pos++];
  }
  bool next()
  {
    pos = used = 0;
    while (not choice.empty() and choice.back() == 1)
      choice.pop_back();
    if (choice.empty())
      return false;
    choice.back() = 1;
    return true;
  }
};

static ucontext_t main_ctx, ctx[2];
static std::vector<char> stack_mem[2];
static bool done[2], active = false;
static int current = -1;
static std::function<void()> body[2];
static long switches = 0;

static void trampoline(int i)
{
  body[i]();
  done[i] = true;
  swapcontext(&ctx[i], &main_ctx);
}
static void yield()
{
  if (active)
    {
      const int i = current;
      ++switches;
      swapcontext(&ctx[i], &main_ctx);
    }
}
static void interleave(Schedule& s, int first)
{
  current = first;
  for (int i = 0; i < 2; ++i)
    {
      done[i] = false;
      if (stack_mem[i].empty())
        stack_mem[i].resize(1 << 20);
      getcontext(&ctx[i]);
      ctx[i].uc_stack.ss_sp = stack_mem[i].data();
      ctx[i].uc_stack.ss_size = stack_mem[i].size();
      ctx[i].uc_link = &main_ctx;
      makecontext(&ctx[i], reinterpret_cast<void (*)()>(trampoline), 1, i);
    }
  active = true;
  while (not (done[0] and done[1]))
    {
      swapcontext(&main_ctx, &ctx[current]);
      if (done[0] or done[1])
        current = done[0];
      else if (s.preempt())
        current ^= 1;
    }
  active = false;
}

// the callables: one type each, so that both calls are the same instantiation
template <typename T>
  struct Bump { void operator()(auto&... v) const { yield(); (Codec<T>::bump(v), ...); yield(); } };
template <typename T>
  struct Fun { auto operator()(auto v) const { yield(); Codec<T>::bump(v); return v; } };
template <typename T>
  struct Fun2 { auto operator()(auto v, const auto&) const { yield(); Codec<T>::bump(v); return v; } };
template <typename T>
  struct Less { T x; auto operator()(const auto& v) const { yield(); auto r = v <= x; yield(); return r; } };
struct Id { auto operator()(const auto& v) const { yield(); return v; } };
struct Sum { auto operator()(const auto& x, const auto& y) const { using R = std::remove_cvref_t<decltype(x)>; yield(); return R(x + y); } };

template <typename T, typename P, typename Policy>
  void run(P, Policy pol)
  {
    const long w = width<T, P>(), u = unroll<P>();
    // lengths with few calls of the callable: one chunk, two chunks, chunk and rest
    std::vector<long> lengths = P::_assume_matching_size ? std::vector<long>{w, 2 * w}
                                                         : std::vector<long>{1, w + 1, w * u + 1, 2 * w, 2 * w * u + 1};
    const long top = 4 * w * u + 8;
    Buffer<T> a(top), d(top), e(top);
    // one call: two slots with disjoint data; adjacent = both in the same buffer
    struct Op { const char* name; std::function<void(int, long)> prepare, call, check; };
    auto& in = a;
    long start[2] = {0, 0};
    long answer[2];
    auto fill = [&](int s, long n) { for (long k = 0; k < n; ++k) in.at(start[s])[k] = Codec<T>::enc(k); };
    auto fill_d = [&](int s, long n) { for (long k = 0; k < n; ++k) d.at(start[s])[k] = Codec<T>::enc(k); };
    auto bumped = [&](Buffer<T>& b) {
      return [&](int s, long n) {
        for (long k = 0; k < n; ++k)
          MC_CHECK(Codec<T>::eq(b.at(start[s])[k], Codec<T>::bumped(k)), "call %d of 2: element %ld of %ld", s, k, n);
      };
    };
    std::vector<Op> ops;
    ops.push_back({"for_each", fill_d, [&](int s, long n) {
      vir::for_each(pol, d.at(start[s]), d.at(start[s]) + n, Bump<T>());
    }, bumped(d)});
    ops.push_back({"transform", fill, [&](int s, long n) {
      vir::transform(pol, in.at(start[s]), in.at(start[s]) + n, e.at(start[s]), Fun<T>());
    }, bumped(e)});
    ops.push_back({"binary transform", fill, [&](int s, long n) {
      vir::transform(pol, in.at(start[s]), in.at(start[s]) + n, in.at(start[s]), e.at(start[s]), Fun2<T>());
    }, bumped(e)});
    if constexpr (std::is_arithmetic_v<T>)
      {
        ops.push_back({"count_if", fill, [&](int s, long n) {
          answer[s] = vir::count_if(pol, in.at(start[s]), in.at(start[s]) + n, Less<T>{Codec<T>::enc(s + 1)});
        }, [&](int s, long n) {
          long c = 0;
          for (long k = 0; k < n; ++k)
            c += Codec<T>::enc(k) <= Codec<T>::enc(s + 1);
          MC_CHECK(answer[s] == c, "call %d of 2 counted %ld instead of %ld", s, answer[s], c);
        }});
        auto total = [&](int s, long n) {
          T c = T(s + 1);
          for (long k = 0; k < n; ++k)
            c = T(c + Codec<T>::enc(k));
          MC_CHECK(T(answer[s]) == c, "call %d of 2 returned %ld instead of %ld", s, answer[s], long(c));
        };
        ops.push_back({"reduce", fill, [&](int s, long n) {
          answer[s] = long(vir::reduce(pol, in.at(start[s]), in.at(start[s]) + n, T(s + 1), Sum()));
        }, total});
        ops.push_back({"transform_reduce", fill, [&](int s, long n) {
          answer[s] = long(vir::transform_reduce(pol, in.at(start[s]), in.at(start[s]) + n, T(s + 1), std::plus<>(), Id()));
        }, total});
      }
    for (unsigned i = 0; i < ops.size(); ++i)
      for (unsigned j = 0; j < ops.size(); ++j)
        for (long n0 : lengths)
          for (long n1 : {n0, long(P::_assume_matching_size ? w : w + 1)})
            {
              start[0] = 1;
              start[1] = 1 + n0;             // adjacent ranges
              for (int first = 0; first < 2; ++first)
              {
              Schedule s;
              long count = 0;
              do
                {
                  mc::at("pair of calls i,j,n0,n1,first,schedule", i, j, n0, n1, first, count);
                  a.poison(), d.poison(), e.poison();
                  ops[i].prepare(0, n0);
                  ops[j].prepare(1, n1);
                  body[0] = [&] { ops[i].call(0, n0); };
                  body[1] = [&] { ops[j].call(1, n1); };
                  switches = 0;
                  interleave(s, first);
                  ops[i].check(0, n0);
                  ops[j].check(1, n1);
                  for (Buffer<T>* b : {&d, &e})
                    b->untouched_outside(1, n0 + n1, "two calls");
                  mc::step(switches);
                  mc::ok();
                  ++count;
                }
              while (s.next());
              }
            }
  }
int main()
{
  mc::init();
  POLICY_SETS();
  return mc::finish();
}
#endif

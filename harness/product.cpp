// C27: product-machine exploration.  One program contains both implementations: vir::stdx (the fallback) and
// std::experimental (libstdc++).  A state is a pair of machines with registers a, b (simd) and m, k (simd_mask) and a
// block of memory; every operation is applied to both machines, which have to agree on everything observable after
// every step.  Breadth-first search over all operation sequences up to VIRMC_DEPTH from all initial states, with the
// visited states stored in full.
#include "mc.h"
#include <vir/simd.h>
#ifndef VIR_HAVE_VIR_SIMD
#error "C27 compares the fallback"
#endif
#include <experimental/simd>
#include <array>
#include <cmath>
#include <set>
#include <tuple>
#ifndef VIRMC_T
#define VIRMC_T float
#endif
#ifndef VIRMC_N
#define VIRMC_N 3
#endif
#ifndef VIRMC_DEPTH
#define VIRMC_DEPTH 2
#endif
namespace A = vir::stdx;
namespace B = std::experimental::parallelism_v2;
using T = VIRMC_T;
constexpr bool fp = std::is_floating_point_v<T>;
using Other = std::conditional_t<fp, std::conditional_t<std::is_same_v<T, float>, double, float>, std::conditional_t<sizeof(T) == 2, int, short>>;

#if VIRMC_ABI == 0
using VA = A::fixed_size_simd<T, VIRMC_N>;
using VB = B::fixed_size_simd<T, VIRMC_N>;
#elif VIRMC_ABI == 1
using VA = A::simd<T, A::simd_abi::scalar>;
using VB = B::simd<T, B::simd_abi::scalar>;
#elif VIRMC_ABI == 2
using VA = A::native_simd<T>;
using VB = B::native_simd<T>;
#else
using VA = A::simd<T>;
using VB = B::simd<T>;
#endif
static_assert(VA::size() == VB::size());
constexpr int N = VA::size();

// the two implementations under names that do not depend on argument-dependent lookup
struct IA
{
  static constexpr auto ea = A::element_aligned;
  template <typename U> using fix = A::fixed_size_simd<U, N>;
  template <typename U, int W> using fixn = A::fixed_size_simd<U, W>;
  template <typename U> static auto scast(const auto& x) { return A::static_simd_cast<U>(x); }
  static auto tofix(const auto& x) { return A::to_fixed_size(x); }
  template <typename W> static auto split(const auto& x) { return A::split<W>(x); }
};
struct IB
{
  static constexpr auto ea = B::element_aligned;
  template <typename U> using fix = B::fixed_size_simd<U, N>;
  template <typename U, int W> using fixn = B::fixed_size_simd<U, W>;
  template <typename U> static auto scast(const auto& x) { return B::static_simd_cast<U>(x); }
  static auto tofix(const auto& x) { return B::to_fixed_size(x); }
  template <typename W> static auto split(const auto& x) { return B::split<W>(x); }
};
template <typename V> struct impl { using type = IA; };
template <typename V> requires B::is_simd_v<V> struct impl<V> { using type = IB; };

// what an operation may depend on: the (common) contents of the registers
struct Obs { T a[N], b[N]; bool m[N], k[N]; T mem[2 * N + 1]; bool bmem[2 * N + 1]; };

template <typename V>
  struct Machine
  {
    using M = typename V::mask_type;
    V a, b;
    M m, k;
    T mem[2 * N + 1];
    bool bmem[2 * N + 1];
    explicit Machine(const Obs& o) : a(o.a, impl<V>::type::ea), b(o.b, impl<V>::type::ea), m(o.m, impl<V>::type::ea), k(o.k, impl<V>::type::ea)
    { std::memcpy(mem, o.mem, sizeof(mem)); std::memcpy(bmem, o.bmem, sizeof(bmem)); }
    void observe(Obs& o) const
    {
      for (int i = 0; i < N; ++i)
        { o.a[i] = a[i]; o.b[i] = b[i]; o.m[i] = m[i]; o.k[i] = k[i]; }
      std::memcpy(o.mem, mem, sizeof(mem)); std::memcpy(o.bmem, bmem, sizeof(bmem));
    }
  };

struct Guard
{
  bool nan = false, zero_b = false, small = true, tiny = true, min_a = false, minus1_b = false, zeros_mixed = false, any_m = false, product = false;
  explicit Guard(const Obs& o)
  {
    bool pz = false, nz = false;
    for (int i = 0; i < N; ++i)
      {
        any_m = any_m or o.m[i];
        zero_b = zero_b or o.b[i] == 0;
        for (T x : {o.a[i], o.b[i]})
          {
            nan = nan or x != x;
            if constexpr (fp)
              {
                small = small and x == x and x > -1000 and x < 1000 and x == T(int(x));
                if (x == 0)
                  (std::signbit(x) ? nz : pz) = true;
              }
            else
              small = small and (std::is_unsigned_v<T> or x > -100) and x < 100;
            tiny = tiny and x >= 0 and x < 7;
          }
        min_a = min_a or o.a[i] == std::numeric_limits<T>::min();
        minus1_b = minus1_b or o.b[i] == T(-1);
      }
    zeros_mixed = pz and nz;
    product = not fp or (small and tiny and N <= 8); // exact in any order
  }
};

template <typename V>
  auto split_into(const V& x)
  {
    using I = typename impl<V>::type;
    std::array<T, N> r;
    if constexpr (N % 2 == 0)
      {
        const auto parts = I::template split<typename I::template fixn<T, N / 2>>(I::tofix(x));
        int o = 0;
        for (const auto& p : parts)
          for (int i = 0; i < int(p.size()); ++i)
            r[o++] = p[i];
      }
    else
      for (int i = 0; i < N; ++i)
        r[i] = x[i];
    return r;
  }

template <typename V>
  void concat_to(const V& x, const V& y, T* mem)
  {
    using I = typename impl<V>::type;
    if constexpr (N <= 16)
      concat(I::tofix(x), I::tofix(y)).copy_to(mem, I::ea);
    else
      {
        x.copy_to(mem, I::ea);
        y.copy_to(mem + N, I::ea);
      }
  }

// one operation; false: not enabled (it would have undefined or unspecified behaviour) or no such operation
constexpr int num_ops = 128;
const char* op_name[num_ops];
template <typename V>
  bool apply(int op, Machine<V>& s, const Guard& g)
  {
    using I = typename impl<V>::type;
    using M = typename V::mask_type;
    auto &a = s.a, &b = s.b;
    auto &m = s.m, &k = s.k;
#define OP(id, guard, ...) case id: op_name[id] = #__VA_ARGS__; if (!(guard)) return false; else { __VA_ARGS__; } return true;
    switch (op)
      {
      // arithmetic
      OP(0, true, a = a + b)
      OP(1, true, a = a - b)
      OP(2, true, a = a * b)
      OP(3, fp or (not g.zero_b and not (g.min_a and g.minus1_b)), a = a / b)
      OP(4, true, a = -a)
      OP(5, true, b = +a)
      OP(6, true, a += b)
      OP(7, true, b -= a)
      OP(8, true, a *= T(3))
      OP(9, true, a = T(10) - a)
      OP(10, true, ++a)
      OP(11, true, a--)
      OP(12, true, b = a++)
      OP(13, true, b = --a)
      OP(14, true, std::swap(a, b))
      // comparisons
      OP(15, true, m = a < b)
      OP(16, true, m = a <= b)
      OP(17, true, m = a == b)
      OP(18, true, m = a != b)
      OP(19, true, k = a > T(2))
      OP(20, true, k = T(1) >= a)
      OP(21, true, m = !a)
      // masks
      OP(22, true, m = m and k)
      OP(23, true, m = m or k)
      OP(24, true, m = m & k)
      OP(25, true, m = m | k)
      OP(26, true, m = m ^ k)
      OP(27, true, m = !m)
      OP(28, true, m &= k)
      OP(29, true, m |= k)
      OP(30, true, m ^= k)
      OP(31, true, k = m == k)
      OP(32, true, k = m != k)
      OP(33, true, std::swap(m, k))
      OP(34, true, m = M(false))
      OP(35, true, k = M(true))
      // where
      OP(36, true, where(m, a) = b)
      OP(37, true, where(m, a) += b)
      OP(38, true, where(!m, a) -= T(1))
      OP(39, true, where(m, b) *= a)
      OP(40, true, where(k, a) = T(5))
      OP(41, true, where(m, k) = !k)
      OP(42, true, where(k, m) = true)
      OP(43, true, ++where(m, a))
      OP(44, true, where(m, a)--)
      OP(45, true, b = -where(m, a))
      OP(46, true, where(a < b, a) = b)
      // element access
      OP(47, true, a[0] = b[N - 1])
      OP(48, true, a[N - 1] += T(1))
      OP(49, true, m[N / 2] = k[0])
      OP(50, true, using std::swap; swap(a[0], a[N - 1]))
      OP(51, true, b = V(T(a[N / 2])))
      // memory
      OP(52, true, a.copy_to(s.mem + 1, I::ea))
      OP(53, true, a.copy_from(s.mem, I::ea))
      OP(54, true, b.copy_from(s.mem + N, I::ea))
      OP(55, true, where(m, a).copy_to(s.mem + N, I::ea))
      OP(56, true, where(m, b).copy_from(s.mem + 1, I::ea))
      OP(57, true, m.copy_to(s.bmem + 1, I::ea))
      OP(58, true, k.copy_from(s.bmem, I::ea))
      OP(59, true, where(m, k).copy_from(s.bmem + N, I::ea))
      OP(60, true, where(k, m).copy_to(s.bmem + N, I::ea))
      OP(61, g.small, Other t[N]; a.copy_to(t, I::ea); t[0] = 7; b.copy_from(t, I::ea))
      OP(62, g.small, Other t[N]; for (int i = 0; i < N; ++i) t[i] = 40 + i; where(m, a).copy_to(t, I::ea); where(k, b).copy_from(t, I::ea))
      // construction
      OP(63, true, a = V([&](auto i) { return static_cast<T>(b[N - 1 - i] + T(1)); }))
      OP(64, true, b = V([](auto i) { return static_cast<T>(i); }))
      OP(65, true, a = V(s.mem + 1, I::ea))
      // reductions
      OP(66, g.small, a = V(T(reduce(a) + T(0))))
      OP(67, g.product, b = V(T(reduce(a, std::multiplies<>()))))
      OP(68, g.small and g.any_m, b = V(T(reduce(where(m, a)) + T(0))))
      OP(69, not g.nan and not g.zeros_mixed, a[0] = hmin(a))
      OP(70, not g.nan and not g.zeros_mixed, a[0] = hmax(b))
      OP(71, g.any_m and g.small and not g.zeros_mixed, a = V(T(hmin(where(m, a)))))
      OP(72, g.any_m and g.small and not g.zeros_mixed, a = V(T(hmax(where(m, b)))))
      OP(73, true, a = V(T(popcount(m))))
      OP(74, g.any_m, b = V(T(find_first_set(m))))
      OP(75, g.any_m, b = V(T(find_last_set(m))))
      OP(76, true, k = M(all_of(m)))
      OP(77, true, k = M(any_of(m)))
      OP(78, true, m = M(none_of(k)))
      OP(79, true, m = M(some_of(k)))
      OP(80, g.product and g.any_m, b = V(T(reduce(where(m, a), T(1), std::multiplies<>()))))
      // algorithms
      OP(81, not g.nan and not g.zeros_mixed, a = min(a, b))
      OP(82, not g.nan and not g.zeros_mixed, b = max(a, b))
      OP(84, not g.nan and not g.zeros_mixed, a = clamp(a, min(a, b), max(a, b)))
      // conversions
      OP(85, true, b = I::template scast<V>(I::tofix(a)))
      OP(86, g.small, b = I::template scast<V>(I::template scast<typename I::template fix<Other>>(I::tofix(a))))
      OP(88, true, auto t = split_into<V>(a); T u[N]; for (int i = 0; i < N; ++i) u[i] = t[(i + 1) % N]; b.copy_from(u, I::ea))
      OP(126, true, concat_to<V>(a, b, s.mem))
      default:;
      }
    if constexpr (not fp)
      switch (op)
        {
        OP(89, not g.zero_b and not (g.min_a and g.minus1_b), a = a % b)
        OP(90, true, a = a & b)
        OP(91, true, a = a | b)
        OP(92, true, a = a ^ b)
        OP(93, true, a = ~a)
        OP(94, std::is_unsigned_v<T> or g.tiny, a = a << 1)
        OP(95, true, a = a >> 1)
        OP(96, g.tiny, a = a << b)
        OP(97, g.tiny, a = b >> a)
        OP(98, true, a &= b)
        OP(99, true, b |= a)
        OP(100, true, b ^= T(21))
        OP(101, true, a >>= 2)
        OP(102, g.tiny, b <<= a)
        OP(103, true, where(m, a) &= b)
        OP(104, true, where(m, a) |= b)
        OP(105, true, where(m, b) ^= a)
        OP(106, true, where(m, a) ^= T(3))
        OP(107, true, a = V(T(reduce(a, std::bit_xor<>()))))
        OP(108, true, a = V(T(reduce(b, std::bit_and<>()))))
        OP(109, g.any_m, a = V(T(reduce(where(m, b), std::bit_or<>()))))
        OP(110, not g.zero_b and not (g.min_a and g.minus1_b), where(m, a) /= b)
        OP(111, not g.zero_b and not (g.min_a and g.minus1_b), where(m, a) %= b)
        default:;
        }
    else
      switch (op)
        {
        OP(89, true, where(m, a) /= b)
        OP(90, true, a = sqrt(abs(a)))
        OP(91, true, a = floor(a))
        OP(92, true, a = ceil(b))
        OP(93, true, a = trunc(a / T(2)))
        OP(94, true, a = copysign(a, b))
        OP(95, true, m = isnan(a))
        OP(96, true, m = isinf(a))
        OP(97, true, k = isfinite(b))
        OP(98, true, k = signbit(a))
        OP(99, true, a = abs(a))
        OP(100, true, m = isnormal(a))
        OP(101, true, k = isunordered(a, b))
        OP(102, true, m = isless(a, b))
        OP(103, true, m = islessgreater(a, b))
        OP(104, g.small, b = fma(a, b, V(T(1))))
        OP(105, true, b = nearbyint(a * T(.5)) + T(0))
        OP(106, not g.nan and not g.zeros_mixed, b = fmax(a, b))
        OP(107, not g.nan and not g.zeros_mixed, b = fmin(a, T(2)))
        OP(108, g.small, b = fdim(a, b))
        OP(109, true, b = round(a) + T(0)) // libstdc++: +0 for -0
        OP(110, true, b = rint(a) + T(0))
        OP(111, true, k = isgreaterequal(b, a))
        default:;
        }
    return false;
#undef OP
  }

bool same(const Obs& x, const Obs& y, const char*& where, int& idx)
{
#define CMP(f) for (int i = 0; i < int(std::size(x.f)); ++i) if (not mc::same_value(x.f[i], y.f[i])) { where = #f; idx = i; return false; }
  CMP(a) CMP(b) CMP(m) CMP(k) CMP(mem) CMP(bmem)
#undef CMP
  return true;
}
std::string key(const Obs& o)
{
  std::string s;
  s.reserve(N * (2 * sizeof(T) + 2) + sizeof(o.mem));
  auto put = [&](T x) {
    if constexpr (fp) { if (x != x) x = std::numeric_limits<T>::quiet_NaN(); }
    constexpr int bytes = std::is_same_v<T, long double> ? 10 : sizeof(T);
    s.append(reinterpret_cast<const char*>(&x), bytes);
  };
  for (T x : o.a) put(x);
  for (T x : o.b) put(x);
  for (bool x : o.m) s += char(x);
  for (bool x : o.k) s += char(x);
  for (T x : o.mem) put(x);
  for (bool x : o.bmem) s += char(x);
  return s;
}

int main()
{
  mc::init();
  using L = std::numeric_limits<T>;
  mc::context = mc::name_of<VA>() + " x " + mc::name_of<VB>();
  const T pool[] = {T(2), T(0), T(5), T(1), T(3), L::max(), T(6), T(-1), fp ? -T(0) : T(7), fp ? L::infinity() : L::min(), T(4), fp ? T(.5) : T(11)};
  std::vector<Obs> frontier;
  std::vector<std::vector<unsigned char>> path;
  std::set<std::string> seen;
  for (unsigned init = 0; init < 6; ++init)
    {
      Obs o;
      for (int i = 0; i < N; ++i)
        {
          o.a[i] = init == 0 ? T(i % 7) : pool[(i * (init + 1) + init) % 12];
          o.b[i] = init == 0 ? T((N - i) % 6 + 1) : pool[(i * (init + 2) + 3 * init) % 12];
          o.m[i] = init == 0 ? i % 2 : init == 1 ? true : init == 2 ? false : (0x9d2c5680u >> ((i + init) % 32)) & 1;
          o.k[i] = init == 0 ? i % 3 == 0 : init == 3 ? true : (0xefc60000u >> ((i * 3 + init * 5) % 32)) & 1;
        }
      for (int i = 0; i < 2 * N + 1; ++i)
        { o.mem[i] = T(i % 50 + 20); o.bmem[i] = (0xb5026f5au >> ((i + init) % 32)) & 1; }
      if (seen.insert(key(o)).second)
        { frontier.push_back(o); path.push_back({static_cast<unsigned char>(init)}); }
    }
  for (int depth = 1; depth <= VIRMC_DEPTH; ++depth)
    {
      std::vector<Obs> next;
      std::vector<std::vector<unsigned char>> npath;
      for (std::size_t f = 0; f < frontier.size(); ++f)
        {
          const Guard g(frontier[f]);
          for (int op = 0; op < num_ops; ++op)
            {
              Machine<VA> x(frontier[f]);
              Machine<VB> y(frontier[f]);
              const auto& p = path[f];
              mc::op = "initial state, operations...";
              mc::nargs = 0;
              for (auto c : p)
                mc::args[mc::nargs++] = c;
              mc::args[mc::nargs++] = op;
              const bool e0 = apply(op, x, g);
              const bool e1 = apply(op, y, g);
              MC_CHECK(e0 == e1, "enabled in one machine only");
              if (not e0)
                continue;
              mc::step();
              Obs ox, oy;
              x.observe(ox);
              y.observe(oy);
              const char* reg = "";
              int idx = 0;
              if (not same(ox, oy, reg, idx))
                {
                  std::string seq;
                  for (std::size_t i = 1; i < p.size(); ++i)
                    seq += std::string(op_name[p[i]]) + "; ";
                  auto get = [&](const Obs& o) { return reg[0] == 'a' ? mc::num(o.a[idx]) : reg[0] == 'b' && reg[1] == 0 ? mc::num(o.b[idx]) :
                      reg[0] == 'm' && reg[1] == 0 ? o.m[idx] : reg[0] == 'k' ? o.k[idx] : reg[0] == 'm' ? mc::num(o.mem[idx]) : o.bmem[idx]; };
                  mc::fail("after { %s%s }: %s[%d] is %g in the fallback and %g in the standard library", seq.c_str(), op_name[op], reg, idx, get(ox), get(oy));
                }
              mc::ok();
              if (depth < VIRMC_DEPTH)
                {
                  if (seen.insert(key(ox)).second)
                    {
                      next.push_back(ox);
                      npath.push_back(p);
                      npath.back().push_back(static_cast<unsigned char>(op));
                      mc::at("state");
                    }
                }
              else
                ++mc::n_states;
            }
        }
      frontier.swap(next);
      path.swap(npath);
    }
  return mc::finish();
}

// C01-C04: ranges with more than 2^31 and more than 2^32 elements.  A small shared memory object is mapped over and over, so that
// the range is as long as needed without the memory for it.  VIRMC_ALGO: 1 for_each, 2 transform, 3 reduce, 4 count_if
#include "alg.h"

static constexpr std::size_t chunk = 16 << 20;
using T = unsigned char;

static constexpr std::size_t len = (1ul << 32) + 2 * chunk;

static T* map_repeated()       // returns the end; an inaccessible page follows
{
  char* p = static_cast<char*>(mmap(nullptr, len + 2 * mc::guarded::page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (p == MAP_FAILED)
    { std::perror("mmap"); _exit(9); }
  p += mc::guarded::page;
  const int fd = memfd_create("virmc", 0);
  if (fd < 0 or ftruncate(fd, chunk))
    { std::perror("memfd"); _exit(9); }
  for (std::size_t o = 0; o < len; o += chunk)
    if (mmap(p + o, chunk, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
      { std::perror("mmap"); _exit(9); }
  return reinterpret_cast<T*>(p + len);
}
static constexpr T value(std::size_t pos) { return T(pos * 7 + (pos >> 8) + (pos >> 16)); }

static T sum_of(const T* first, std::size_t n)
{
  T whole = 0, sum = 0;
  for (std::size_t i = 0; i < chunk; ++i)
    whole += first[i];
  sum = whole * T(n / chunk);
  for (std::size_t i = 0; i < n % chunk; ++i)
    sum += first[i];
  return sum;
}

template <typename P>
  void run(P pol, const char* name, std::size_t n, int shift)
  {
    static T* const end_of_memory = map_repeated();
    mc::context = name;
    for (std::size_t i = 0; i < chunk; ++i)
      (end_of_memory - chunk)[i] = value(i);
    T* const last = end_of_memory - shift;
    T* const first = last - n;
    mc::at("huge n,shift", n, shift);
    (void)last;
#if VIRMC_ALGO == 1
    std::size_t pos = 0;
    T sum = 0;
    vir::for_each(pol, const_cast<const T*>(first), const_cast<const T*>(last), [&](auto... v) {
      ((sum += stdx::reduce(v), pos += v.size()), ...);
    });
    MC_CHECK(pos == n, "%zu elements visited", pos);
    MC_CHECK(sum == sum_of(first, n), "sum of the visited elements (modulo 256) is %d, expected %d", sum, sum_of(first, n));
#elif VIRMC_ALGO == 2
    static T* const end_of_output = map_repeated();
    std::size_t pos = 0;
    std::fill_n(end_of_output - chunk, chunk, T());
    T* const out = end_of_output - shift - n;
    T* const end = vir::transform(pol, const_cast<const T*>(first), const_cast<const T*>(last), out, [&](auto v) {
                     pos += v.size();
                     return v;
                   });
    MC_CHECK(pos == n, "%zu elements transformed", pos);
    MC_CHECK(end == out + n, "the returned iterator is wrong: %ld instead of %zu", long(end - out), n);
    for (std::size_t i = 1; i <= 1000; ++i)
      MC_CHECK(end[-i] == last[-i], "output element %zu", n - i);
    for (std::size_t i = 0; i < chunk; ++i)           // every element of the shared object was written (n > chunk)
      MC_CHECK(out[i] == first[i], "output element %zu", i);
#elif VIRMC_ALGO == 3
    const T want = sum_of(first, n);
    const T got = vir::reduce(pol, first, last, T(3));
    MC_CHECK(got == T(want + 3), "reduce returned %d, expected %d", got, T(want + 3));
    const T got2 = vir::transform_reduce(pol, first, last, first, T(1), std::plus<>(), [](auto a, auto b) { return (a + b) ^ (a - b); });
    // a+b == 2a, a-b == 0
    MC_CHECK(got2 == T(2 * want + 1), "transform_reduce returned %d, expected %d", got2, T(2 * want + 1));
#else
    std::size_t whole = 0, want = 0;
    for (std::size_t i = 0; i < chunk; ++i)
      whole += first[i] == 200;
    want = whole * (n / chunk);
    for (std::size_t i = 0; i < n % chunk; ++i)
      want += first[i] == 200;
    const int got = vir::count_if(pol, first, last, [](auto v) { return v == T(200); });
    MC_CHECK(got == long(want), "count_if returned %d, expected %zu", got, want);
#endif
    mc::step(n);
    mc::ok();
  }

int main()
{
  mc::init(600);
  for (std::size_t n : {(1ul << 31) - 1, (1ul << 31) + 33, (1ul << 32) + 65})
    {
      run(ex::simd, "simd", n, 0);
      run(ex::simd.unroll_by<4>(), "simd.unroll_by<4>()", n, 1);
      run(ex::simd.prefer_aligned(), "simd.prefer_aligned()", n, 5);
      run(ex::simd.auto_prologue(), "simd.auto_prologue()", n, 31);
    }
  const std::size_t w = vir::simdize<T>::size();
  run(ex::simd.assume_matching_size(), "simd.assume_matching_size()", ((1ul << 32) / w + 3) * w, 2);
  return mc::finish();
}

// Memory access monitor.  The translation unit is compiled with -fsanitize=thread, but linked with these hooks instead of the
// ThreadSanitizer runtime: every access of the compiled code (library included) to memory that is not a register is reported.
#ifndef VIRMC_FOOTPRINT_H
#define VIRMC_FOOTPRINT_H
#include "mc.h"
#include <utility>

namespace fp
{
  struct range { const char* b; const char* e; };
  inline range stacks[3];            // main, coroutine 0, coroutine 1
  inline range writable[4];          // what the call under observation may write
  inline int n_writable = 0;
  inline bool on = false;
  inline unsigned long long accesses = 0;
#define VIRMC_NS __attribute__((no_sanitize("thread"), noinline))
  VIRMC_NS inline void wrote(const void* p, long n)
  {
    if (not on)
      return;
    ++accesses;
    const char* b = static_cast<const char*>(p);
    for (int i = 0; i < 3; ++i)
      if (b >= stacks[i].b and b + n <= stacks[i].e)
        return;
    for (int i = 0; i < n_writable; ++i)
      if (b >= writable[i].b and b + n <= writable[i].e)
        return;
    on = false;
    mc::fail("the call writes %ld bytes at %p, which is neither one of its arguments nor its own stack%s", n, p,
             n_writable and b + n > writable[0].b - 4096 and b < writable[0].e + 4096 ? " (near the output range)" : "");
  }
  VIRMC_NS inline void did_read() { accesses += on; }
  VIRMC_NS inline void setup()
  {
    // the main stack: from a bit below here to a bit above
    const char* here = static_cast<const char*>(__builtin_frame_address(0));
    stacks[0] = {here - (4 << 20), here + (1 << 20)};
  }
  template <typename... R>
    VIRMC_NS void observe(auto&& call, R... out)
    {
      n_writable = 0;
      ((writable[n_writable++] = {reinterpret_cast<const char*>(out.first), reinterpret_cast<const char*>(out.second)}), ...);
      call();                // once unobserved: initialization of constants on first use is nobody's business
      on = true;
      call();
      on = false;
    }
}
extern "C" {
VIRMC_NS void __tsan_init() {}
VIRMC_NS void __tsan_func_entry(void*) {}
VIRMC_NS void __tsan_func_exit(void*) {}
#define VIRMC_HOOK(n)                                                                                                  \
  VIRMC_NS void __tsan_read##n(void*) { fp::did_read(); }                                                              \
  VIRMC_NS void __tsan_write##n(void* p) { fp::wrote(p, n); }                                                          \
  VIRMC_NS void __tsan_unaligned_read##n(void*) { fp::did_read(); }                                                    \
  VIRMC_NS void __tsan_unaligned_write##n(void* p) { fp::wrote(p, n); }                                                \
  VIRMC_NS void __tsan_volatile_read##n(void*) { fp::did_read(); }                                                     \
  VIRMC_NS void __tsan_volatile_write##n(void* p) { fp::wrote(p, n); }
VIRMC_HOOK(1) VIRMC_HOOK(2) VIRMC_HOOK(4) VIRMC_HOOK(8) VIRMC_HOOK(16)
VIRMC_NS void __tsan_read_range(void*, long) { fp::did_read(); }
VIRMC_NS void __tsan_write_range(void* p, long n) { fp::wrote(p, n); }
VIRMC_NS void __tsan_vptr_update(void*, void*) {}
}
#endif

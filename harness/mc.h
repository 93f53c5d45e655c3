// Exhaustive-enumeration runtime shared by all harnesses.
// A harness walks a bounded space completely; for every point it runs the real library and compares the outcome with
// a boring reference model.  Counters are bumped by the walk itself, never constants.
#ifndef VIRMC_MC_H
#define VIRMC_MC_H
#include <algorithm>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>

#if __cplusplus < 202002L      // the C++17 configurations
namespace std
{
  template <typename T> using remove_cvref_t = remove_cv_t<remove_reference_t<T>>;
  template <typename T, typename A, typename F>
    void erase_if(vector<T, A>& v, F f) { v.erase(remove_if(v.begin(), v.end(), f), v.end()); }
}
#endif
// well-formedness of an expression in one / two types (C++17 has no requires)
#define MC_DETECT1(name, A, ...)                                                                                       \
  template <typename A, typename = void> inline constexpr bool name = false;                                           \
  template <typename A> inline constexpr bool name<A, std::void_t<decltype(__VA_ARGS__)>> = true;
#define MC_DETECT2(name, A, B, ...)                                                                                    \
  template <typename A, typename B, typename = void> inline constexpr bool name = false;                               \
  template <typename A, typename B> inline constexpr bool name<A, B, std::void_t<decltype(__VA_ARGS__)>> = true;

namespace mc
{
  inline unsigned long long n_states = 0, n_transitions = 0, n_traces = 0;
  inline std::string context;           // which instantiation
  inline const char* op = "";           // which operation
  inline long args[10];                 // its coordinates in the enumerated space
  inline int nargs = 0;
  inline int samples_left = 6;
  inline unsigned long long sample_gap = 1, sample_next = 1;

  inline void describe(FILE* f)
  {
    std::fprintf(f, "[%s] %s(", context.c_str(), op);
    for (int i = 0; i < nargs; ++i)
      std::fprintf(f, "%s%ld", i ? ", " : "", args[i]);
    std::fprintf(f, ")");
  }

  template <typename A>
    constexpr long coordinate(A a)
    {
      if constexpr (std::is_floating_point_v<A>)
        return a > -9e18 && a < 9e18 ? static_cast<long>(a) : 0;
      else
        return static_cast<long>(a);
    }

  // Announce the point about to be explored (one state of the enumerated space).
  template <typename... As>
    inline void at(const char* what, As... as)
    {
      op = what;
      long tmp[] = {0L, coordinate(as)...};
      nargs = sizeof...(As) > 10 ? 10 : sizeof...(As);
      for (int i = 0; i < nargs; ++i)
        args[i] = tmp[i + 1];
      ++n_states;
      if (n_states == sample_next && samples_left > 0)
        {
          --samples_left;
          sample_next = n_states * 7 + 13;
          std::printf("SAMPLE ");
          describe(stdout);
          std::printf("\n");
        }
    }

  inline void step(unsigned long long n = 1) { n_transitions += n; } // steps taken by the implementation
  inline void ok() { ++n_traces; }                                   // execution compared with the model and equal

  [[noreturn]] inline void fail(const char* fmt, ...)
  {
    std::fflush(stdout);
    std::printf("FAIL ");
    describe(stdout);
    std::printf(" :: ");
    va_list ap;
    va_start(ap, fmt);
    std::vprintf(fmt, ap);
    va_end(ap);
    std::printf("\n");
    std::fflush(stdout);
    _exit(3);
  }

  inline void on_signal(int sig, siginfo_t* si, void*)
  {
    std::printf("FAIL ");
    describe(stdout);
    std::printf(" :: signal %d%s at %p\n", sig, sig == SIGALRM ? " (hang)" : "", si ? si->si_addr : nullptr);
    std::fflush(stdout);
    _exit(3);
  }

  inline void init(unsigned seconds = 240)
  {
    static char* alt = nullptr;
    if (!alt)
      {
        alt = static_cast<char*>(std::malloc(1 << 16));
        stack_t ss{};
        ss.ss_sp = alt;
        ss.ss_size = 1 << 16;
        sigaltstack(&ss, nullptr);
      }
    struct sigaction sa{};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESETHAND;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGALRM})
      sigaction(s, &sa, nullptr);
    if (const char* e = std::getenv("VIRMC_ALARM"))
      seconds = std::atoi(e);
    alarm(seconds);
  }

  inline int finish()
  {
    std::printf("STATS states=%llu transitions=%llu traces=%llu\n", n_states, n_transitions, n_traces);
    std::fflush(stdout);
    return 0;
  }

  template <typename T>
    std::string name_of()
    {
      std::string s = __PRETTY_FUNCTION__;
      auto p = s.find("T = ");
      s = s.substr(p + 4);
      auto e = s.find_first_of(";]");
      return s.substr(0, e);
    }

  // A region of `bytes` usable bytes with an inaccessible page before and after.  `front` puts the usable bytes right
  // behind the leading guard page, otherwise they end right at the trailing one.
  struct guarded
  {
    static constexpr std::size_t page = 4096;
    char* base = nullptr;
    std::size_t len = 0;    // accessible bytes (multiple of page)
    explicit guarded(std::size_t bytes)
    {
      len = (bytes + page - 1) / page * page;
      base = static_cast<char*>(mmap(nullptr, len + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
      if (base == MAP_FAILED)
        { std::perror("mmap"); _exit(9); }
      writable();
    }
    guarded(const guarded&) = delete;
    ~guarded() { munmap(base, len + 2 * page); }
    char* begin() const { return base + page; }
    char* end() const { return base + page + len; }
    void readonly() const { mprotect(begin(), len, PROT_READ); }
    void writable() const { mprotect(begin(), len, PROT_READ | PROT_WRITE); }
  };

  template <typename T>
    inline bool same_bits(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }

  // value equality where NaN == NaN and -0 != +0
  template <typename T>
    inline bool same_value(T a, T b)
    {
      if constexpr (std::is_floating_point_v<T>)
        {
          if (a != a || b != b)
            return a != a && b != b;
          return a == b && __builtin_signbit(a) == __builtin_signbit(b);
        }
      else
        return a == b;
    }

  template <typename T>
    inline double num(T x) { return static_cast<double>(x); }
}

#define MC_CHECK(cond, ...) ((cond) ? void() : ::mc::fail(__VA_ARGS__))
#endif

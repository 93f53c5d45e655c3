// C24: precondition checks fire exactly when violated, at the selected level.
// Every case runs in a child process; the model says how the child has to end and what it prints.
#include "mc.h"
#include <sys/wait.h>
#include <array>
#include <vector>
#include <string>
// every conversion of a format string needs an argument of its type, and every argument a conversion
namespace mcfmt
{
  template <typename A>
    constexpr std::string_view conversions()
    {
      if constexpr (std::is_same_v<A, int>) return " d i c hd hi hhd hhi ";
      else if constexpr (std::is_same_v<A, unsigned>) return " u x X o ";
      else if constexpr (std::is_same_v<A, long>) return " ld li td ti zd zi jd ";
      else if constexpr (std::is_same_v<A, unsigned long>) return " lu lx lX lo zu zx zX ju ";
      else if constexpr (std::is_same_v<A, long long>) return " lld lli ";
      else if constexpr (std::is_same_v<A, unsigned long long>) return " llu llx ";
      else if constexpr (std::is_same_v<A, double> or std::is_same_v<A, float>) return " f g e F G E a A ";
      else if constexpr (std::is_convertible_v<A, const char*>) return " s p ";
      else return " p ";
    }
  template <typename... As>
    bool fits(const char* f)
    {
      const std::string_view allowed[] = {conversions<std::decay_t<As>>()..., ""};
      std::size_t n = 0;
      for (; *f; ++f)
        if (*f == '%' and *++f != '%')
          {
            while (*f and std::strchr("-+ #0123456789.", *f)) ++f;
            std::string c = " ";
            while (*f and std::strchr("hlzjtL", *f)) c += *f++;
            if (n == sizeof...(As) or not *f or allowed[n++].find(c + *f + ' ') == std::string_view::npos)
              return false;
          }
      return n == sizeof...(As);
    }
}
namespace std
{
  template <typename... As>
    inline int mc_checked_fprintf(FILE* s, const char* f, const As&... as)
    {
      if (not mcfmt::fits<decltype(+as)...>(f))
        fputs("MC: the arguments do not fit the format string: ", s);
      return (fprintf)(s, f, as...);
    }
}
using std::mc_checked_fprintf;
#define fprintf mc_checked_fprintf
#include <vir/simd.h>
#undef fprintf
#include <vir/simd_execution.h>
#ifndef VIRMC_LEVEL
#define VIRMC_LEVEL 3                 // the documented default
#endif
#if VIRMC_LEVEL != VIR_CHECK_PRECONDITIONS
#error "VIR_CHECK_PRECONDITIONS does not have the expected value"
#endif
namespace stdx = vir::stdx;

enum class End { ok, trap, message };
constexpr End violated = VIRMC_LEVEL < 4 ? End::trap : End::message;

// runs f in a child; hide = values the optimizer must not know
template <typename F>
  void run(const char* name, long a, long b, bool holds, F f, const char* expect1 = nullptr, const char* expect2 = nullptr)
  {
    if (not holds and VIRMC_LEVEL < 2)
      return;                          // undefined behaviour was asked for
    mc::at(name, a, b, holds);
    int fd[2];
    if (pipe(fd)) _exit(9);
    std::fflush(stdout);
    const pid_t p = fork();
    if (p == 0)
      {
        for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP})
          signal(s, SIG_DFL);
        dup2(fd[1], 2);
        close(fd[0]);
        close(fd[1]);
        const bool r = f();
        _exit(r ? 0 : 1);
      }
    close(fd[1]);
    std::string msg;
    char buf[4096];
    for (ssize_t n; (n = read(fd[0], buf, sizeof(buf))) > 0;)
      msg.append(buf, n);
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (holds)
      {
        MC_CHECK(WIFEXITED(st) and WEXITSTATUS(st) == 0, "the precondition holds, but the call ended with status %x: %s", st, msg.c_str());
        MC_CHECK(msg.empty(), "the precondition holds, but something was printed: %s", msg.c_str());
      }
    else if (violated == End::trap)
      {
        MC_CHECK(WIFSIGNALED(st) and (WTERMSIG(st) == SIGILL or WTERMSIG(st) == SIGTRAP), "no trap on a violated precondition (status %x)", st);
        MC_CHECK(msg.empty(), "a trap must not print: %s", msg.c_str());
      }
    else
      {
        MC_CHECK(WIFSIGNALED(st) and WTERMSIG(st) == SIGABRT, "no abort on a violated precondition (status %x)", st);
        MC_CHECK(msg.find("precondition failure") != std::string::npos, "no message on a violated precondition: '%s'", msg.c_str());
        MC_CHECK(msg.find("MC:") == std::string::npos, "the message is formatted with arguments that do not fit: %s", msg.c_str());
        MC_CHECK(not expect1 or msg.find(expect1) != std::string::npos, "the message does not mention '%s': %s", expect1, msg.c_str());
        MC_CHECK(not expect2 or msg.find(expect2) != std::string::npos, "the message does not mention '%s': %s", expect2, msg.c_str());
      }
    mc::step();
    mc::ok();
  }

template <typename X>
  [[gnu::noipa]] auto read_const(const X& x, std::size_t i) { return x[i]; }
template <typename X, typename E>
  [[gnu::noipa]] void write(X& x, std::size_t i, E e) { x[i] = e; }

template <typename X, typename E>
  void subscripts()
  {
    mc::context = mc::name_of<X>();
    constexpr std::size_t N = X::size();
    auto one = [](std::size_t i) {
      const std::string num = std::to_string(i), top = "[0, " + std::to_string(N - 1) + "]";
      run("read", i, N, i < N, [i] { X x(E(1)); return read_const(x, i) == E(1); }, num.c_str(), top.c_str());
      run("write", i, N, i < N, [i] { X x(E(0)); write(x, i, E(1)); return read_const(x, i) == E(1); }, num.c_str(), top.c_str());
    };
    for (std::size_t i = 0; i < N + 3; ++i)
      one(i);
    for (std::size_t i : {std::size_t(-1), std::size_t(-2), std::size_t(64), std::size_t(1) << 32, std::size_t(1) << 63, (std::size_t(1) << 32) + 1})
      one(i);
  }

template <typename M>
  [[gnu::noipa]] int ffs(const M& m) { return stdx::find_first_set(m); }
template <typename M>
  [[gnu::noipa]] int fls(const M& m) { return stdx::find_last_set(m); }
template <typename M>
  void find_set()
  {
    mc::context = mc::name_of<M>();
    constexpr int N = M::size();
    for (int i = -1; i < N; ++i)
      {
        M m(false);
        if (i >= 0)
          m[i] = true;
        run("find_first_set", i, N, i >= 0, [&] { return ffs(m) == i; }, "find_first_set");
        run("find_last_set", i, N, i >= 0, [&] { return fls(m) == i; }, "find_last_set");
      }
  }

template <typename T>
  struct Data { std::vector<T> v; explicit Data(int n) : v(n, T(1)) {} };
template <typename T, typename P>
  [[gnu::noipa]] bool do_for_each(P pol, std::vector<T>& v) { std::for_each(pol, v.begin(), v.end(), [](auto&... x) { ((x += T(1)), ...); }); return v.empty() or v.back() == T(2); }
template <typename T, typename P>
  [[gnu::noipa]] bool do_transform(P pol, std::vector<T>& v, std::vector<T>& o) { std::transform(pol, v.begin(), v.end(), o.begin(), [](auto x) { return x + T(1); }); return v.empty() or o.back() == T(2); }
template <typename T, typename P>
  [[gnu::noipa]] bool do_reduce(P pol, std::vector<T>& v) { return std::transform_reduce(pol, v.begin(), v.end(), T(0), std::plus<>(), [](auto x) { return x; }) == T(v.size()); }
template <typename T, typename P>
  [[gnu::noipa]] bool do_reduce2(P pol, std::vector<T>& v) { return std::reduce(pol, v.begin(), v.end(), T(0), std::plus<>()) == T(v.size()); }
template <typename T, typename P>
  [[gnu::noipa]] bool do_count(P pol, std::vector<T>& v) { return std::count_if(pol, v.begin(), v.end(), [](auto x) { return x == T(1); }) == long(v.size()); }

template <typename T, typename P>
  void matching(const char* pname, P pol, int size)
  {
    mc::context = mc::name_of<T>() + " " + pname;
    for (int n = 0; n <= 3 * size + 1; ++n)
      {
        Data<T> d(n), o(n);
        const bool holds = n % size == 0;
        const std::string num = "(" + std::to_string(n) + ")", w = "(" + std::to_string(size) + ")";
        run("for_each", n, size, holds, [&] { return do_for_each<T>(pol, d.v); }, num.c_str(), w.c_str());
        run("transform", n, size, holds, [&] { return do_transform<T>(pol, d.v, o.v); }, num.c_str(), w.c_str());
        run("transform_reduce", n, size, holds, [&] { return do_reduce<T>(pol, d.v); }, num.c_str(), w.c_str());
        run("reduce", n, size, holds, [&] { return do_reduce2<T>(pol, d.v); }, num.c_str(), w.c_str());
        run("count_if", n, size, holds, [&] { return do_count<T>(pol, d.v); }, num.c_str(), w.c_str());
      }
  }

int main()
{
  mc::init();
#if VIRMC_PART == 0
#ifdef VIR_DISABLE_STDX_SIMD
  subscripts<stdx::simd<int, stdx::simd_abi::scalar>, int>();
  subscripts<stdx::simd<float, stdx::simd_abi::scalar>, float>();
  subscripts<stdx::fixed_size_simd<int, 1>, int>();
  subscripts<stdx::fixed_size_simd<float, 2>, float>();
  subscripts<stdx::fixed_size_simd<short, 3>, short>();
  subscripts<stdx::fixed_size_simd<double, 8>, double>();
  subscripts<stdx::fixed_size_simd<signed char, 31>, signed char>();
  subscripts<stdx::fixed_size_simd<long double, 32>, long double>();
  subscripts<stdx::simd_mask<int, stdx::simd_abi::scalar>, bool>();
  subscripts<stdx::fixed_size_simd_mask<int, 1>, bool>();
  subscripts<stdx::fixed_size_simd_mask<float, 3>, bool>();
  subscripts<stdx::fixed_size_simd_mask<float, 8>, bool>();
  subscripts<stdx::fixed_size_simd_mask<float, 32>, bool>();
  find_set<stdx::simd_mask<float, stdx::simd_abi::scalar>>();
  find_set<stdx::fixed_size_simd_mask<float, 1>>();
  find_set<stdx::fixed_size_simd_mask<int, 2>>();
  find_set<stdx::fixed_size_simd_mask<int, 3>>();
  find_set<stdx::fixed_size_simd_mask<char, 8>>();
  find_set<stdx::fixed_size_simd_mask<double, 32>>();
#endif
#else
  namespace ex = vir::execution;
  matching<float>("assume_matching_size", ex::simd.assume_matching_size(), stdx::native_simd<float>::size());
  matching<float>("prefer_size<4>.assume_matching_size", ex::simd.prefer_size<4>().assume_matching_size(), 4);
  matching<int>("assume_matching_size.prefer_size<3>", ex::simd.assume_matching_size().prefer_size<3>(), 3);
  matching<short>("unroll_by<2>.prefer_size<4>.assume_matching_size", ex::simd.unroll_by<2>().prefer_size<4>().assume_matching_size(), 4);
  matching<double>("assume_matching_size.prefer_size<2>.prefer_aligned", ex::simd.assume_matching_size().prefer_size<2>(), 2);
#endif
  return mc::finish();
}

// Value alphabets: every value of 8-bit types, the boundary values of wider ones.
#ifndef VIRMC_VALS_H
#define VIRMC_VALS_H
#include "mc.h"
#include <cmath>
#include <utility>

namespace mc
{
  template <typename T>
    std::vector<T> alphabet()
    {
      using L = std::numeric_limits<T>;
      std::vector<T> r;
      if constexpr (std::is_same_v<T, bool>)
        r = {false, true};
      else if constexpr (sizeof(T) == 1)
        for (int i = 0; i < 256; ++i)
          r.push_back(static_cast<T>(i));
      else if constexpr (std::is_floating_point_v<T>)
        {
          for (T x : {T(0), T(1), T(2), T(.5), T(1.5), T(2.5), T(3), T(.1L), T(7.75), T(127.5), T(128), T(255.4), T(1e4),
                      T(32767.5), T(1234567), T(16777217), L::max(), L::min(), L::denorm_min(), L::epsilon(),
                      L::infinity(), L::quiet_NaN(), std::nextafter(T(1), T(0)), std::nextafter(T(1), T(2)),
                      std::sqrt(L::max()) * 2, std::sqrt(L::min()) / 2, T(L::min() / 2), T(.49999997f)})
            {
              r.push_back(x);
              r.push_back(-x);
            }
        }
      else
        {
          for (int b = 0; b < int(sizeof(T) * 8); b += (b < 9 or b >= int(sizeof(T) * 8) - 2) ? 1 : 5)
            {
              const auto p = static_cast<std::make_unsigned_t<T>>(std::make_unsigned_t<T>(1) << b);
              r.push_back(static_cast<T>(p));
              r.push_back(static_cast<T>(p - 1));
              r.push_back(static_cast<T>(~p));
            }
          for (T x : {T(0), T(3), T(5), T(10), T(100), T(L::max()), T(L::max() - 1), T(L::min()), T(L::min() + 1),
                      static_cast<T>(0x5a5a5a5a5a5a5a5aull), static_cast<T>(0xa5c3f00d12345678ull)})
            r.push_back(x);
          std::vector<T> u;
          for (T x : r)
            {
              bool dup = false;
              for (T y : u)
                dup = dup or x == y;
              if (not dup)
                u.push_back(x);
            }
          r = u;
        }
      return r;
    }

  // a short list of representative values
  template <typename T>
    std::vector<T> few()
    {
      using L = std::numeric_limits<T>;
      if constexpr (std::is_floating_point_v<T>)
        return {T(0), -T(0), T(1), T(-1.5), T(2), T(3.25), T(-7), L::max(), L::lowest(), L::infinity(), -L::infinity(), L::quiet_NaN(), L::denorm_min()};
      else
        return {T(0), T(1), T(2), T(3), T(-1), T(-2), T(5), L::max(), L::min(), T(L::max() / 2), T(L::min() + 1), T(0x55)};
    }
}
#endif

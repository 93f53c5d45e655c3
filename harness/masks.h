// Enumerates mask contents: all of them up to `full` elements, above that everything with at most two elements deviating
// from all-set/all-clear plus all prefixes, suffixes and periodic patterns.
#ifndef VIRMC_MASKS_H
#define VIRMC_MASKS_H
#include "mc.h"
namespace mc
{
  inline std::vector<std::uint64_t> mask_patterns(int n, int full = 8)
  {
    const std::uint64_t all = n == 64 ? ~0ull : (1ull << n) - 1;
    std::vector<std::uint64_t> r;
    if (n <= full)
      {
        for (std::uint64_t b = 0; b <= all; ++b)
          r.push_back(b);
        return r;
      }
    r = {0, all};
    for (int i = 0; i < n; ++i)
      {
        r.push_back(1ull << i);
        r.push_back(all ^ (1ull << i));
        r.push_back(all >> i);
        r.push_back((all << i) & all);
        for (int j = i + 1; j < n; ++j)
          {
            r.push_back((1ull << i) | (1ull << j));
            r.push_back(all ^ ((1ull << i) | (1ull << j)));
          }
      }
    for (int per = 2; per <= 8; ++per)
      for (int ph = 0; ph < per; ++ph)
        {
          std::uint64_t b = 0;
          for (int i = ph; i < n; i += per)
            b |= 1ull << i;
          r.push_back(b);
          r.push_back(all ^ b);
        }
    return r;
  }
  template <typename M>
    M make_mask(std::uint64_t b)
    {
      M m(false);
      for (int i = 0; i < int(M::size()); ++i)
        m[i] = bool(b >> i & 1);
      return m;
    }
}
#endif

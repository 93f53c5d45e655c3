// C11: aggregates with members of class type that cannot be initialized from a braced list of one value of any type
#include "reflect.h"
#include <complex>
struct Cx { std::complex<float> a, b; };
struct Empty {};
struct Em { float a; Empty b; };
int main()
{
  mc::init();
#if VIRMC_PART == 0
  mc::context = "struct { std::complex<float> a, b; }";
  Want<Cx, std::complex<float>, std::complex<float>>::size();
#else
  mc::context = "struct { float a; Empty b; }";
  Want<Em, float, Empty>::size();
#endif
  return mc::finish();
}

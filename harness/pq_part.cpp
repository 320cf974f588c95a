#include "pq.h"
using namespace pqd;
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(pqpart, PART)() {
  geoPart<(PART & 1) != 0, (PART & 2) != 0, (PART & 4) != 0>();
#if PART == 0
  heapConfig<Small, false, true>("small"); heapConfig<Small, false, false>("small");
  heapConfig<Small, true, true>("small"); heapConfig<Small, true, false>("small");
  heapConfig<Odd, false, false>("odd"); heapConfig<Odd, true, false>("odd");
#endif
#if PART == 1
  heapConfig<Big, false, true>("big"); heapConfig<Big, true, true>("big");
  heapConfig<Own, false, true>("own"); heapConfig<Own, true, true>("own");
  heapConfig<Own, false, false>("own"); heapConfig<Own, true, false>("own");
#endif
#if PART == 2
  tourConfig<Small>("small"); tourConfig<Odd>("odd"); tourConfig<Own>("own"); tourConfig<OwnMv>("ownm");
  setConfig<Small>("small"); setConfig<Own>("own"); setConfig<OwnMv>("ownm");
  heapConfig<OwnMv, false, true>("ownm"); heapConfig<OwnMv, true, false>("ownm");
#endif
}

#include "div.h"
using namespace dv;
#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)
void CAT(part,PART)() {
#if PART == 0
  addList<false, false>(); addList<true, false>();
#elif PART == 1
  addList<false, true>(); addList<true, true>();
#elif PART == 2
  addTree<true, 0, 1, true>(); addTree<true, 0, 2, true>(); addTree<true, 0, 2, false>();
#elif PART == 3
  addTree<true, 1, 1, true>(); addTree<true, 1, 3, true>(); addTree<true, 1, 8, true>();
#elif PART == 4
  addTree<true, 2, 1, true>(); addTree<true, 2, 2, true>(); addTree<true, 2, 3, false>();
#elif PART == 5
  addTree<false, 0, 1, true>(); addTree<false, 0, 2, true>(); addTree<false, 0, 3, false>();
#elif PART == 6
  addTree<false, 1, 1, true>(); addTree<false, 1, 3, true>(); addTree<false, 1, 8, true>();
#elif PART == 7
  addTree<false, 2, 1, true>(); addTree<false, 2, 2, true>(); addTree<false, 2, 3, false>();
#elif PART == 8
  addList<false, false, Rich>("-obj"); addList<true, true, Rich>("-obj");
  addTree<true, 0, 1, true, Rich>("-obj"); addTree<true, 2, 3, true, Rich>("-obj");
#elif PART == 9
  addTree<false, 0, 1, true, Rich>("-obj"); addTree<false, 2, 3, true, Rich>("-obj");
  addTree<true, 1, 2, true, RichMv>("-objm"); addTree<false, 1, 2, false, RichMv>("-objm"); addList<false, true, RichMv>("-objm");
#elif PART == 10   // other exponent types; entries that are not monomials
  addTree<true, 2, 2, true, Mono, unsigned>("-uns"); addTree<false, 1, 3, true, Item, long long>("-item-wide"); addList<true, true, Item, unsigned>("-item-uns");
#elif PART == 11
  addTree<false, 2, 2, true, Mono, unsigned char>("-byte"); addTree<true, 1, 3, true, Item, short>("-item-byte"); addList<false, true, Mono, unsigned char>("-byte");
#endif
}

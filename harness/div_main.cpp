#include "div.h"
void part0(); void part1(); void part2(); void part3(); void part4(); void part5(); void part6(); void part7(); void part8(); void part9(); void part10(); void part11();
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=2000:hard_rss_limit_mb=3000:detect_stack_use_after_return=0"; }
int main(int argc, char** argv) {
  part0(); part1(); part2(); part3(); part4(); part5(); part6(); part7(); part8(); part9(); part10(); part11();
  return vh::mainLoop(argc, argv);
}

#include "vh.h"
void pqpart0(); void pqpart1(); void pqpart2(); void pqpart3(); void pqpart4(); void pqpart5(); void pqpart6(); void pqpart7();
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=2000:hard_rss_limit_mb=3000:detect_stack_use_after_return=0"; }
int main(int argc, char** argv) {
  pqpart0(); pqpart1(); pqpart2(); pqpart3(); pqpart4(); pqpart5(); pqpart6(); pqpart7();
  return vh::mainLoop(argc, argv);
}

// Stand-in for the shell call of the debug diagnostics: counted, not made.
#include <atomic>
#include <cstdlib>
namespace vf { std::atomic<long> systemCalls{0}; }
extern "C" int system(const char* cmd)
{
    if (cmd) vf::systemCalls.fetch_add(1);
    return 0;
}

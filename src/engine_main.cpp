#include "engine.h"
#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#ifdef VF_ASAN
#include <sanitizer/lsan_interface.h>
#endif
using namespace vf;
int main(int argc, char** argv)
{
    Ctx x;
    x.parse(argc, argv);
    muteStdout(x.verbose);
    mvlt::SetBackTraceFormat(mvlt::BackTraceFormat::None);
    for (int k = 0; k < KINDS; ++k) if (kind(k).def < 0) { fprintf(stderr, "no default in table\n"); return 3; }
    const long base = Tracked::live();
    const bool objects = x.prop == "P12";
    return x.run([&](long c, Rng& rng)
    {
        if (x.prop == "P26") mvlt::SetBackTraceFormat(rng.chance(50) ? mvlt::BackTraceFormat::Compact : mvlt::BackTraceFormat::None);
        Profile p = profileFor(x.prop, rng);
        {
            Engine e(x, rng, p);
            e.run(rng.chance(75) ? rng.range(10, 60) : rng.range(60, 160));
        }
        if (objects)
        {
            std::string err = Tracked::errors().empty() ? "" : Tracked::errors()[0];
            if (!err.empty()) throw Violation{"stored object: " + err};
            if (Tracked::live() != base) throw Violation{"stored objects: " + std::to_string(Tracked::live() - base) + " objects are still alive after all handles are gone"};
            x.cnt("object_balance_checks");
#ifdef VF_ASAN
            if (c % 25 == 24 || c + 1 == x.to)
            {
                x.cnt("leak_checks");
                if (__lsan_do_recoverable_leak_check()) throw Violation{"memory leak (LeakSanitizer) in one of the last 25 cases"};
            }
#endif
        }
        else if (Tracked::live() != base) Tracked::errors().clear();
    });
}

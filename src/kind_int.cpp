#include "kinds.h"
namespace vf {
template <> const std::vector<int>& table<int>()
{
    static const std::vector<int> t = [] {
        std::vector<int> r = {INT32_MIN, INT32_MIN + 1, -2000000000, -1000000, -257, -256, -17, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 64, 127, 128, 255, 256, 257, 541, 1031, 65535, 65536, 1000000, 2000000000, INT32_MAX - 1, INT32_MAX};
        return r; }();
    return t;
}
const KindOps& kind_int() { static KindOpsT<int> k("int"); return k; }
}

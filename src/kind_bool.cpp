#include "kinds.h"
#include <limits>
namespace vf {
template <> const std::vector<bool>& table<bool>() { static const std::vector<bool> t = {false, true}; return t; }
template <> const std::vector<std::uint16_t>& table<std::uint16_t>() { static const std::vector<std::uint16_t> t = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 100, 255, 256, 257, 1000, 32767, 32768, 65534, 65535}; return t; }
const KindOps& kind_bool() { static KindOpsT<bool> k("bool"); return k; }
const KindOps& kind_u16() { static KindOpsT<std::uint16_t> k("uint16"); return k; }
}

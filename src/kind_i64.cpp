#include "kinds.h"
#include <limits>
namespace vf {
template <> const std::vector<std::int64_t>& table<std::int64_t>() { static const std::vector<std::int64_t> t = {INT64_MIN, INT64_MIN + 1, -4294967297ll, -2147483649ll, -65536, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 65536, 2147483648ll, 4294967296ll, 4294967297ll, 1ll << 53, INT64_MAX - 1, INT64_MAX}; return t; }
template <> const std::vector<std::uint64_t>& table<std::uint64_t>() { static const std::vector<std::uint64_t> t = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 65536, 2147483648ull, 4294967296ull, 4294967297ull, 1ull << 53, 1ull << 63, (1ull << 63) + 1, UINT64_MAX - 1, UINT64_MAX}; return t; }
const KindOps& kind_i64() { static KindOpsT<std::int64_t> k("int64"); return k; }
const KindOps& kind_u64() { static KindOpsT<std::uint64_t> k("uint64"); return k; }
}

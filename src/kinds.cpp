#include "kinds.h"
namespace vf {
const char* const cmpName[] = {">", ">=", "==", "<=", "<", "in"};
const KindOps& kind_int(); const KindOps& kind_str(); const KindOps& kind_dbl(); const KindOps& kind_bool(); const KindOps& kind_i64();
const KindOps& kind_u16(); const KindOps& kind_flt(); const KindOps& kind_trk(); const KindOps& kind_u64();
const KindOps& kind(int k)
{
    static const KindOps* t[KINDS] = {&kind_int(), &kind_str(), &kind_dbl(), &kind_bool(), &kind_i64(), &kind_u16(), &kind_flt(), &kind_trk(), &kind_u64()};
    return *t[k];
}

std::unique_ptr<ReqNode> combineAnd(const ReqNode& a, const ReqNode& b);
std::unique_ptr<ReqNode> combineOr(const ReqNode& a, const ReqNode& b);
std::unique_ptr<ReqNode> combine(bool isAnd, const ReqNode& a, const ReqNode& b) { return isAnd ? combineAnd(a, b) : combineOr(a, b); }
}

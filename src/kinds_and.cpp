#include "kinds.h"
namespace vf {
typedef VaultRequestType RT;
template <RT A, RT B> static std::unique_ptr<ReqNode> c2(const ReqNode& a, const ReqNode& b)
{
    const mvlt::VaultRequest<A>& x = static_cast<const ReqNodeT<A>&>(a).r;
    const mvlt::VaultRequest<B>& y = static_cast<const ReqNodeT<B>&>(b).r;
    return std::unique_ptr<ReqNode>(new ReqNodeT<RT::And>(x && y));
}
template <RT A> static std::unique_ptr<ReqNode> c1(const ReqNode& a, const ReqNode& b)
{
    switch (b.type())
    {
    case RT::Greater: return c2<A, RT::Greater>(a, b);
    case RT::GreaterOrEqual: return c2<A, RT::GreaterOrEqual>(a, b);
    case RT::Equal: return c2<A, RT::Equal>(a, b);
    case RT::LessOrEqual: return c2<A, RT::LessOrEqual>(a, b);
    case RT::Less: return c2<A, RT::Less>(a, b);
    case RT::Or: return c2<A, RT::Or>(a, b);
    default: return c2<A, RT::And>(a, b);
    }
}
std::unique_ptr<ReqNode> combineAnd(const ReqNode& a, const ReqNode& b)
{
    switch (a.type())
    {
    case RT::Greater: return c1<RT::Greater>(a, b);
    case RT::GreaterOrEqual: return c1<RT::GreaterOrEqual>(a, b);
    case RT::Equal: return c1<RT::Equal>(a, b);
    case RT::LessOrEqual: return c1<RT::LessOrEqual>(a, b);
    case RT::Less: return c1<RT::Less>(a, b);
    case RT::Or: return c1<RT::Or>(a, b);
    default: return c1<RT::And>(a, b);
    }
}
}

#include "kinds.h"
#include <limits>
namespace vf {
template <class F> static std::vector<F> fp()
{
    typedef std::numeric_limits<F> L;
    std::set<F> s = {-L::infinity(), -L::max(), -1e30f, -123456.5f, -2, -1, -0.5f, -L::min(), -L::denorm_min(), 0, L::denorm_min(), L::min(), L::epsilon(), 0.25f, 0.5f, 1, 1 + L::epsilon(), 1.5f, 2, 3, 4, 5, 10, 100, 1000, 65536, 16777216, 1e9f, 1e30f, L::max(), L::infinity()};
    return std::vector<F>(s.begin(), s.end());
}
template <> const std::vector<double>& table<double>() { static const std::vector<double> t = fp<double>(); return t; }
template <> const std::vector<float>& table<float>() { static const std::vector<float> t = fp<float>(); return t; }
const KindOps& kind_dbl() { static KindOpsT<double> k("double"); return k; }
const KindOps& kind_flt() { static KindOpsT<float> k("float"); return k; }
}

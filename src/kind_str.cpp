#include "kinds.h"
namespace vf {
template <> const std::vector<std::string>& table<std::string>()
{
    static const std::vector<std::string> t = [] {
        std::set<std::string> s = {"", " ", "a", "A", "aa", "ab", "b", "B", "ba", "null", "0", "1", "10", "2", "-1", "true", "false", ",", ";", "\"", "\"\"", "\n", "\r\n", "\t", "\\", "/", "{}", "[1]", "\x01", "\x7f",
            "\xd0\x9f\xd1\x80", "\xff\xfe", std::string(1, '\0'), std::string("a\0b", 3), std::string(15, 'x'), std::string(16, 'x'), std::string(40, 'y'), std::string(300, 'z'), "key", "Key", "zz", "~"};
        return std::vector<std::string>(s.begin(), s.end()); }();
    return t;
}
const KindOps& kind_str() { static KindOpsT<std::string> k("string"); return k; }
}

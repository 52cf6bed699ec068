// Compiled once per block size (the library's namespace is renamed for the second copy).
#include "CsvParser/CsvParser.h"
#include "csv_normal.h"
#ifndef VF_PARSE
#define VF_PARSE parseSmall
#endif
bool vf::VF_PARSE(const std::string& file, char sep, std::vector<std::vector<std::string>>& out, std::size_t limit, const std::string& before, int lines)
{
    mvlt::CsvParser p;
    if (!before.empty())
    {
        // the same parser was used for another file, or had none yet
        std::vector<std::string> u = {"stale"};
        if (lines & 1) if (p.GetNextVector(u, sep) || !u.empty()) { out.push_back({"#reads without a file"}); return true; }
        if (p.OpenFile(before)) for (int i = 0; i < lines; ++i) p.GetNextVector(u, sep);
    }
    if (!p.OpenFile(file)) return false;
    std::vector<std::string> v = {"stale"};
    while (p.GetNextVector(v, sep))
    {
        out.push_back(v);
        if (out.size() > limit) { out.push_back({"#endless"}); return true; }
    }
    for (int i = 0; i < 3; ++i) if (p.GetNextVector(v, sep)) { out.push_back({"#goes on after the end"}); break; }
    return true;
}

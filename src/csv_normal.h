#pragma once
#include <string>
#include <vector>
namespace vf
{
    // the parser built with the block sizes of ordinary builds
    bool parseNormal(const std::string& file, char sep, std::vector<std::vector<std::string>>& out, std::size_t limit, const std::string& before = "", int lines = 0);
    // the parser built with small blocks
    bool parseSmall(const std::string& file, char sep, std::vector<std::vector<std::string>>& out, std::size_t limit, const std::string& before = "", int lines = 0);
}

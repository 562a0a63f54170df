// cppcodec is not installed here: an invertible stand-in (assumption: base64's round trip is exact).
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace cppcodec
{
    struct base64_rfc4648
    {
        static std::string encode(const std::vector<uint8_t> &v)
        {
            std::string s;
            for (uint8_t x : v) s.push_back(char('A' + (x >> 4))), s.push_back(char('A' + (x & 15)));
            return s;
        }
        static void decode(std::vector<uint8_t> &v, const std::string &s)
        {
            v.clear();
            for (size_t i = 0; i + 1 < s.size(); i += 2) v.push_back(uint8_t((s[i] - 'A') << 4 | (s[i + 1] - 'A')));
        }
    };
}

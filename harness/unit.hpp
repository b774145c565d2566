// Reporting for harnesses which judge library functions against reference definitions.
#ifndef VERIF_UNIT_HPP
#define VERIF_UNIT_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <vector>
#include "mon.hpp"
namespace unit {
inline std::map<std::string, int> failed;
inline std::map<std::string, unsigned long long> stats;
inline std::string hex(const void* p, std::size_t n)
{
    std::string r;
    char b[4];
    for (std::size_t i = 0; i < n; ++i) { std::snprintf(b, sizeof b, "%02x", static_cast<const unsigned char*>(p)[i]); r += b; }
    return r.empty() ? "-" : r;
}
inline std::string hex(std::u8string_view s) { return hex(s.data(), s.size()); }
inline void fail(const std::string& key, const std::string& detail)
{
    if (failed[key]++ < 2) { std::printf("FAIL %s|%s\n", key.c_str(), detail.c_str()); std::fflush(stdout); }
}
inline void sample(const std::string& s) { std::printf("SAMPLE %s\n", s.c_str()); }
inline void done()
{
    for (auto& [k, v] : stats) std::printf("STAT %s %llu\n", k.c_str(), v);
    for (auto& [k, v] : failed) std::printf("STAT failed.%s %d\n", k.c_str(), v);
    std::printf("DONE\n");
}
struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    std::uint64_t next() { s += 0x9E3779B97F4A7C15ull; std::uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    std::size_t below(std::size_t n) { return n ? next() % n : 0; }
    bool chance(int percent) { return below(100) < std::size_t(percent); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
// The bytes live in an allocation of exactly their size, so that AddressSanitizer sees every overrun.
struct Exact {
    char8_t* p; std::size_t n;
    explicit Exact(std::u8string_view s) : p(static_cast<char8_t*>(std::malloc(s.size() ? s.size() : 1))), n(s.size()) { if (n) std::memcpy(p, s.data(), n); }
    ~Exact() { std::free(p); }
    Exact(const Exact&) = delete;
    std::u8string_view view() const { return { n ? p : p + 0, n }; }
};
}
#endif

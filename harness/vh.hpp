// Common support for all drivers: seeded cases, counters, violations, evidence.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <vector>
#include <stdexcept>

namespace vh
{

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool chance(unsigned pct) { return below(100) < pct; }
    template <typename T> T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
    template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

inline uint64_t hashMix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdull;
}
inline uint64_t hashStr(std::string const& s, uint64_t h = 1469598103934665603ull)
{
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

using Bytes = std::vector<uint8_t>;
std::string hex(Bytes const&, size_t max = 96);

struct Ctx
{
    std::string prop;
    uint64_t seed = 1;
    bool thorough = false;
    unsigned shard = 0, nshards = 1;
    long onlyCase = -1;
    std::string onlySuite;
    std::string outPath;
    unsigned scale = 100; // percent of the case counts
};
extern Ctx ctx;

// thread-safe statistics / verdict
void count(std::string const& name, uint64_t n = 1);
void maxi(std::string const& name, uint64_t v);
void distinct(std::string const& kind, uint64_t h);   // distinct observed behaviours
void sample(std::string const& s);
void viol(std::string const& key, std::string const& detail);
bool failed();
unsigned numViol();
std::string fmt(const char*, ...) __attribute__((format(printf, 1, 2)));

#define VCHECK(cond, key, ...) do { vh::count("checks"); if (!(cond)) vh::viol(key, vh::fmt(__VA_ARGS__)); } while (0)

// Runs fn for every case of the suite that belongs to this shard; cases = full count for the tier.
void suite(std::string const& name, uint64_t quickCases, uint64_t thoroughCases, std::function<void(Rng&, uint64_t)> fn);

struct StopCase {}; // thrown by drivers to abandon a case after a violation

// log recent actions of the current case: part of the replay information
void clearTrace();
void trace(std::string const& s);
std::string takeTrace();

int mainImpl(int argc, char** argv, std::map<std::string, std::function<void()>> const& props);

} // namespace vh

// Shared by all harnesses: deterministic random source and the line protocol lib/vp.py reads.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fmt/core.h>
#include <common/log.hh>

namespace vp
{
struct rng
{
    uint64_t s;
    explicit rng(uint64_t seed) : s(seed)
    {
        uint64_t a = next();
        s = a ^ (seed * 0xd6e8feb86659fd93ull);
        s = next();
    }
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); } // inclusive
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    bool chance(double p) { return unit() < p; }
    template<class V> auto &pick(V &v) { return v[next() % v.size()]; }
    template<class T> T of(std::initializer_list<T> l) { return *(l.begin() + next() % l.size()); }
};
inline int fails = 0;
inline uint64_t evals = 0;
inline std::map<std::string, uint64_t> stats;
inline std::set<std::string> distinct;
inline uint64_t cur_case = 0;
inline uint64_t cur_seed = 0;
inline std::string oneline(std::string s)
{
    for (auto &c : s)
        if (c == '\n' || c == '\r')
            c = '|';
    return s;
}
inline void fail(const std::string &key, const std::string &what)
{
    static std::map<std::string, int> per_key;
    fails++;
    if (++per_key[key] <= 2)
        printf("FAIL %s case %llu seed %llu: %s\n", key.c_str(), (unsigned long long)cur_case, (unsigned long long)cur_seed, oneline(what).substr(0, 1500).c_str());
    fflush(stdout);
}
inline bool expect(bool ok, const char *key, const std::function<std::string()> &what)
{
    evals++;
    if (!ok)
        fail(key, what());
    return ok;
}
inline void stat(const std::string &k, uint64_t n = 1) { stats[k] += n; }
inline void mark(const std::string &k) { distinct.insert(k); }
// run cases [first, first+n); argv: mode seed first n
inline int drive(int argc, char **argv, const std::map<std::string, std::function<void(rng &)>> &modes)
{
    logging::mask = bitflags<logging::flag>{};
    if (argc < 5) {
        fprintf(stderr, "usage: MODE SEED FIRST N\n");
        return 2;
    }
    auto it = modes.find(argv[1]);
    if (it == modes.end())
        return 2;
    cur_seed = strtoull(argv[2], 0, 10);
    uint64_t first = strtoull(argv[3], 0, 10), n = strtoull(argv[4], 0, 10);
    for (uint64_t i = first; i < first + n; i++) {
        cur_case = i;
        rng r(cur_seed * 1000003ull + i);
        if (i % 64 == 0) {
            printf("CASE %llu\n", (unsigned long long)i);
            fflush(stdout);
        }
        try {
            it->second(r);
        } catch (const std::exception &e) {
            fail("exception", std::string("unexpected exception: ") + e.what());
        }
        if (fails > 300)
            break;
    }
    for (auto &d : distinct)
        printf("DISTINCT %s\n", d.c_str());
    for (auto &s : stats) {
        std::string k = s.first;
        for (auto &c : k)
            if (c == ' ')
                c = '_';
        printf("STAT %s %llu\n", k.c_str(), (unsigned long long)s.second);
    }
    printf("EVALS %llu\nHARNESS-DONE\n", (unsigned long long)evals);
    fflush(stdout);
    return 0;
}
} // namespace vp
#define EXPECT(cond, key, ...) vp::expect((cond), key, [&] { return std::string(#cond " : ") + fmt::format(__VA_ARGS__); })

// Small property-based testing engine.
//
// Every random decision of a case is a bounded draw from `Src`; the list of
// draws ("choices") is the case.  A case is replayed from its choices and
// shrunk by deleting / lowering them, each candidate in a forked child, so
// that crashes, sanitizer reports and hangs shrink like ordinary failures.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(mix64(seed ^ 0x5bf03635ull)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double sym() { return 2 * unit() - 1; }
    double gauss();
};

struct Failure { std::string tag, msg; };

struct Src {
    bool replay = false;
    std::vector<uint64_t> choices;   // recorded or replayed draws
    size_t pos = 0;
    Rng rng;
    // statistics
    std::map<std::string, uint64_t> *labels = nullptr;
    uint64_t nt_key = 0; bool nontrivial = false;
    std::vector<uint64_t> nt_keys;
    std::string desc;

    // uniform in [0,n)
    uint64_t draw(uint64_t n) {
        if (n <= 1) n = 1;
        uint64_t v;
        if (replay) { v = pos < choices.size() ? choices[pos] % n : 0; pos++; }
        else { v = rng.below(n); choices.push_back(v); pos++; }
        return v;
    }
    int range(int lo, int hi) { return lo + (int)draw((uint64_t)((int64_t)hi - lo) + 1); }
    bool chance(int num, int den) { return (int)draw(den) >= den - num; }   // shrinks to false
    bool coin() { return draw(2) != 0; }
    double unit() { return draw(1u << 24) / double(1u << 24); }
    uint64_t seed() { return draw(1ull << 32); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
    int weighted(std::initializer_list<int> w) {
        int tot = 0; for (int x : w) tot += x;
        int v = (int)draw(tot), i = 0;
        for (int x : w) { if (v < x) return i; v -= x; i++; }
        return 0;
    }
    // labels & evidence
    void label(const std::string &l, uint64_t n = 1) { if (labels) (*labels)[l] += n; }
    void nt(uint64_t key) { nontrivial = true; nt_keys.push_back(mix64(key)); }
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

[[noreturn]] void fail(const char *tag, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(cond, tag, ...) do { if (!(cond)) ::pbt::fail(tag, __VA_ARGS__); } while (0)

struct Prop {
    std::string name;
    uint64_t quick, thorough;          // number of cases per tier
    std::function<void(Src &)> fn;
    const char *rule;                  // what makes a case non-trivial
};
std::vector<Prop> &registry();
struct Reg { Reg(const char *n, uint64_t q, uint64_t t, const char *rule, std::function<void(Src &)> f) {
    registry().push_back({n, q, t, f, rule}); } };

#define PROPERTY(id, quick, thorough, rule) \
    static void prop_##id(::pbt::Src &); \
    static ::pbt::Reg reg_##id(#id, quick, thorough, rule, prop_##id); \
    static void prop_##id([[maybe_unused]] ::pbt::Src &s)

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0x811c9dc5) {
    const uint8_t *b = (const uint8_t *)p; h = mix64(h ^ n);
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t v; memcpy(&v, b + i, 8); h = (h ^ v) * 0x9fb21c651e98df25ull; h ^= h >> 32; }
    for (; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
    return mix64(h);
}
inline uint64_t hkey(std::initializer_list<int64_t> l) {
    uint64_t h = 7; for (auto v : l) h = mix64(h ^ (uint64_t)v); return h; }
}

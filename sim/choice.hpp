// Decision source: every decision of a simulated run (workload, schedule, faults)
// is drawn here.  In search mode values come from a seeded PRNG and are recorded;
// in replay mode they come from a recorded tape (0 past its end, so that shorter
// tapes are always valid and "0" is always the simplest decision).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>

struct Rng {
    uint64_t s[4];
    static uint64_t splitmix(uint64_t& x) {
        uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t seed) { for (auto& v : s) v = splitmix(seed); }
    uint64_t next() {
        auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool one_in(uint64_t n) { return n && below(n) == 0; }
};

// shared with the parent process, so that the tape of a run that kills the
// process is still known
struct SharedTape {
    uint64_t run_index;
    uint64_t seed;
    uint32_t len;
    uint32_t overflow;
    uint32_t v[1 << 20];
};

struct Choices {
    bool replay = false;
    std::vector<uint32_t> in;   // replay input
    std::vector<uint32_t> out;  // decisions actually taken
    size_t pos = 0;
    Rng rng { 0 };
    SharedTape* shared = nullptr;

    explicit Choices(uint64_t seed, SharedTape* sh = nullptr) : rng(seed), shared(sh)
    {
        if (shared) { shared->seed = seed; shared->len = 0; shared->overflow = 0; }
    }
    explicit Choices(std::vector<uint32_t> tape, SharedTape* sh = nullptr)
        : replay(true), in(std::move(tape)), shared(sh)
    {
        if (shared) { shared->seed = 0; shared->len = 0; shared->overflow = 0; }
    }
    // value in [0, n)
    uint32_t draw(uint32_t n)
    {
        if (n <= 1) return 0;
        uint32_t v;
        if (replay) {
            v = pos < in.size() ? in[pos] : 0;
            if (v >= n) v = v % n;
        } else {
            v = static_cast<uint32_t>(rng.below(n));
        }
        ++pos;
        out.push_back(v);
        if (shared) {
            if (shared->len < (1u << 20)) shared->v[shared->len++] = v;
            else shared->overflow = 1;
        }
        return v;
    }
    // true with probability 1/n; false is the simple choice
    bool one_in(uint32_t n) { return n > 1 ? draw(n) == n - 1 : n == 1; }
    // true with probability num/den
    bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
    uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); }
    uint32_t seed32() { return draw(0xffffffffu); }
    template <class T> T const& pick(std::vector<T> const& v) { return v[draw(v.size())]; }
};

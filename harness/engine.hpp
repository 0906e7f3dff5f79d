// Property-based testing engine: recorded choice sequences, forked workers with
// crash attribution, choice-sequence shrinking, replay files and evidence.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace eng {

struct Fail { std::string msg; };
struct Discard {};

uint64_t mix(uint64_t x);

// Source of every random choice. Choice 0 is always the simplest one.
struct Src {
    uint64_t state = 0;
    bool replay = false;
    const uint64_t* in = nullptr;
    size_t nin = 0, pos = 0;
    uint64_t* rec = nullptr; // shared memory, survives a crash
    size_t* nrec = nullptr;
    size_t caprec = 0;
    // coverage-guided mode: choices are read from the bytes of a fuzzer's input
    const uint8_t* fz = nullptr;
    size_t nfz = 0, pfz = 0;
    std::string* enc = nullptr; // the bytes which would give the choices made
    uint64_t raw();
    uint64_t draw(uint64_t n); // 0..n-1
    int64_t range(int64_t lo, int64_t hi) { return (int64_t)((uint64_t)lo + draw((uint64_t)hi - (uint64_t)lo + 1)); }
    // true with probability num/den; 0 means false
    bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
    size_t weighted(const std::vector<unsigned>& w);
    // list continuation: expected length about `mean`, at most `max`
    bool more(size_t have, double mean, size_t max);
};

struct Ctx {
    Src& s;
    bool verbose;     // print notes as they come (replay)
    bool thorough;
    int size;         // size hint
    bool nontrivial = false;
    uint64_t hash = 1469598103934665603ull;
    std::string text; // rendering of the case (only kept when verbose)
    std::vector<std::string> labels;
    uint64_t checks = 0; // comparisons made
    explicit Ctx(Src& s_, bool v, bool t) : s(s_), verbose(v), thorough(t), size(10) {}
    void note(const std::string& line);
    void label(const std::string& l) { labels.push_back(l); }
    [[noreturn]] void fail(const std::string& m) { throw Fail { m }; }
    void require(bool ok, const std::string& m) { checks++; if(!ok) throw Fail { m }; }
    [[noreturn]] void discard() { throw Discard(); }
};

struct Property {
    std::string id;
    std::string rule;      // how cases are made, what is non-trivial
    uint64_t quick, thorough; // number of cases
    std::function<void(Ctx&)> run;
    // hand-written regression cases: same contract as run, no random choices needed
    std::vector<std::pair<std::string, std::function<void(Ctx&)>>> regress;
    double min_nontrivial = 0.02; // fraction below which the run is inconclusive (error)
    int cpu_limit = 40;           // seconds of CPU for one case, then it is a hang
    std::vector<std::string> assumptions;
};

int engine_main(int argc, char** argv, std::vector<Property>& props);
} // namespace eng

template <class T> std::string str(const T& x) { std::ostringstream o; o << x; return o.str(); }

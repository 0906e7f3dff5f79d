// Helpers shared by the harnesses that drive the public API.
#pragma once
#include "api.hpp"
namespace api {
inline Sub make_subm(Src& s, const Config& c, uint64_t id, const E& e, Style* st = nullptr)
{
    Sub b;
    b.id = id;
    b.e = e;
    b.k = gen_consts(s, *e);
    b.text = text(c, *e, st);
    return b;
}
// the ids of a case: mostly 1, 2, 3.., sometimes spread over 64 bits
struct Ids {
    size_t m;
    explicit Ids(Ctx& x) { m = x.s.chance(1, 6) ? 1 + x.s.draw(7) : 0; }
    uint64_t operator()(uint64_t n) const
    {
        switch(m) {
            case 1: return n << 32;
            case 2: return n + (1ull << 63);
            case 3: return UINT64_MAX - (n - 1);
            case 4: return n * 0x9e3779b97f4a7c15ull;
            case 5: return n - 1;
            case 6: return n + 0xfffffffdull;
            case 7: return 1000 - n * 3;
            default: return n;
        }
    }
};
inline void note_sub(Ctx& x, const Sub& b) { std::string k = consts_text(b.k); x.note("sub " + std::to_string(b.id) + ": " + b.text + (k.empty() ? "" : "   [" + k + "]")); }

struct Params { uint64_t cap = 3, part = 0; bool dflt = true; };
inline Params gen_params(Ctx& x)
{
    Params p;
    if(x.s.chance(1, 2)) {
        p.dflt = false;
        p.cap = 1 + x.s.draw(6);
        p.part = x.s.draw(4);
        if(x.s.chance(1, 20)) { // around and above what fits a byte, a word
            static const uint64_t caps[] = { 254, 255, 256, 257, 258, 300, 512, 65536, 1u << 20, 1ull << 32, UINT64_MAX };
            p.cap = caps[x.s.draw(11)];
            p.part = x.s.chance(1, 2) ? x.s.draw(4) : caps[x.s.draw(11)];
        }
        else if(x.s.chance(1, 12)) {
            static const uint64_t parts[] = { 6, 10, 30, 255, 256, 257, 512, 65536, 1ull << 32, UINT64_MAX };
            p.part = parts[x.s.draw(10)];
        }
    }
    return p;
}
inline std::string ptext(const Params& p) { return p.dflt ? "default parameters" : "lnode_max_cap=" + str(p.cap) + " min_partition=" + str(p.part); }

// mean number of expressions, small ones first
inline double gen_mean(Ctx& x, bool big = true)
{
    if(x.s.chance(1, big ? 250 : 600)) return 400; // see upmost
    static const double m[] = { 2, 5, 12, 30, 60 };
    size_t k = x.s.weighted({ 3, 4, 5, big ? 3u : 1u, big && x.thorough ? 3u : 0u });
    return m[k];
}
// the largest number of expressions of a case: now and then more than a byte can count
inline size_t upmost(double mean, size_t usual) { return mean > 100 ? 1200 : usual; }
inline std::string rtext(const Result& r) { return (r.ok ? "ids " : "refused, ids ") + ids_text(r.ids) + " evaluated " + str(r.evaluated) + " matched " + str(r.matched) + " memoized " + str(r.memoized) + " shorted " + str(r.shorted); }
typedef std::vector<std::pair<std::string, std::function<void(Ctx&)>>> Regs;
inline std::vector<std::string> rep(size_t n, const std::string& e) { return std::vector<std::string>(n, e); }
inline std::vector<uint64_t> upto(uint64_t n) { std::vector<uint64_t> v; for(uint64_t i = 1; i <= n; i++) v.push_back(i); return v; }

inline std::string diff_text(const Config& c, const std::vector<Sub>& subs, const std::vector<uint64_t>& want, const std::vector<uint64_t>& got)
{
    std::string r = "expected ids " + ids_text(want) + ", reported " + ids_text(got);
    std::map<uint64_t, long> d;
    for(auto x : want) d[x]++;
    for(auto x : got) d[x]--;
    int n = 0;
    for(auto& p : d)
        if(p.second != 0 && n++ < 3)
            for(auto& s : subs) if(s.id == p.first) r += std::string("\n  ") + (p.second > 0 ? "missing " : "unexpected ") + std::to_string(s.id) + ": " + (s.e ? text(c, *s.e) : s.text);
    return r;
}
// an ill-typed or unknown-attribute leaf for this configuration
inline std::string bad_leaf(Src& s, const Config& c, bool null_checked, bool ill_typed = true)
{
    struct T { const char* f; std::set<int> ok; };
    static const std::vector<T> ts = {
        { "%", { T_BOOL } }, { "not %", { T_BOOL } },
        { "% < 1", { T_INT, T_FLT } }, { "% >= 0.5", { T_FLT } }, { "1 > %", { T_INT, T_FLT } },
        { "% = 1", { T_INT, T_FLT, T_IE } }, { "% <> 1.5", { T_FLT } }, { "% = \"x\"", { T_STR } }, { "'x' <> %", { T_STR } },
        { "% in (1, 2)", { T_INT } }, { "% not in (1)", { T_INT } }, { "% in (\"x\", \"y\")", { T_STR } }, { "% not in ('x')", { T_STR } },
        { "1 in %", { T_IL } }, { "\"x\" not in %", { T_SL } },
        { "% one of (1, 2)", { T_IL } }, { "% all of ('x', 'y')", { T_SL } }, { "% none of (3)", { T_IL } }, { "% none of ('z')", { T_SL } },
        { "% is empty", { T_IL, T_SL } },
        { "contains(%, \"x\")", { T_STR } }, { "starts_with(%, 'x')", { T_STR } }, { "ends_with(%, 'x')", { T_STR } },
        { "segment_within(%, 1, 20)", { T_SEG } }, { "segment_before(%, 1, 20)", { T_SEG } },
    };
    for(int tries = 0; tries < 50; tries++) {
        size_t k = s.weighted({ ill_typed ? 6u : 0u, 3, 1, 1, 1, null_checked ? 2u : 0u });
        if(k == 0) {
            const T& t = ts[s.draw(ts.size())];
            const Attr& a = c.attrs[s.draw(c.attrs.size())];
            if(t.ok.count(a.t)) continue;
            std::string r = t.f;
            return r.replace(r.find('%'), 1, a.name);
        }
        if(k == 1) {
            std::string r = ts[s.draw(ts.size())].f;
            return r.replace(r.find('%'), 1, "zz_unknown");
        }
        if(k == 2 && (c.find("latitude") < 0 || c.find("longitude") < 0)) return "geo_within_radius(1.0, 2.0, 3.0)";
        if(k == 3 && (c.find("now") < 0 || c.find("segments_with_timestamp") < 0)) return "segment_within(1, 20)";
        if(k == 4) {
            if(c.find("now") < 0 || c.find("frequency_caps") < 0) return "within_frequency_cap(\"flight\", \"ns\", 1, 0)";
            return "within_frequency_cap(\"product\", \"ns\", 1, 0)"; // its constant is left out
        }
        if(k == 5) {
            const Attr& a = c.attrs[s.draw(c.attrs.size())];
            if(a.opt) continue;
            return a.name + (s.chance(1, 2) ? " is null" : " is not null");
        }
    }
    return "zz_unknown";
}
inline std::string bad_text(Src& s, const std::string& v)
{
    switch(s.draw(12)) {
        case 0: return v + " and";
        case 1: return "(" + v;
        case 2: return v + ")";
        case 3: return "or " + v;
        case 4: return v + " @";
        case 5: return "";
        case 6: return "(" + v + ") (" + v + ")";
        case 7: return v + " and and " + v;
        case 8: return "not";
        case 9: return "x in ()";
        case 10: return "(" + v + ") = 1";
        default: return "1 in (1, 2)";
    }
}
} // namespace api

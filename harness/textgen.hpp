// Generators of sentences of the two languages, with the structure they stand for,
// and of altered sentences.
#pragma once
#include "common.hpp"
#include "lang.hpp"
namespace tg {
using namespace mdl;
using api::Sub;
// ------------------------------------------------------------------ generators of text
struct Gen { // a sentence as tokens, with the structure it stands for
    Src& s;
    std::vector<std::string> t;
    size_t leaves = 0, ops = 0;
    bool nulls = true;   // may use null tests
    bool plainq = false; // strings free of double quotes
    explicit Gen(Src& s_) : s(s_) {}
    void put(const std::string& x) { t.push_back(x); }
    std::string name()
    {
        static const std::vector<std::string> n = { "a", "b", "c", "Abc", "x1", "_", "in-stock", "android", "order", "nothing", "is", "one", "all", "none", "of", "null", "empty", "isnull", "truey", "not_a", "in1", "IN", "And", "segment_within2", "a-b-c", "a--", "x_-9", "inner", "nota", "falsely", "orb" };
        std::string r = s.chance(1, 2) ? n[s.draw(3)] : n[s.draw(n.size())];
        put(r);
        return lang::q(lang::lower(r));
    }
    std::string str()
    {
        std::string v = s.chance(1, 8) ? std::string(s.draw(30), 'z') : gen_string(s);
        static const std::vector<std::string> odd = { "and", ") or (", "\\\\", "\\'", "\\\"", "\n", "\t", "\xff\x80", "'", "-1", "\\x" };
        if(s.chance(1, 5)) v += odd[s.draw(odd.size())];
        bool dq = v.find('"') == std::string::npos || v.find("\\\"") != std::string::npos;
        // keep the contents inside the quotes they can be written with
        for(int k = 0; k < 2; k++) {
            char qc = (k == 0) == (dq && !s.chance(1, 3)) ? '"' : '\'';
            std::string w = qc + v + qc;
            if(plainq) { std::string u = "\"" + v + "\""; if(lang::quoted(u, 0) != u.size()) break; }
            if(lang::quoted(w, 0) == w.size()) { put(w); return lang::q(v); }
        }
        put("\"a\"");
        return lang::q("a");
    }
    std::string uint(int64_t& v)
    {
        static const int64_t e[] = { 0, 1, 2, 3, 10, 255, 4294967295ll, 4294967296ll, INT64_MAX, INT64_MAX - 1, 1000000007 };
        v = s.chance(2, 3) ? e[s.draw(4)] : s.chance(1, 2) ? e[s.draw(11)] : (int64_t)(s.draw(1ull << 62));
        std::string r = std::to_string(v);
        if(s.chance(1, 20)) r = "0" + r;
        put(r);
        return r;
    }
    std::string integer()
    {
        bool n = s.chance(1, 4);
        if(n) put("-");
        int64_t v;
        if(n && s.chance(1, 20)) { put("9223372036854775808"); return std::to_string(INT64_MIN); }
        uint(v);
        return std::to_string(n ? -v : v);
    }
    std::string fl()
    {
        bool n = s.chance(1, 4);
        if(n) put("-");
        std::string r = std::to_string(s.draw(s.chance(1, 4) ? 1000000 : 4)) + ".";
        size_t d = s.draw(4);
        if(s.chance(1, 8)) d = s.draw(25);
        for(size_t i = 0; i < d; i++) r += (char)('0' + s.draw(10));
        if(s.chance(1, 30)) r = std::string(1 + s.draw(200), '7') + "." + std::string(s.draw(200), '3');
        put(r);
        double v = strtod(r.c_str(), nullptr);
        return lang::fnum(n ? -v : v);
    }
    std::string list()
    {
        bool ss = s.chance(1, 2);
        put("(");
        std::string r = ss ? "(S" : "(I";
        size_t n = 0;
        do {
            if(n) put(",");
            r += " " + (ss ? str() : integer());
        } while(s.more(++n, 2, 40));
        put(")");
        return r + ")";
    }
    std::string num() { return s.chance(1, 3) ? "f" + fl() : "i" + integer(); }
    std::string atom()
    {
        leaves++;
        static const char* rel[] = { "<", "<=", ">", ">=" };
        static const char* rev[] = { ">", ">=", "<", "<=" };
        switch(s.weighted({ 4, 4, 4, 2, 4, 3, 1, nulls ? 2u : 0u, 1, 1, 1, 1 })) {
            case 0: return "(var " + name() + ")";
            case 1: {
                size_t o = s.draw(4);
                if(s.chance(1, 3)) { std::string v = num(); put(rev[o]); std::string a = name(); return std::string("(") + rel[o] + " " + a + " " + v + ")"; }
                std::string a = name(); put(rel[o]); std::string v = num();
                return std::string("(") + rel[o] + " " + a + " " + v + ")";
            }
            case 2: {
                const char* o = s.chance(1, 3) ? "<>" : "=";
                if(s.chance(1, 3)) { std::string v = s.chance(1, 2) ? num() : "s" + str(); put(o); std::string a = name(); return std::string("(") + o + " " + a + " " + v + ")"; }
                std::string a = name(); put(o); std::string v = s.chance(1, 2) ? num() : "s" + str();
                return std::string("(") + o + " " + a + " " + v + ")";
            }
            case 3: { bool b = s.chance(1, 2); put(b ? "true" : "false"); return b ? "(lit 1)" : "(lit 0)"; }
            case 4: {
                bool n = s.chance(1, 2);
                std::string l;
                switch(s.draw(3)) { case 0: l = "var " + name(); break; case 1: l = "i" + integer(); break; default: l = "s" + str(); }
                put(n ? "not in" : "in");
                std::string r = s.chance(1, 3) ? "var " + name() : list();
                return std::string(n ? "(notin " : "(in ") + l + " " + r + ")";
            }
            case 5: {
                static const char* w[] = { "one of", "none of", "all of" };
                size_t o = s.draw(3);
                std::string a = name(); put(w[o]);
                return std::string("(") + w[o] + " " + a + " " + list() + ")";
            }
            case 6: case 7: {
                static const char* w[] = { "is empty", "is null", "is not null" };
                if(!nulls) { std::string a = name(); return "(var " + a + ")"; }
                size_t o = s.draw(3);
                std::string a = name(); put(w[o]);
                return std::string("(") + w[o] + " " + a + ")";
            }
            case 8: {
                static const char* w[] = { "contains", "starts_with", "ends_with" };
                size_t o = s.draw(3);
                put(w[o]); put("("); std::string a = name(); put(","); std::string v = str(); put(")");
                return std::string("(") + w[o] + " " + a + " " + v + ")";
            }
            case 9: {
                const char* w = s.chance(1, 2) ? "segment_before" : "segment_within";
                put(w); put("(");
                std::string a = lang::q("segments_with_timestamp");
                if(s.chance(1, 2)) { a = name(); put(","); }
                std::string i = integer(); put(","); std::string k = integer(); put(")");
                return std::string("(") + w + " " + a + " " + i + " " + k + ")";
            }
            case 10: {
                bool f = s.chance(1, 2);
                std::string v[3];
                put("geo_within_radius"); put("(");
                for(int i = 0; i < 3; i++) { if(i) put(","); v[i] = f ? fl() : lang::fnum((double)strtoll(integer().c_str(), nullptr, 10)); }
                put(")");
                return "(geo " + v[0] + " " + v[1] + " " + v[2] + ")";
            }
            default: {
                put("within_frequency_cap"); put("(");
                std::string ty = cap_types[s.draw(10)];
                put(s.chance(1, 2) ? "\"" + ty + "\"" : "'" + ty + "'");
                put(","); std::string ns = str(); put(","); std::string v = integer(); put(",");
                int64_t l;
                uint(l);
                put(")");
                return "(freq " + lang::q(ty) + " " + ns + " " + v + " " + std::to_string(l) + ")";
            }
        }
    }
    // prec: 0 or, 1 and, 2 not
    std::string expr(int depth, int prec)
    {
        size_t k = depth <= 0 ? 0 : s.weighted({ 2, 3, 3, 2, 1 });
        std::string r;
        switch(k) {
            case 0: return atom();
            case 1: case 2: {
                int p = k == 1 ? 1 : 0;
                bool par = p < prec || s.chance(1, 8);
                if(par) put("(");
                ops++;
                std::string l = expr(depth - 1, p);
                put(p ? (s.chance(1, 2) ? "&&" : "and") : (s.chance(1, 2) ? "||" : "or"));
                std::string m = expr(depth - 1, p + 1);
                if(par) put(")");
                return lang::bin(p, l, m);
            }
            case 3: put("not"); ops++; return "(not " + expr(depth - 1, 2) + ")";
            default: { put("("); std::string e = expr(depth - 1, 0); put(")"); return e; }
        }
    }
};

inline std::string glue(Src& s, const std::vector<std::string>& t)
{
    static const char* w[] = { " ", "", "  ", "\t", "\n", " \n\t " };
    std::string r;
    auto sp = [&](bool need) {
        size_t k = s.weighted({ 5, 4, 1, 1, 1, 1 });
        if(need && k == 1) k = 0;
        return w[k];
    };
    if(s.chance(1, 8)) r += sp(false);
    for(size_t i = 0; i < t.size(); i++) {
        if(i && !t[i].empty()) {
            bool need = !t[i - 1].empty() && lang::idc(t[i - 1].back()) && lang::idc(t[i][0]);
            // a number may be followed by a word at once
            if(need && lang::digit(t[i - 1][0]) && lang::ids(t[i][0]) && s.chance(1, 6)) need = false;
            r += sp(need);
        }
        r += t[i];
    }
    if(s.chance(1, 8)) r += sp(false);
    return r;
}

inline std::vector<std::string> mutate_tokens(Src& s, std::vector<std::string> t, const std::vector<std::string>& vocab)
{
    size_t n = 1 + (s.chance(1, 3) ? s.draw(3) : 0);
    for(size_t i = 0; i < n; i++) {
        size_t k = t.empty() ? 3 : s.draw(6);
        size_t p = t.empty() ? 0 : s.draw(t.size());
        switch(k) {
            case 0: t.erase(t.begin() + (long)p); break;
            case 1: t.insert(t.begin() + (long)p, t[p]); break;
            case 2: t[p] = vocab[s.draw(vocab.size())]; break;
            case 3: t.insert(t.begin() + (long)s.draw(t.size() + 1), vocab[s.draw(vocab.size())]); break;
            case 4: std::swap(t[p], t[s.draw(t.size())]); break;
            default: t.resize(p); break; // cut short
        }
    }
    return t;
}
inline std::string mutate_text(Src& s, std::string r, const char* alphabet)
{
    size_t n = 1 + s.draw(3), al = strlen(alphabet);
    for(size_t i = 0; i < n; i++) {
        size_t p = r.empty() ? 0 : s.draw(r.size());
        char c = s.chance(1, 6) ? (char)(1 + s.draw(255)) : alphabet[s.draw(al)];
        switch(r.empty() ? 0 : s.draw(4)) {
            case 0: r.insert(r.begin() + (long)p, c); break;
            case 1: r.erase(r.begin() + (long)p); break;
            case 2: r[p] = c; break;
            default: r.resize(p); break;
        }
    }
    return r;
}

inline std::string show(const std::string& t)
{
    std::string r;
    for(unsigned char c : t) {
        if(c == '\n') r += "\\n";
        else if(c == '\t') r += "\\t";
        else if(c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

inline const std::vector<std::string>& expr_vocab()
{
    static const std::vector<std::string> v = { "a", "b", "(", ")", ",", "and", "or", "not", "&&", "||", "in", "not in", "one of", "none of", "all of", "is null", "is not null", "is empty", "=", "<>", "<", "<=", ">", ">=", "-", "1", "2", "1.5", "\"s\"", "'t'", "true", "false", "contains", "starts_with", "ends_with", "segment_within", "segment_before", "geo_within_radius", "within_frequency_cap", "==", "!", "&", "|", "+", ";", "[", "]", "\"", "'", ".", "is", "of", "null", "one", "0" };
    return v;
}

struct EvGen {
    Gen g;
    size_t vars = 0, vals = 0;
    explicit EvGen(Src& s) : g(s) {}
    void put(const std::string& t) { g.put(t); }
    std::string name()
    {
        Src& s = g.s;
        static const std::vector<std::string> n = { "a", "b", "c", "Flight_ID", "null", "true", "", "a b", "x.y", "-", "caf\xc3\xa9", "{", "MiXed" };
        std::string r = n[s.chance(1, 2) ? s.draw(3) : s.draw(n.size())];
        put(s.chance(1, 3) ? "'" + r + "'" : "\"" + r + "\"");
        return lang::q(lang::lower(r));
    }
    std::string value()
    {
        Src& s = g.s;
        vals++;
        switch(s.weighted({ 3, 2, 3, 3, 3, 1, 2, 2, 2 })) {
            case 0: return "i" + g.integer();
            case 1: { bool b = s.chance(1, 2); put(b ? "true" : "false"); return b ? "b1" : "b0"; }
            case 2: return "f" + g.fl();
            case 3: return "s" + g.str();
            case 4: case 6: {
                bool ss = s.chance(1, 2);
                std::string r = ss ? "(S" : "(I";
                put("[");
                size_t n = 0;
                do { if(n) put(","); r += " " + (ss ? g.str() : g.integer()); } while(s.more(++n, 3, 60));
                put("]");
                return r + ")";
            }
            case 5: put("["); put("]"); return "(I)";
            case 7: {
                std::string r = "(G";
                put("[");
                size_t n = 0;
                do {
                    if(n) put(",");
                    put("["); std::string i = g.integer(); put(","); std::string t = g.integer(); put("]");
                    r += " [" + i + " " + t + "]";
                } while(s.more(++n, 2, 20));
                put("]");
                return r + ")";
            }
            default: {
                std::string r = "(C";
                put("[");
                size_t n = 0;
                do {
                    if(n) put(",");
                    bool nest = s.chance(1, 3);
                    put("[");
                    if(nest) put("[");
                    std::string ty = cap_types[s.draw(10)];
                    put(s.chance(1, 2) ? "\"" + ty + "\"" : "'" + ty + "'");
                    put(",");
                    auto u32 = [&]() { uint64_t v = s.chance(3, 4) ? s.draw(4) : s.chance(1, 2) ? UINT32_MAX - s.draw(2) : s.draw(1ull << 32); std::string w = std::to_string(v); put(w); return w; };
                    std::string id = u32();
                    put(","); std::string ns = g.str();
                    if(nest) put("]");
                    put(","); std::string v = u32(); put(","); std::string ts = g.integer(); put("]");
                    r += " [" + ty + " " + id + " " + ns + " " + v + " " + ts + "]";
                } while(s.more(++n, 2, 20));
                put("]");
                return r + ")";
            }
        }
    }
    std::string event()
    {
        Src& s = g.s;
        std::string r = "{";
        put("{");
        while(s.more(vars, 3, 30)) {
            if(vars++) put(",");
            std::string n = name();
            put(":");
            if(s.chance(1, 8)) put("null");
            else r += " " + n + "=" + value();
        }
        put("}");
        return r + "}";
    }
};

inline const std::vector<std::string>& event_vocab()
{
    static const std::vector<std::string> v = { "{", "}", "[", "]", ",", ":", "-", "1", "0", "2.5", "true", "false", "null", "\"a\"", "'b'", "\"flight\"", "\"", "'", "(", ")", "x", "+", "." };
    return v;
}

} // namespace tg

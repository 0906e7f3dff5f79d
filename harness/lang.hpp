// Independent lexers and parsers for the two languages of be-tree: expressions and
// events. They produce a canonical dump of the structure; nothing here uses the
// code under test.
#pragma once
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace lang {
struct Tok {
    enum K { END, BAD, KW, STR, IDENT, INT, FLT } k = END;
    std::string s; // text of a keyword / symbol, contents of a string, name
    int64_t i = 0;
    double d = 0;
    bool edge = false; // INT: 2^63, in range only when negative
};

inline int64_t int_of(const Tok& k, bool neg) { return !neg ? k.i : k.edge ? INT64_MIN : -k.i; }
inline bool idc(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-'; }
inline bool ids(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
inline bool digit(char c) { return c >= '0' && c <= '9'; }
inline std::string lower(std::string s) { for(auto& c : s) if(c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
inline std::string fnum(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return d == 0 ? "0" : b; }
inline std::string q(const std::string& s) { return std::to_string(s.size()) + ":" + s; }

// length of a quoted string starting at p, 0 if it does not close
inline size_t quoted(const std::string& t, size_t p)
{
    char qc = t[p];
    size_t i = p + 1;
    while(i < t.size()) {
        if(t[i] == qc) return i + 1 - p;
        if(t[i] == '\\') {
            if(i + 1 >= t.size() || t[i + 1] == '\n') return 0;
            i += 2;
        }
        else i++;
    }
    return 0;
}

struct Lexed { std::vector<Tok> t; bool big = false; }; // big: a literal is out of range, its value is unspecified

inline bool number(const std::string& t, size_t& p, Lexed& out)
{
    if(!digit(t[p])) return false;
    size_t b = p;
    while(p < t.size() && digit(t[p])) p++;
    Tok k;
    if(p < t.size() && t[p] == '.') {
        p++;
        while(p < t.size() && digit(t[p])) p++;
        k.k = Tok::FLT;
        k.d = strtod(t.substr(b, p - b).c_str(), nullptr);
        if(!std::isfinite(k.d)) out.big = true;
    }
    else {
        k.k = Tok::INT;
        uint64_t v = 0;
        bool o = false;
        for(size_t i = b; i < p; i++) {
            if(v > (INT64_MAX - (uint64_t)(t[i] - '0')) / 10) { o = true; break; }
            v = v * 10 + (uint64_t)(t[i] - '0');
        }
        if(o) {
            std::string g = t.substr(b, p - b);
            g.erase(0, g.find_first_not_of('0'));
            k.edge = g == "9223372036854775808";
            if(!k.edge || out.t.empty() || out.t.back().k != Tok::KW || out.t.back().s != "-") out.big = true;
            v = INT64_MAX;
        }
        k.i = (int64_t)v;
    }
    out.t.push_back(k);
    return true;
}

inline Lexed lex_expr(const std::string& t)
{
    static const char* kws[] = { "is not null", "is null", "is empty", "one of", "none of", "all of", "not in" };
    static const char* words[] = { "within_frequency_cap", "segment_within", "segment_before", "geo_within_radius", "contains", "starts_with", "ends_with", "in", "and", "or", "not", "true", "false" };
    static const char* syms[] = { "<>", ">=", "<=", "&&", "||", "=", ">", "<", "(", ")", ",", "-" };
    Lexed out;
    size_t p = 0;
    auto add = [&](Tok::K k, const std::string& s) { Tok x; x.k = k; x.s = s; out.t.push_back(x); };
    while(p < t.size() && t[p]) {
        char c = t[p];
        if(c == ' ' || c == '\t' || c == '\n') { p++; continue; }
        if(c == '"' || c == '\'') {
            size_t n = quoted(t, p);
            if(!n) { add(Tok::BAD, ""); return out; }
            add(Tok::STR, t.substr(p + 1, n - 2));
            p += n;
            continue;
        }
        if(ids(c)) {
            size_t n = 1;
            while(p + n < t.size() && idc(t[p + n])) n++;
            const char* best = nullptr;
            for(auto w : kws) {
                size_t l = strlen(w);
                if(l < n || t.compare(p, l, w) != 0) continue;
                // "not in" must end where a word ends, with something after it
                if(!strcmp(w, "not in") && (p + l >= t.size() || idc(t[p + l]))) continue;
                best = w;
                break;
            }
            if(best) { add(Tok::KW, best); p += strlen(best); continue; }
            std::string w = t.substr(p, n);
            bool kw = false;
            for(auto x : words) if(w == x) kw = true;
            add(kw ? Tok::KW : Tok::IDENT, w);
            p += n;
            continue;
        }
        if(number(t, p, out)) continue;
        bool f = false;
        for(auto s : syms) if(t.compare(p, strlen(s), s) == 0) { add(Tok::KW, s); p += strlen(s); f = true; break; }
        if(!f) { add(Tok::BAD, ""); return out; }
    }
    for(auto& k : out.t) if(k.k == Tok::KW) { if(k.s == "&&") k.s = "and"; if(k.s == "||") k.s = "or"; }
    return out;
}

inline bool cap_type(const std::string& s)
{
    for(auto b : { "advertiser", "campaign", "campaign_group", "flight", "product" }) if(s == b || s == std::string(b) + ":ip") return true;
    return false;
}

// the operands of and/or have no order
inline std::string bin(bool conj, std::string l, std::string r) { if(r < l) std::swap(l, r); return std::string(conj ? "(and " : "(or ") + l + " " + r + ")"; }

struct Parsed { bool ok = false, big = false; std::string dump; size_t leaves = 0, ops = 0; };

struct ExprParser {
    const std::vector<Tok>& t;
    size_t p = 0;
    size_t leaves = 0, ops = 0;
    bool odd = false; // a cap whose type or length has no specified meaning
    struct Bad {};
    explicit ExprParser(const std::vector<Tok>& t_) : t(t_) {}
    bool is(const char* s, size_t o = 0) const { return p + o < t.size() && t[p + o].k == Tok::KW && t[p + o].s == s; }
    bool eat(const char* s) { if(is(s)) { p++; return true; } return false; }
    void need(const char* s) { if(!eat(s)) throw Bad(); }
    bool kind(Tok::K k) const { return p < t.size() && t[p].k == k; }
    std::string ident() { if(!kind(Tok::IDENT)) throw Bad(); return q(lower(t[p++].s)); }
    std::string string() { if(!kind(Tok::STR)) throw Bad(); return q(t[p++].s); }
    // -?INT or -?FLT
    bool num(bool& isf, int64_t& i, double& d)
    {
        size_t o = is("-") ? 1 : 0;
        if(p + o >= t.size() || (t[p + o].k != Tok::INT && t[p + o].k != Tok::FLT)) return false;
        isf = t[p + o].k == Tok::FLT;
        i = int_of(t[p + o], o);
        d = o ? -t[p + o].d : t[p + o].d;
        p += o + 1;
        return true;
    }
    int64_t integer() { bool f; int64_t i; double d; if(!num(f, i, d) || f) throw Bad(); return i; }
    std::string list(bool str_)
    {
        std::string r = str_ ? "(S" : "(I";
        do { r += " " + (str_ ? string() : std::to_string(integer())); } while(eat(","));
        need(")");
        return r + ")";
    }
    std::string right()
    {
        if(kind(Tok::IDENT)) return "var " + ident();
        return lst();
    }
    std::string lst() { need("("); return list(kind(Tok::STR)); }
    static std::string nval(bool f, int64_t i, double d) { return f ? "f" + fnum(d) : "i" + std::to_string(i); }
    std::string expr()
    {
        std::string l = conj();
        while(eat("or")) { ops++; std::string r = conj(); l = bin(false, l, r); }
        return l;
    }
    std::string conj()
    {
        std::string l = unary();
        while(eat("and")) { ops++; std::string r = unary(); l = bin(true, l, r); }
        return l;
    }
    std::string unary()
    {
        if(eat("not")) { ops++; return "(not " + unary() + ")"; }
        return atom();
    }
    std::string rest_set(const std::string& left) { bool n = is("not in"); p++; return std::string(n ? "(notin " : "(in ") + left + " " + right() + ")"; }
    std::string atom()
    {
        if(eat("(")) { std::string r = expr(); need(")"); return r; }
        leaves++;
        if(eat("true")) return "(lit 1)";
        if(eat("false")) return "(lit 0)";
        static const char* rel[] = { "<", "<=", ">", ">=" };
        static const char* rev[] = { ">", ">=", "<", "<=" };
        if(kind(Tok::IDENT)) {
            std::string a = ident();
            for(auto w : { "is null", "is not null", "is empty" }) if(eat(w)) return std::string("(") + w + " " + a + ")";
            for(auto r : rel) if(eat(r)) { bool f; int64_t i; double d; if(!num(f, i, d)) throw Bad(); return std::string("(") + r + " " + a + " " + nval(f, i, d) + ")"; }
            for(auto r : { "=", "<>" })
                if(eat(r)) {
                    bool f; int64_t i; double d;
                    if(kind(Tok::STR)) return std::string("(") + r + " " + a + " s" + string() + ")";
                    if(!num(f, i, d)) throw Bad();
                    return std::string("(") + r + " " + a + " " + nval(f, i, d) + ")";
                }
            if(is("in") || is("not in")) return rest_set("var " + a);
            for(auto w : { "one of", "none of", "all of" }) if(eat(w)) return std::string("(") + w + " " + a + " " + lst() + ")";
            return "(var " + a + ")";
        }
        if(kind(Tok::STR)) {
            std::string s = "s" + string();
            for(auto r : { "=", "<>" }) if(eat(r)) { std::string a = ident(); return std::string("(") + r + " " + a + " " + s + ")"; }
            if(is("in") || is("not in")) return rest_set(s);
            throw Bad();
        }
        bool f; int64_t i; double d;
        if(num(f, i, d)) {
            std::string v = nval(f, i, d);
            for(auto r : { "=", "<>" }) if(eat(r)) { std::string a = ident(); return std::string("(") + r + " " + a + " " + v + ")"; }
            for(int k = 0; k < 4; k++) if(eat(rel[k])) { std::string a = ident(); return std::string("(") + rev[k] + " " + a + " " + v + ")"; }
            if(!f && (is("in") || is("not in"))) return rest_set(v);
            throw Bad();
        }
        if(eat("within_frequency_cap")) {
            need("("); std::string ty = string(); need(","); std::string ns = string(); need(",");
            int64_t v = integer(); need(","); int64_t l = integer(); need(")");
            if(!cap_type(ty.substr(ty.find(':') + 1)) || l < 0) odd = true;
            return "(freq " + ty + " " + ns + " " + std::to_string(v) + " " + std::to_string(l) + ")";
        }
        for(auto w : { "segment_within", "segment_before" })
            if(eat(w)) {
                need("(");
                std::string a = q("segments_with_timestamp");
                if(kind(Tok::IDENT)) { a = ident(); need(","); }
                int64_t id = integer(); need(","); int64_t s = integer(); need(")");
                return std::string("(") + w + " " + a + " " + std::to_string(id) + " " + std::to_string(s) + ")";
            }
        if(eat("geo_within_radius")) {
            need("(");
            bool fs[3]; double ds[3];
            for(int k = 0; k < 3; k++) { if(k) need(","); bool g; int64_t n; double x; if(!num(g, n, x)) throw Bad(); fs[k] = g; ds[k] = g ? x : (double)n; }
            need(")");
            if(fs[0] != fs[1] || fs[1] != fs[2]) throw Bad();
            return "(geo " + fnum(ds[0]) + " " + fnum(ds[1]) + " " + fnum(ds[2]) + ")";
        }
        for(auto w : { "contains", "starts_with", "ends_with" })
            if(eat(w)) { need("("); std::string a = ident(); need(","); std::string s = string(); need(")"); return std::string("(") + w + " " + a + " " + s + ")"; }
        throw Bad();
    }
};

inline Parsed parse_expr(const std::string& text)
{
    Lexed l = lex_expr(text);
    Parsed r;
    r.big = l.big;
    ExprParser ps(l.t);
    try {
        r.dump = ps.expr();
        r.ok = ps.p == l.t.size();
    }
    catch(ExprParser::Bad&) {}
    r.leaves = ps.leaves;
    r.ops = ps.ops;
    if(ps.odd) r.big = true;
    return r;
}

// ------------------------------------------------------------------ events
inline Lexed lex_event(const std::string& t)
{
    Lexed out;
    size_t p = 0;
    auto add = [&](Tok::K k, const std::string& s) { Tok x; x.k = k; x.s = s; out.t.push_back(x); };
    while(p < t.size() && t[p]) {
        char c = t[p];
        if(c == ' ' || c == '\t' || c == '\n') { p++; continue; }
        if(c == '"' || c == '\'') {
            size_t n = quoted(t, p);
            if(!n) { add(Tok::BAD, ""); return out; }
            add(Tok::STR, t.substr(p + 1, n - 2));
            p += n;
            continue;
        }
        if(number(t, p, out)) continue;
        if(strchr("-[]{},:", c)) { add(Tok::KW, std::string(1, c)); p++; continue; }
        bool f = false;
        for(auto w : { "true", "false", "null" }) if(t.compare(p, strlen(w), w) == 0) { add(Tok::KW, w); p += strlen(w); f = true; break; }
        if(!f) { add(Tok::BAD, ""); return out; }
    }
    return out;
}

struct EventParser {
    const std::vector<Tok>& t;
    size_t p = 0;
    size_t vars = 0;
    bool odd = false; // a cap whose type or numbers have no specified meaning
    struct Bad {};
    explicit EventParser(const std::vector<Tok>& t_) : t(t_) {}
    bool is(const char* s, size_t o = 0) const { return p + o < t.size() && t[p + o].k == Tok::KW && t[p + o].s == s; }
    bool eat(const char* s) { if(is(s)) { p++; return true; } return false; }
    void need(const char* s) { if(!eat(s)) throw Bad(); }
    bool kind(Tok::K k, size_t o = 0) const { return p + o < t.size() && t[p + o].k == k; }
    std::string string() { if(!kind(Tok::STR)) throw Bad(); return q(t[p++].s); }
    int64_t integer()
    {
        bool n = eat("-");
        if(!kind(Tok::INT)) throw Bad();
        return int_of(t[p++], n);
    }
    std::string cap()
    {
        need("[");
        bool nest = eat("[");
        if(!kind(Tok::STR)) throw Bad();
        std::string ty = t[p++].s;
        if(!cap_type(ty)) odd = true;
        need(",");
        int64_t id = integer();
        need(",");
        std::string ns = string();
        if(nest) need("]");
        need(",");
        int64_t v = integer();
        need(",");
        int64_t ts = integer();
        need("]");
        if(id < 0 || id > UINT32_MAX || v < 0 || v > UINT32_MAX) odd = true;
        return " [" + ty + " " + std::to_string(id) + " " + ns + " " + std::to_string(v) + " " + std::to_string(ts) + "]";
    }
    std::string value()
    {
        if(eat("true")) return "b1";
        if(eat("false")) return "b0";
        if(kind(Tok::STR)) return "s" + string();
        if(eat("[")) {
            if(eat("]")) return "(I)";
            std::string r;
            if(kind(Tok::STR)) { r = "(S"; do r += " " + string(); while(eat(",")); }
            else if(is("[")) {
                if(kind(Tok::STR, 1) || is("[", 1)) { r = "(C"; do r += cap(); while(eat(",")); }
                else {
                    r = "(G";
                    do { need("["); int64_t id = integer(); need(","); int64_t ts = integer(); need("]"); r += " [" + std::to_string(id) + " " + std::to_string(ts) + "]"; } while(eat(","));
                }
            }
            else { r = "(I"; do r += " " + std::to_string(integer()); while(eat(",")); }
            need("]");
            return r + ")";
        }
        bool n = eat("-");
        if(kind(Tok::INT)) return "i" + std::to_string(int_of(t[p++], n));
        if(kind(Tok::FLT)) { double v = t[p++].d; return "f" + fnum(n ? -v : v); }
        throw Bad();
    }
    std::string event()
    {
        std::string r = "{";
        need("{");
        if(eat("}")) return r + "}";
        do {
            vars++;
            if(!kind(Tok::STR)) throw Bad();
            std::string n = q(lower(t[p++].s));
            need(":");
            if(eat("null")) continue;
            r += " " + n + "=" + value();
        } while(eat(","));
        need("}");
        return r + "}";
    }
};

inline Parsed parse_event(const std::string& text)
{
    Lexed l = lex_event(text);
    Parsed r;
    r.big = l.big;
    EventParser ps(l.t);
    try {
        r.dump = ps.event();
        r.ok = ps.p == l.t.size();
    }
    catch(EventParser::Bad&) {}
    r.leaves = ps.vars;
    if(ps.odd) r.big = true;
    return r;
}
} // namespace lang

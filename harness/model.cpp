#include "model.hpp"

namespace mdl {

const char* vt_name(VT t)
{
    static const char* n[] = { "bool", "int", "float", "string", "int_list", "string_list", "segments", "freq_caps", "int_enum" };
    return n[t];
}
const char* const_names[5] = { "advertiser_id", "campaign_id", "campaign_group_id", "flight_id", "product_id" };
const char* cap_types[10] = { "advertiser", "advertiser:ip", "campaign", "campaign:ip", "campaign_group", "campaign_group:ip", "flight", "flight:ip", "product", "product:ip" };

E mk(K k) { auto e = std::make_shared<Expr>(); e->k = k; return e; }
E clone(const E& e)
{
    if(!e) return e;
    auto n = std::make_shared<Expr>(*e);
    n->l = clone(e->l);
    n->r = clone(e->r);
    return n;
}

// ---------------------------------------------------------------- meaning

double geo_dist(double la1, double lo1, double la2, double lo2)
{
    const double R = 6372.8, rad = 3.14159265358979323846 / 180;
    double p1 = la1 * rad, p2 = la2 * rad, dp = (la2 - la1) * rad, dl = (lo2 - lo1) * rad;
    double h = sin(dp / 2) * sin(dp / 2) + cos(p1) * cos(p2) * sin(dl / 2) * sin(dl / 2);
    if(h > 1) h = 1;
    if(h < 0) h = 0;
    return 2 * R * atan2(sqrt(h), sqrt(1 - h));
}

static bool eval_leaf(const Config& c, const Expr& e, const Event& ev, const Consts& k)
{
    switch(e.k) {
        case LIT: return e.neg;
        case BVAR: return ev.v[e.a] && ev.v[e.a]->b;
        case CMP: {
            if(!ev.v[e.a]) return false;
            const Val& v = *ev.v[e.a];
            if(c.attrs[e.a].t == T_FLT) {
                double x = v.f.val(), y = e.isf ? e.f.val() : (double)e.i;
                return e.op == LT ? x < y : e.op == LE ? x <= y : e.op == GT ? x > y : x >= y;
            }
            return e.op == LT ? v.i < e.i : e.op == LE ? v.i <= e.i : e.op == GT ? v.i > e.i : v.i >= e.i;
        }
        case EQ: {
            if(!ev.v[e.a]) return false;
            const Val& v = *ev.v[e.a];
            bool eq;
            if(c.attrs[e.a].t == T_FLT) eq = v.f.val() == (e.isf ? e.f.val() : (double)e.i);
            else if(c.attrs[e.a].t == T_STR) eq = v.s == e.s;
            else eq = v.i == e.i;
            return eq != e.neg;
        }
        case SETV: {
            if(!ev.v[e.a]) return false;
            const Val& v = *ev.v[e.a];
            bool in = e.iss ? std::find(e.sl.begin(), e.sl.end(), v.s) != e.sl.end() : std::find(e.il.begin(), e.il.end(), v.i) != e.il.end();
            return in != e.neg;
        }
        case SETL: {
            if(!ev.v[e.a]) return false;
            const Val& v = *ev.v[e.a];
            bool in = e.iss ? std::find(v.sl.begin(), v.sl.end(), e.s) != v.sl.end() : std::find(v.il.begin(), v.il.end(), e.i) != v.il.end();
            return in != e.neg;
        }
        case LST: {
            if(!ev.v[e.a]) return false;
            const Val& v = *ev.v[e.a];
            size_t n = 0, have = 0;
            if(e.iss) {
                std::set<std::string> A(e.sl.begin(), e.sl.end()), B(v.sl.begin(), v.sl.end());
                n = A.size();
                for(auto& x : A) have += B.count(x);
            }
            else {
                std::set<int64_t> A(e.il.begin(), e.il.end()), B(v.il.begin(), v.il.end());
                n = A.size();
                for(auto& x : A) have += B.count(x);
            }
            return e.op == ONE_OF ? have > 0 : e.op == NONE_OF ? have == 0 : have == n;
        }
        case NUL: {
            bool def = (bool)ev.v[e.a];
            if(e.op == IS_NULL) return !def;
            if(e.op == IS_NOT_NULL) return def;
            return def && ev.v[e.a]->il.empty() && ev.v[e.a]->sl.empty();
        }
        case STRP: {
            if(!ev.v[e.a]) return false;
            const std::string& v = ev.v[e.a]->s;
            if(e.op == CONTAINS) return v.find(e.s) != std::string::npos;
            if(v.size() < e.s.size()) return false;
            return e.op == STARTS ? v.compare(0, e.s.size(), e.s) == 0 : v.compare(v.size() - e.s.size(), e.s.size(), e.s) == 0;
        }
        case SEGM: {
            int a = e.segvar ? e.a : c.find("segments_with_timestamp"), n = c.find("now");
            if(!ev.v[a] || !ev.v[n]) return false;
            for(auto& sg : ev.v[a]->seg)
                if(sg.id == e.segid) {
                    __int128 lim = (__int128)ev.v[n]->i - e.secs;
                    return e.op == SEG_WITHIN ? lim <= sg.ts / 1000000 : lim > sg.ts / 1000000;
                }
            return false;
        }
        case GEO: {
            int la = c.find("latitude"), lo = c.find("longitude");
            if(!ev.v[la] || !ev.v[lo]) return false;
            double d = geo_dist(e.lat.val(), e.lon.val(), ev.v[la]->f.val(), ev.v[lo]->f.val());
            double r = e.rad.val();
            return d <= r + 1e-10 + 1e-7 * r;
        }
        case FREQ: {
            int a = c.find("frequency_caps"), n = c.find("now");
            if(!ev.v[a]) return false;
            if(ev.v[a]->cap.empty()) return true;
            if(!ev.v[n]) return false;
            int64_t now = ev.v[n]->i;
            int64_t id = k.v[e.ftype / 2];
            for(auto& cp : ev.v[a]->cap) {
                if(cp.type != e.ftype || cp.id != id || cp.ns != e.ns) continue;
                if(e.flen > 0) {
                    if(!cp.tsdef) return true;
                    if((__int128)now - cp.ts / 1000000 > e.flen) return true;
                }
                return e.fval > cp.value;
            }
            return true;
        }
        default: abort();
    }
}

bool eval(const Config& c, const Expr& e, const Event& ev, const Consts& k)
{
    switch(e.k) {
        case AND: return eval(c, *e.l, ev, k) && eval(c, *e.r, ev, k);
        case OR: return eval(c, *e.l, ev, k) || eval(c, *e.r, ev, k);
        case NOT: return !eval(c, *e.l, ev, k);
        default: return eval_leaf(c, e, ev, k);
    }
}

void collect_attrs(const Config& c, const Expr& e, std::set<int>& out)
{
    if(e.l) collect_attrs(c, *e.l, out);
    if(e.r) collect_attrs(c, *e.r, out);
    if(e.k == SEGM) { out.insert(e.segvar ? e.a : c.find("segments_with_timestamp")); out.insert(c.find("now")); }
    else if(e.k == GEO) { out.insert(c.find("latitude")); out.insert(c.find("longitude")); }
    else if(e.k == FREQ) { out.insert(c.find("frequency_caps")); out.insert(c.find("now")); }
    else if(e.a >= 0) out.insert(e.a);
}
bool uses_attr(const Config& c, const Expr& e, int a) { std::set<int> s; collect_attrs(c, e, s); return s.count(a) > 0; }
void collect_ftypes(const Expr& e, std::set<int>& out)
{
    if(e.l) collect_ftypes(*e.l, out);
    if(e.r) collect_ftypes(*e.r, out);
    if(e.k == FREQ) out.insert(e.ftype);
}
size_t expr_size(const Expr& e) { return 1 + (e.l ? expr_size(*e.l) : 0) + (e.r ? expr_size(*e.r) : 0); }
bool contains_kind(const Expr& e, K k) { return e.k == k || (e.l && contains_kind(*e.l, k)) || (e.r && contains_kind(*e.r, k)); }

// ---------------------------------------------------------------- text

std::string ival(int64_t v)
{
    if(v >= 0) return std::to_string(v);
    return "-" + std::to_string(0 - (uint64_t)v);
}

std::string lit(const std::string& s, Style* st)
{
    bool dq = s.find('"') != std::string::npos, sq = s.find('\'') != std::string::npos;
    char q = '"';
    if(dq && !sq) q = '\'';
    else if(!dq && !sq && st && st->quotes && st->s->chance(1, 3)) q = '\'';
    return std::string(1, q) + s + q;
}

static std::string ilist(const std::vector<int64_t>& v, const char* o, const char* c, const std::string& sep)
{
    std::string r = o;
    for(size_t i = 0; i < v.size(); i++) r += (i ? sep : std::string()) + ival(v[i]);
    return r + c;
}

static std::string name_of(const std::string& n, Style* st)
{
    if(!st || !st->casing) return n;
    std::string r = n;
    for(auto& ch : r) if(ch >= 'a' && ch <= 'z' && st->s->chance(1, 4)) ch = (char)(ch - 32);
    // do not turn a name into nothing special: keywords are lower case only
    return r;
}

static std::string W(Style* st) // mandatory white space
{
    if(!st || !st->ws) return " ";
    static const char* w[] = { " ", "  ", "\t", "\n", " \n\t " };
    return w[st->s->weighted({ 6, 1, 1, 1, 1 })];
}
static std::string O(Style* st, const char* dflt = " ") // optional white space
{
    if(!st || !st->ws) return dflt;
    static const char* w[] = { " ", "", "  ", "\t", "\n" };
    return w[st->s->weighted({ 4, 4, 1, 1, 1 })];
}

// prec: 0 or, 1 and, 2 not, 3 atom
static std::string txt(const Config& c, const Expr& e, Style* st, int ctx)
{
    std::string r;
    int p = 3;
    auto A = [&](int a) { return name_of(c.attrs[a].name, st); };
    bool flip = st && st->flip && (e.k == CMP || e.k == EQ) && st->s->chance(1, 3);
    switch(e.k) {
        case LIT: r = e.neg ? "true" : "false"; break;
        case BVAR: r = A(e.a); break;
        case CMP: {
            static const char* ops[] = { "<", "<=", ">", ">=" };
            static const char* rev[] = { ">", ">=", "<", "<=" };
            std::string v = e.isf ? e.f.str() : ival(e.i);
            if(flip) r = v + O(st) + rev[e.op] + O(st) + A(e.a);
            else r = A(e.a) + O(st) + ops[e.op] + O(st) + v;
            break;
        }
        case EQ: {
            std::string v = e.iss ? lit(e.s, st) : e.isf ? e.f.str() : ival(e.i);
            std::string op = e.neg ? "<>" : "=";
            if(flip) r = v + O(st) + op + O(st) + A(e.a);
            else r = A(e.a) + O(st) + op + O(st) + v;
            break;
        }
        case SETV: case LST: {
            std::string op = e.k == SETV ? (e.neg ? "not in" : "in") : e.op == ONE_OF ? "one of" : e.op == NONE_OF ? "none of" : "all of";
            r = A(e.a) + W(st) + op + O(st) + "(" + O(st, "");
            std::string sep = "," ;
            if(e.iss) for(size_t i = 0; i < e.sl.size(); i++) r += (i ? "," + O(st) : std::string()) + lit(e.sl[i], st);
            else for(size_t i = 0; i < e.il.size(); i++) r += (i ? "," + O(st) : std::string()) + ival(e.il[i]);
            r += O(st, "") + ")";
            break;
        }
        case SETL: {
            std::string v = e.iss ? lit(e.s, st) : ival(e.i);
            r = v + W(st) + (e.neg ? "not in" : "in") + W(st) + A(e.a);
            break;
        }
        case NUL: r = A(e.a) + W(st) + (e.op == IS_NULL ? "is null" : e.op == IS_NOT_NULL ? "is not null" : "is empty"); break;
        case STRP: {
            static const char* f[] = { "contains", "starts_with", "ends_with" };
            r = std::string(f[e.op]) + O(st, "") + "(" + O(st, "") + A(e.a) + O(st, "") + "," + O(st) + lit(e.s, st) + O(st, "") + ")";
            break;
        }
        case SEGM:
            r = std::string(e.op == SEG_WITHIN ? "segment_within" : "segment_before") + O(st, "") + "(" + O(st, "") + (e.segvar ? A(e.a) + O(st, "") + "," + O(st) : "") + ival(e.segid) + O(st, "") + "," + O(st) + ival(e.secs) + ")";
            break;
        case GEO: r = "geo_within_radius" + O(st, "") + "(" + e.lat.str() + O(st, "") + "," + O(st) + e.lon.str() + "," + O(st) + e.rad.str() + O(st, "") + ")"; break;
        case FREQ:
            r = "within_frequency_cap" + O(st, "") + "(" + lit(cap_types[e.ftype], st) + "," + O(st) + lit(e.ns, st) + O(st, "") + "," + O(st) + ival(e.fval) + "," + O(st) + ival(e.flen) + ")";
            break;
        case AND: case OR: {
            p = e.k == AND ? 1 : 0;
            std::string op = e.k == AND ? "&&" : "||";
            if(st && st->words && st->s->chance(1, 2)) op = e.k == AND ? "and" : "or";
            else if(!st || !st->words) op = e.k == AND ? "and" : "or";
            bool word = op[0] != '&' && op[0] != '|';
            std::string L = txt(c, *e.l, st, p), R = txt(c, *e.r, st, p + 1);
            if(word) r = L + W(st) + op + W(st) + R;
            else r = L + O(st) + op + O(st) + R;
            break;
        }
        case NOT: p = 2; r = "not" + W(st) + txt(c, *e.l, st, 2); break;
    }
    bool par = p < ctx;
    if(!par && st == nullptr && ctx >= 0 && (e.k == AND || e.k == OR) && ctx != 0) par = true; // canonical: explicit grouping
    if(!par && st && st->parens && st->s->chance(1, 6)) par = true;
    if(par) r = "(" + O(st, "") + r + O(st, "") + ")";
    return r;
}

std::string text(const Config& c, const Expr& e, Style* st) { return txt(c, e, st, 0); }

static std::string ev_str(const std::string& s, EvStyle* st)
{
    Style q;
    if(st) { q.s = st->s; q.quotes = st->quotes; }
    return lit(s, st ? &q : nullptr);
}

template <class T> static std::vector<T> jumble(const std::vector<T>& in, EvStyle* st, bool dups)
{
    std::vector<T> v = in;
    if(!st) return v;
    if(dups && st->dups && !v.empty()) {
        size_t n = st->s->draw(3);
        for(size_t i = 0; i < n; i++) v.push_back(v[st->s->draw(v.size())]);
    }
    if(st->shuffle) for(size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[i - 1 - st->s->draw(i)]);
    return v;
}

bool whole_number(const Num& n)
{
    double d = n.val();
    return d == std::floor(d) && fabs(d) <= 9007199254740992.0 && !(d == 0 && n.neg);
}

std::string event_text(const Config& c, const Event& ev, EvStyle* st)
{
    Style w;
    if(st) { w.s = st->s; w.ws = st->ws; w.casing = st->casing; }
    Style* W_ = st ? &w : nullptr;
    std::vector<std::string> parts;
    for(size_t i = 0; i < c.attrs.size(); i++) {
        std::string n = name_of(c.attrs[i].name, W_);
        if(!ev.v[i]) {
            if(st && st->nulls && c.attrs[i].opt && st->s->chance(1, 3)) parts.push_back(ev_str(n, st) + O(W_, "") + ":" + O(W_) + "null");
            continue;
        }
        const Val& v = *ev.v[i];
        std::string r;
        switch(c.attrs[i].t) {
            case T_BOOL: r = v.b ? "true" : "false"; break;
            case T_INT: case T_IE: r = ival(v.i); break;
            case T_FLT: r = st && st->whole && whole_number(v.f) && st->s->chance(2, 3) ? ival((int64_t)v.f.val()) : v.f.str(); break;
            case T_STR: r = ev_str(v.s, st); break;
            case T_IL: r = ilist(jumble(v.il, st, true), "[", "]", "," + O(W_)); break;
            case T_SL: {
                r = "[";
                auto l = jumble(v.sl, st, true);
                for(size_t j = 0; j < l.size(); j++) r += (j ? "," + O(W_) : std::string()) + ev_str(l[j], st);
                r += "]";
                break;
            }
            case T_SEG: {
                r = "[";
                for(size_t j = 0; j < v.seg.size(); j++) r += (j ? "," + O(W_, "") : std::string()) + "[" + ival(v.seg[j].id) + "," + O(W_, "") + ival(v.seg[j].ts) + "]";
                r += "]";
                break;
            }
            case T_CAP: {
                r = "[";
                for(size_t j = 0; j < v.cap.size(); j++) {
                    auto& p = v.cap[j];
                    bool nest = st && st->nested && st->s->chance(1, 2);
                    r += (j ? "," + O(W_, "") : std::string());
                    std::string head = ev_str(cap_types[p.type], st) + "," + O(W_) + ival(p.id) + "," + O(W_) + ev_str(p.ns, st);
                    r += nest ? "[[" + head + "]," : "[" + head + ",";
                    r += O(W_) + ival(p.value) + "," + O(W_) + ival(p.ts) + "]";
                }
                r += "]";
                break;
            }
            default: abort();
        }
        parts.push_back(ev_str(n, st) + O(W_, "") + ":" + O(W_) + r);
    }
    if(st && st->shuffle) for(size_t i = parts.size(); i > 1; i--) std::swap(parts[i - 1], parts[i - 1 - st->s->draw(i)]);
    std::string r = "{" + O(W_, "");
    for(size_t i = 0; i < parts.size(); i++) r += (i ? "," + O(W_) : std::string()) + parts[i];
    return r + O(W_, "") + "}";
}

std::string config_text(const Config& c)
{
    std::string r;
    for(auto& a : c.attrs) {
        r += (r.empty() ? "" : "; ") + a.name + ":" + vt_name(a.t) + (a.opt ? "?" : "");
        char b[120];
        if(a.t == T_INT || a.t == T_IL) { snprintf(b, sizeof b, "[%lld,%lld]", (long long)a.imin, (long long)a.imax); r += b; }
        if(a.t == T_FLT) { snprintf(b, sizeof b, "[%.17g,%.17g]", a.fmin, a.fmax); r += b; }
        if(a.t == T_STR || a.t == T_SL || a.t == T_IE) { snprintf(b, sizeof b, "<%zu>", a.cnt); r += a.cnt == SIZE_MAX ? "" : b; }
    }
    return r;
}

std::string consts_text(const Consts& k)
{
    std::string r;
    for(int i = 0; i < 5; i++) if(k.has[i]) r += std::string(r.empty() ? "" : ",") + const_names[i] + "=" + ival(k.v[i]);
    return r;
}

// ---------------------------------------------------------------- generators

std::string gen_string(Src& s)
{
    static const std::vector<std::string> base = { "a", "b", "ab", "", "abc", "ba", "aa", "A", "x y", "it's", "q\"q", "b\\\"c", "aaa", "caf\xc3\xa9", "0", "null", "abab", "cafC)", "\xe1", "B" };
    if(s.chance(1, 6)) {
        std::string r;
        while(s.more(r.size(), 3, 40)) r += "abc"[s.draw(3)];
        return r;
    }
    if(s.chance(1, 10)) { // long, alike but for a few characters
        static const size_t lens[] = { 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300 };
        std::string r;
        size_t n = lens[s.draw(s.chance(1, 4) ? 19 : 12)];
        for(size_t i = 0; i < n; i++) r += (char)('a' + i % 26);
        if(s.chance(2, 3)) r[s.pick(std::vector<size_t> { n - 1, 0, n / 2, n - 2 })] = "xyz"[s.draw(3)];
        return r;
    }
    return base[s.draw(base.size())];
}

Num gen_num(Src& s, int64_t lo, int64_t hi) // value in [lo, hi] hundredths
{
    // draw 0 -> value closest to zero
    int64_t z = lo > 0 ? lo : hi < 0 ? hi : 0;
    uint64_t span = (uint64_t)(hi - lo) + 1;
    int64_t h = (int64_t)((uint64_t)(z - lo) + s.draw(span));
    h = lo + (int64_t)((uint64_t)h % span);
    Num n;
    n.neg = h < 0;
    uint64_t u = (uint64_t)(h < 0 ? -h : h);
    char b[40];
    unsigned fr = (unsigned)(u % 100);
    if(fr == 0) snprintf(b, sizeof b, "%llu.%s", (unsigned long long)(u / 100), s.chance(1, 8) ? "" : "0");
    else if(fr % 10 == 0) snprintf(b, sizeof b, "%llu.%u", (unsigned long long)(u / 100), fr / 10);
    else snprintf(b, sizeof b, "%llu.%02u", (unsigned long long)(u / 100), fr);
    n.txt = b;
    if(u == 0) n.neg = false;
    return n;
}

static void addi(std::vector<int64_t>& v, int64_t x) { if(std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); }

static void int_pool(Src& s, Attr& a)
{
    auto in = [&](__int128 x) { if(x >= a.imin && x <= a.imax) addi(a.ipool, (int64_t)x); };
    __int128 lo = a.imin, hi = a.imax;
    if(a.imin == INT64_MIN && a.imax == INT64_MAX) {
        for(int x : { 0, 1, 2, 3, -1, 5, 10, 100 }) in(x);
        in((__int128)INT64_MAX); in((__int128)INT64_MAX - 1); in(-(__int128)INT64_MAX); if(s.chance(1, 2)) in(INT64_MIN);
        in(1000000000000ll); in(-2147483649ll); in(4294967296ll);
        if(s.chance(1, 4)) { // alike but for one bit
            __int128 v = (__int128)s.range(-3, 3);
            in(v);
            for(int i = 0; i < 3; i++) in(v + ((__int128)1 << s.draw(63)));
        }
    }
    else {
        in(lo); in(hi); in(lo + 1); in(hi - 1);
        __int128 mid = lo + (hi - lo) / 2;
        in(mid); in(mid + 1); in(mid - 1);
        in(lo + (hi - lo) / 4); in(lo + (hi - lo) * 3 / 4);
        in(0); in(lo + 2);
    }
    if(lo != INT64_MIN || hi != INT64_MAX)
        for(int i = 0; i < 3; i++) {
            uint64_t w = (uint64_t)(hi - lo);
            in(lo + (__int128)(w == UINT64_MAX ? s.draw(0) : s.draw(w + 1)));
        }
    if(s.chance(1, 10)) for(int i = 0; i < 40; i++) in((lo == INT64_MIN ? 0 : lo) + i); // enough for long lists
    if(a.ipool.empty()) addi(a.ipool, a.imin);
    auto out = [&](__int128 x) { if(x >= INT64_MIN && x <= INT64_MAX && (x < a.imin || x > a.imax)) addi(a.iout, (int64_t)x); };
    out(lo - 1); out(hi + 1); out(lo - 100); out(hi + 100); out(-(__int128)INT64_MAX); out(INT64_MAX); out(INT64_MIN); out(lo - 2); out(hi + 2);
}

void fill_pools(Src& s, Attr& a, const CfgOpt& o)
{
    a.ipool.clear(); a.iout.clear(); a.fpool.clear(); a.fout.clear(); a.spool.clear();
    switch(a.t) {
        case T_INT: case T_IL: int_pool(s, a); break;
        case T_FLT: {
            bool unb = a.fmin == -DBL_MAX && a.fmax == DBL_MAX;
            int64_t lo = unb ? -5000 : (int64_t)llround(a.fmin * 100), hi = unb ? 5000 : (int64_t)llround(a.fmax * 100);
            auto add = [&](std::vector<Num>& v, int64_t h) {
                Num n; n.neg = h < 0; uint64_t u = (uint64_t)(h < 0 ? -h : h);
                char b[40]; snprintf(b, sizeof b, "%llu.%02u", (unsigned long long)(u / 100), (unsigned)(u % 100)); n.txt = b;
                for(auto& x : v) if(x.val() == n.val()) return;
                v.push_back(n);
            };
            auto in = [&](int64_t h) { if(h >= lo && h <= hi) add(a.fpool, h); };
            in(0); in(lo); in(hi); in(lo + 1); in(hi - 1); in(lo + (hi - lo) / 2); in(lo + (hi - lo) / 4); in(lo + 100); in(hi - 100); in(lo + 50);
            in((lo + (hi - lo) / 2) / 100 * 100);
            in((lo + (hi - lo) / 2) / 100 * 100 + 50);
            for(int i = 0; i < 3; i++) a.fpool.push_back(gen_num(s, lo, hi));
            if(s.chance(1, 4)) { // close together: no binary or decimal shortcut may merge them
                static const char* twins[][3] = { { "1000000.01", "1000000.02", "1000000.0" }, { "16777216.0", "16777217.0", "16777216.5" }, { "0.1", "0.1000000001", "0.10" }, { "4503599627370496.5", "4503599627370497.5", "4503599627370496.0" }, { "1.0", "1.000000000001", "0.999999999999" }, { "2.001", "2.002", "2.0015" }, { "0.0000001", "0.0000002", "0.0" }, { "4294967296.25", "0.25", "8589934592.25" } };
                auto& g = twins[s.draw(8)];
                bool neg = s.chance(1, 3);
                for(auto w : g) {
                    Num n;
                    n.txt = w;
                    n.neg = neg && n.val() != 0;
                    if(n.val() >= a.fmin && n.val() <= a.fmax) a.fpool.push_back(n);
                }
            }
            if(!unb) { add(a.fout, lo - 1); add(a.fout, hi + 1); add(a.fout, lo - 1000); add(a.fout, hi + 1000); add(a.fout, lo - 50); add(a.fout, hi + 50); }
            break;
        }
        case T_STR: case T_SL: {
            size_t n = 2 + s.draw(6);
            if(s.chance(1, 10)) n = 30;
            if(o.tight_vocab) n = 1 + s.draw(6);
            for(size_t i = 0; i < n; i++) {
                std::string x = gen_string(s);
                if(std::find(a.spool.begin(), a.spool.end(), x) == a.spool.end()) a.spool.push_back(x);
            }
            break;
        }
        case T_IE: {
            size_t n = 2 + s.draw(5);
            for(size_t i = 0; i < n; i++) addi(a.ipool, s.chance(1, 8) ? (int64_t)s.draw(1u << 30) * 4096 - (1ll << 40) : s.range(0, 9));
            if(s.chance(1, 6)) addi(a.ipool, a.ipool[0] + (s.chance(1, 2) ? 4294967296ll : -4294967296ll)); // the same lower half
            for(int x : { 77, -3 }) if(std::find(a.ipool.begin(), a.ipool.end(), x) == a.ipool.end()) a.iout.push_back(x);
            break;
        }
        default: break;
    }
}

static void domain(Src& s, Attr& a, const CfgOpt& o)
{
    switch(a.t) {
        case T_INT: case T_IL: {
            size_t m = s.weighted({ 4, 2, 3, 1, 1, 3, o.wide ? 1u : 0u, 1 });
            a.bounded = true;
            if(m == 0) { a.imin = 0; a.imax = 10; }
            else if(m == 1) { a.imin = -5; a.imax = 5; }
            else if(m == 2) { a.imin = s.range(-20, 20); a.imax = a.imin + s.range(0, 60); }
            else if(m == 3) { a.imin = s.range(-600, 600); a.imax = a.imin + s.range(997, 1002); }
            else if(m == 4) { a.imin = s.range(-1000000, 1000000); a.imax = a.imin + s.range(1000, 3000000); }
            else if(m == 5) { a.bounded = false; a.imin = INT64_MIN; a.imax = INT64_MAX; }
            else if(m == 6) {
                switch(s.draw(6)) {
                    case 0: a.imin = INT64_MAX - 20; a.imax = INT64_MAX; break;
                    case 1: a.imin = INT64_MIN; a.imax = INT64_MIN + 20; break;
                    case 2: a.imin = -INT64_MAX; a.imax = INT64_MAX - 1; break;
                    case 3: a.imin = 0; a.imax = INT64_MAX; break;
                    case 4: a.imin = INT64_MIN; a.imax = 0; break;
                    case 5: a.imin = INT64_MIN + 1; a.imax = INT64_MAX; break;
                }
            }
            else { a.imin = s.range(-3, 3); a.imax = a.imin + s.range(0, 2); }
            break;
        }
        case T_FLT: {
            size_t m = s.weighted({ 3, 3, 2, 2, 2 });
            a.bounded = true;
            if(m == 0) { a.fmin = 0; a.fmax = 10; }
            else if(m == 1) { a.fmin = (double)s.range(-20, 20) / 4; a.fmax = a.fmin + (double)s.range(0, 60) / 4; }
            else if(m == 2) { a.bounded = false; a.fmin = -DBL_MAX; a.fmax = DBL_MAX; }
            else if(m == 3) { a.fmin = (double)s.range(-600, 600); a.fmax = a.fmin + (double)s.range(990, 1010); }
            else { a.fmin = 0; a.fmax = (double)s.range(0, 8) / 4; }
            break;
        }
        case T_STR: case T_SL: case T_IE:
            a.cnt = SIZE_MAX; // set after the pool is known
            break;
        default: break;
    }
}

Config gen_config(Src& s, const CfgOpt& o)
{
    Config c;
    static const std::vector<VT> all = { T_INT, T_BOOL, T_STR, T_FLT, T_IL, T_SL, T_IE };
    const std::vector<VT>& ts = o.types.empty() ? all : o.types;
    static const char* names[] = { "a", "b", "cc", "d1", "e_e", "in_x", "not_y", "order", "android", "isnt", "g", "h", "k", "m-n", "trueish", "none", "p", "q", "r", "all" };
    int n = o.min;
    while(n < o.max && s.chance(2, 3)) n++;
    bool few = true;
    if(o.max >= 5 && s.chance(1, 30)) {
        n = 8 + (int)s.draw(21);
        static const int words[] = { 64, 63, 65, 32, 128, 127, 129, 66 };
        if(s.chance(1, 4)) {
            static const int bytes[] = { 256, 255, 257, 300 };
            n = s.chance(1, 6) ? bytes[s.draw(4)] : words[s.draw(8)];
            few = s.chance(1, 2);
        }
    }
    bool odd = s.chance(1, 4);
    // long names that differ in their last letters only, or names each of which starts the next
    std::string stem;
    bool grow = false;
    if(!odd && s.chance(1, 15)) {
        static const int lengths[] = { 7, 8, 15, 16, 31, 32, 63, 64, 100, 128, 256 };
        grow = n <= 40 && s.chance(1, 3);
        stem.assign(grow ? 1 + s.draw(3) : (size_t)lengths[s.draw(11)] - s.draw(2), 'n');
    }
    for(int i = 0; i < n; i++) {
        Attr a;
        if(grow) a.name = stem + std::string((size_t)i, "nm"[s.draw(2)]);
        else if(!stem.empty()) a.name = stem + std::to_string(i);
        else if(odd && i < 20) a.name = names[i];
        else a.name = std::string(1, (char)('a' + i % 26)) + (i >= 26 ? "_" + std::to_string(i / 26) : "");
        a.t = ts[s.draw(ts.size())];
        a.opt = s.chance((uint64_t)o.opt_pct, 100);
        domain(s, a, o);
        fill_pools(s, a, o);
        if(a.t == T_STR || a.t == T_SL || a.t == T_IE) {
            size_t pool = a.t == T_IE ? a.ipool.size() : a.spool.size();
            if(o.tight_vocab) a.cnt = 1 + s.draw(pool);
            else if(o.bounded_strings && s.chance(1, 2)) a.cnt = pool + s.draw(3);
            a.bounded = a.cnt != SIZE_MAX;
        }
        c.attrs.push_back(a);
    }
    if(o.specials && few) {
        bool geo = s.chance(1, 4), seg = s.chance(1, 4), cap = s.chance(1, 4);
        auto opt = [&]() { return s.chance((uint64_t)o.opt_pct, 100); };
        if(geo) {
            for(const char* nm : { "latitude", "longitude" }) {
                Attr a; a.name = nm; a.t = T_FLT; a.opt = opt();
                bool lat = a.name == "latitude";
                if(s.chance(1, 2)) { a.bounded = true; a.fmin = lat ? -90 : -180; a.fmax = -a.fmin; }
                CfgOpt q = o;
                fill_pools(s, a, q);
                a.fout.clear();
                { std::vector<Num> k; for(auto& x : a.fpool) if(fabs(x.val()) <= (lat ? 90 : 180)) k.push_back(x); a.fpool = k; }
                if(o.few_points && a.fpool.size() > 2) { std::swap(a.fpool[0], a.fpool[s.draw(a.fpool.size())]); a.fpool.resize(2); }
                c.attrs.push_back(a);
            }
        }
        if(seg) {
            Attr a; a.name = "segments_with_timestamp"; a.t = T_SEG; a.opt = opt(); c.attrs.push_back(a);
            if(s.chance(1, 2)) { Attr b; b.name = "seg2"; b.t = T_SEG; b.opt = opt(); c.attrs.push_back(b); }
        }
        if(cap) { Attr a; a.name = "frequency_caps"; a.t = T_CAP; a.opt = opt(); c.attrs.push_back(a); }
        if(seg || cap) {
            Attr a; a.name = "now"; a.t = T_INT; a.opt = opt();
            if(s.chance(1, 3)) { a.bounded = true; a.imin = 0; a.imax = 2000000000; }
            for(int64_t x : { 30ll, 1000ll, 10ll, 0ll, 20ll, 1600000000ll }) a.ipool.push_back(x);
            if(!a.bounded && s.chance(1, 4)) for(int64_t x : { 2147483648ll, 4294967326ll, 4000000000ll, 100000000000ll }) a.ipool.push_back(x);
            c.attrs.push_back(a);
        }
    }
    return c;
}

static int64_t gen_int(Src& s, const Attr& a, bool in)
{
    if(!in && !a.iout.empty() && s.chance(1, 6)) return s.pick(a.iout);
    return s.pick(a.ipool);
}
static Num gen_flt(Src& s, const Attr& a, bool in)
{
    if(!in && !a.fout.empty() && s.chance(1, 6)) return s.pick(a.fout);
    return s.pick(a.fpool);
}

static int64_t gen_secs(Src& s) { static const std::vector<int64_t> v = { 20, 0, 10, 1, 1000, 5, 2147483647, 4294967301ll }; return s.pick(v); }

static void fill_leaf(Src& s, const Config& c, Expr& e, const GenOpt& o)
{
    const Attr* a = e.a >= 0 ? &c.attrs[e.a] : nullptr;
    bool in = o.in_domain;
    switch(e.k) {
        case LIT: e.neg = s.chance(1, 2); break;
        case CMP:
            e.op = (int)s.draw(4);
            if(a->t == T_FLT) {
                e.isf = true;
                e.f = gen_flt(s, *a, in);
                double v = e.f.val();
                if(v == floor(v) && fabs(v) < 1e6 && s.chance(1, 3)) { e.isf = false; e.i = (int64_t)v; }
            }
            else e.i = gen_int(s, *a, in);
            break;
        case EQ:
            e.neg = s.chance(1, 3);
            if(a->t == T_FLT) {
                e.isf = true;
                e.f = gen_flt(s, *a, in);
                double v = e.f.val();
                if(v == floor(v) && fabs(v) < 1e6 && s.chance(1, 3)) { e.isf = false; e.i = (int64_t)v; }
            }
            else if(a->t == T_STR) { e.iss = true; e.s = s.pick(a->spool); }
            else e.i = gen_int(s, *a, a->t == T_IE ? true : in);
            break;
        case SETV: case LST: {
            bool lng = s.chance(1, 10);
            if(e.k == SETV) e.neg = s.chance(1, 3);
            else e.op = (int)s.draw(3);
            e.iss = a->t == T_STR || a->t == T_SL;
            e.il.clear(); e.sl.clear();
            do {
                if(e.iss) {
                    std::string x = s.pick(a->spool);
                    if(o.list_dups || std::find(e.sl.begin(), e.sl.end(), x) == e.sl.end()) e.sl.push_back(x);
                }
                else {
                    int64_t x = gen_int(s, *a, in);
                    if(o.list_dups || std::find(e.il.begin(), e.il.end(), x) == e.il.end()) e.il.push_back(x);
                }
            } while(s.more(e.il.size() + e.sl.size(), lng ? 14 : 1.5, lng ? 60 : 8));
            break;
        }
        case SETL:
            e.neg = s.chance(1, 3);
            e.iss = a->t == T_SL;
            if(e.iss) e.s = s.pick(a->spool);
            else e.i = gen_int(s, *a, in);
            break;
        case NUL: break;
        case STRP: e.op = (int)s.draw(3); e.s = s.chance(2, 3) ? s.pick(a->spool) : gen_string(s); if(s.chance(1, 3) && e.s.size() > 1 && e.s.find('\\') == std::string::npos) e.s = e.s.substr(s.draw(e.s.size())); break;
        case SEGM: e.op = (int)s.draw(2); e.segid = (int64_t)s.draw(5); e.secs = gen_secs(s); break;
        case GEO: {
            e.geoint = s.chance(1, 3);
            int la = c.find("latitude"), lo = c.find("longitude");
            if(e.geoint) {
                auto mkint = [&](int64_t v) { Num n; n.neg = v < 0; n.txt = std::to_string(v < 0 ? -v : v); return n; };
                e.lat = mkint(s.range(0, 180) - 90);
                e.lon = mkint(s.range(0, 360) - 180);
                e.rad = mkint(1 + (int64_t)s.draw(21000));
            }
            else {
                e.lat = s.chance(1, 2) ? s.pick(c.attrs[la].fpool) : gen_num(s, -9000, 9000);
                e.lon = s.chance(1, 2) ? s.pick(c.attrs[lo].fpool) : gen_num(s, -18000, 18000);
                e.rad = gen_num(s, 1, s.chance(1, 2) ? 2100000 : 50000); // not 0: the rounding of a distance of nothing would decide
                if(s.chance(1, 4)) { // the point itself and centimetres around it
                    e.lat = s.pick(c.attrs[la].fpool);
                    e.lon = s.pick(c.attrs[lo].fpool);
                    e.rad.neg = false;
                    e.rad.txt = "0.0002";
                }
            }
            break;
        }
        case FREQ: {
            static const std::vector<std::string> ns = { "ns", "n2", "", "a_rather_long_namespace_1", "a_rather_long_namespace_2" };
            e.ftype = (int)s.draw(10);
            e.ns = s.pick(ns);
            e.fval = (int64_t)s.draw(5);
            if(s.chance(1, 16)) e.fval += s.chance(1, 2) ? 4294967296ll : -5;
            e.flen = s.chance(1, 2) ? 0 : gen_secs(s);
            break;
        }
        default: break;
    }
}

E gen_leaf(Src& s, const Config& c, const GenOpt& o)
{
    if(o.reuse && !o.reuse->empty() && s.chance(2, 5)) {
        E e = clone((*o.reuse)[s.draw(o.reuse->size())]);
        if(s.chance(1, 2)) e = mutate_leaf(s, c, e, o);
        return e;
    }
    std::vector<std::pair<K, int>> cand;
    std::vector<unsigned> w;
    auto add = [&](K k, int a, unsigned wt) { cand.push_back({ k, a }); w.push_back(wt); };
    auto ok = [&](int a) { return o.only.empty() || std::find(o.only.begin(), o.only.end(), a) != o.only.end(); };
    for(size_t i = 0; i < c.attrs.size(); i++) {
        int a = (int)i;
        if(!ok(a)) continue;
        const Attr& at = c.attrs[i];
        switch(at.t) {
            case T_BOOL: add(BVAR, a, 8); break;
            case T_INT: add(CMP, a, 5); add(EQ, a, 4); add(SETV, a, 3); break;
            case T_FLT: add(CMP, a, 5); add(EQ, a, 3); break;
            case T_STR: add(EQ, a, 5); add(SETV, a, 3); if(o.specials) add(STRP, a, 2); break;
            case T_IL: add(LST, a, 6); add(SETL, a, 3); if(o.nulls) add(NUL, a, 1); break;
            case T_SL: add(LST, a, 6); add(SETL, a, 3); if(o.nulls) add(NUL, a, 1); break;
            case T_IE: add(EQ, a, 8); break;
            case T_SEG: if(o.specials && c.find("now") >= 0) add(SEGM, a, 6); break;
            case T_CAP: if(o.specials && c.find("now") >= 0 && at.name == "frequency_caps") add(FREQ, -1, 6); break;
            default: break;
        }
        if(o.nulls && at.opt) add(NUL, a, 1);
    }
    if(o.specials && c.find("latitude") >= 0 && c.find("longitude") >= 0 && ok(c.find("latitude"))) add(GEO, -1, 4);
    if(o.literals || cand.empty()) add(LIT, -1, 1);
    size_t k = s.weighted(w);
    E e = mk(cand[k].first);
    e->a = cand[k].second;
    if(e->k == SEGM) {
        bool dflt = c.attrs[e->a].name == "segments_with_timestamp";
        e->segvar = dflt ? s.chance(1, 2) : true;
        if(!e->segvar) e->a = -1;
    }
    if(e->k == NUL) {
        bool list = c.attrs[e->a].t == T_IL || c.attrs[e->a].t == T_SL;
        std::vector<int> ops;
        if(c.attrs[e->a].opt) { ops.push_back(IS_NULL); ops.push_back(IS_NOT_NULL); }
        if(list) ops.push_back(IS_EMPTY);
        e->op = ops[s.draw(ops.size())];
    }
    fill_leaf(s, c, *e, o);
    if(o.reuse && o.reuse->size() < 12) o.reuse->push_back(clone(e));
    return e;
}

E mutate_leaf(Src& s, const Config& c, const E& e0, const GenOpt& o)
{
    E e = clone(e0);
    if(e->l) { // inner node: mutate below, swap children or change operator
        switch(s.draw(e->r ? 4 : 2)) {
            case 0: e->l = mutate_leaf(s, c, e->l, o); break;
            case 1: if(e->r) e->r = mutate_leaf(s, c, e->r, o); else e->l = mutate_leaf(s, c, e->l, o); break;
            case 2: std::swap(e->l, e->r); break;
            case 3: e->k = e->k == AND ? OR : AND; break;
        }
        return e;
    }
    E f = mk(e->k); // fresh content, same kind and attribute
    f->a = e->a; f->segvar = e->segvar; f->op = e->op;
    fill_leaf(s, c, *f, o);
    const Attr* a = e->a >= 0 ? &c.attrs[e->a] : nullptr;
    switch(e->k) {
        case CMP:
            if(a->t == T_FLT && e->isf && s.chance(1, 3)) { // the closest other constant
                const Num* best = nullptr;
                for(auto& n : a->fpool) if(n.val() != e->f.val() && (!best || fabs(n.val() - e->f.val()) < fabs(best->val() - e->f.val()))) best = &n;
                if(best) e->f = *best;
            }
            else if(s.chance(1, 2)) e->op = f->op;
            else { e->isf = f->isf; e->f = f->f; e->i = f->i; }
            break;
        case EQ: if(s.chance(1, 2)) e->neg = !e->neg; else { e->isf = f->isf; e->f = f->f; e->i = f->i; e->s = f->s; } break;
        case SETV: case LST: {
            size_t n = e->iss ? e->sl.size() : e->il.size();
            switch(s.draw(4)) {
                case 0: if(e->k == SETV) e->neg = !e->neg; else e->op = (e->op + 1 + (int)s.draw(2)) % 3; break;
                case 1: { size_t j = s.draw(n); if(e->iss) e->sl[j] = f->sl[0]; else e->il[j] = f->il[0]; break; }
                case 2: if(e->iss) e->sl.push_back(f->sl[0]); else e->il.push_back(f->il[0]); break;
                case 3: if(n > 1) { if(e->iss) e->sl.pop_back(); else e->il.pop_back(); } break;
            }
            break;
        }
        case SETL: if(s.chance(1, 2)) e->neg = !e->neg; else { e->i = f->i; e->s = f->s; } break;
        case STRP:
            if(s.chance(1, 3)) e->op = f->op;
            else if(!e->s.empty() && e->s.find('\\') == std::string::npos && s.chance(1, 2)) { // one character
                size_t j = s.pick(std::vector<size_t> { e->s.size() - 1, 0, e->s.size() / 2 });
                if((unsigned char)e->s[j] < 128) e->s[j] = e->s[j] == 'a' ? 'b' : 'a';
            }
            else e->s = f->s;
            break;
        case SEGM: switch(s.draw(3)) { case 0: e->op = 1 - e->op; break; case 1: e->segid = f->segid; break; case 2: e->secs = f->secs; break; } break;
        case GEO: switch(s.draw(3)) { case 0: e->lat = f->lat; e->lon = f->lon; e->rad = f->rad; e->geoint = f->geoint; break; default: if(e->geoint == f->geoint) e->rad = f->rad; break;
            case 1: // centimetres aside
                if(e->geoint) break;
                Num& n = s.chance(1, 2) ? e->lat : e->lon;
                size_t dot = n.txt.find('.');
                if(dot == std::string::npos || n.txt.size() - dot > 4) break;
                n.txt += std::string(5 - (n.txt.size() - dot), '0') + (s.chance(1, 2) ? "04" : "3");
            } break;
        case FREQ: switch(s.draw(4)) { case 0: e->ftype = f->ftype; break; case 1: e->ns = f->ns; break; case 2: e->fval = f->fval; break; case 3: e->flen = f->flen; break; } break;
        case NUL: if(a && a->opt && e->op != IS_EMPTY) e->op = 1 - e->op; break;
        case LIT: e->neg = !e->neg; break;
        default: break;
    }
    // another attribute of the same type
    if(a && s.chance(1, 4) && e->k != NUL && e->k != SEGM) {
        for(size_t i = 0; i < c.attrs.size(); i++)
            if((int)i != e->a && c.attrs[i].t == a->t && !o.in_domain && (o.only.empty())) { e->a = (int)i; break; }
        if(e->a != e0->a && c.attrs[e->a].t == T_IE) e->i = s.pick(c.attrs[e->a].ipool);
    }
    return e;
}

static E gen_expr_d(Src& s, const Config& c, const GenOpt& o, int depth)
{
    if(depth <= 0) return gen_leaf(s, c, o);
    size_t k = s.weighted({ 5, 4, 4, 2 });
    if(k == 0) return gen_leaf(s, c, o);
    if(k == 3) {
        E e = mk(NOT);
        e->l = gen_expr_d(s, c, o, depth - 1);
        return e;
    }
    E e = mk(k == 1 ? AND : OR);
    e->l = gen_expr_d(s, c, o, depth - 1);
    e->r = gen_expr_d(s, c, o, depth - 1);
    if(o.reuse && o.reuse->size() < 16 && s.chance(1, 3)) o.reuse->push_back(clone(e));
    return e;
}
E gen_expr(Src& s, const Config& c, const GenOpt& o) { return gen_expr_d(s, c, o, o.depth); }

std::shared_ptr<Val> gen_val(Src& s, const Config& c, const Attr& a)
{
    auto v = std::make_shared<Val>();
    v->t = a.t;
    switch(a.t) {
        case T_BOOL: v->b = s.chance(1, 2); break;
        case T_INT: case T_IE:
            if(!a.iout.empty() && s.chance(1, 6)) v->i = s.pick(a.iout);
            else {
                v->i = s.pick(a.ipool);
                if(a.t == T_INT && s.chance(1, 5)) { // next to a constant
                    int64_t d = s.chance(1, 2) ? 1 : -1;
                    if(!(d > 0 && v->i == INT64_MAX) && v->i > -INT64_MAX) v->i += d;
                }
            }
            break;
        case T_FLT: v->f = gen_flt(s, a, false); break;
        case T_STR: v->s = s.chance(1, 5) ? gen_string(s) : s.pick(a.spool); break;
        case T_IL: { bool lng = s.chance(1, 10); while(s.more(v->il.size(), lng ? 14 : 2, lng ? 60 : 10)) v->il.push_back(gen_int(s, a, false)); break; }
        case T_SL: { bool lng = s.chance(1, 10); while(s.more(v->sl.size(), lng ? 14 : 2, lng ? 60 : 10)) v->sl.push_back(s.chance(1, 5) ? gen_string(s) : s.pick(a.spool)); break; }
        case T_SEG: {
            int nw = c.find("now"); if(nw >= 0 && c.attrs[(size_t)nw].t != T_INT) nw = -1;
            for(int64_t id = 0; id < 5; id++)
                if(s.chance(1, 2)) {
                    int64_t base = nw >= 0 ? s.pick(c.attrs[nw].ipool) : 1000;
                    int64_t t = base - gen_secs(s) + s.range(-1, 1);
                    if(t < 0) t = 0;
                    v->seg.push_back({ id, t * 1000000 + (s.chance(1, 2) ? 0 : (int64_t)s.draw(1000000)) });
                }
            break;
        }
        case T_CAP: {
            static const std::vector<std::string> ns = { "ns", "n2", "", "unk", "a_rather_long_namespace_1", "a_rather_long_namespace_2" };
            int nw = c.find("now"); if(nw >= 0 && c.attrs[(size_t)nw].t != T_INT) nw = -1;
            while(s.more(v->cap.size(), 2, 8)) {
                Cap p;
                p.type = (int)s.draw(10);
                p.id = (uint32_t)s.draw(3) + 1;
                if(s.chance(1, 10)) p.id = 4294967295u;
                p.ns = s.pick(ns);
                p.tsdef = true;
                int64_t base = nw >= 0 ? s.pick(c.attrs[nw].ipool) : 1000;
                int64_t t = base - gen_secs(s) + s.range(-1, 1);
                if(t < 0) t = 0;
                p.ts = t * 1000000 + (s.chance(1, 2) ? 0 : (int64_t)s.draw(1000000));
                p.value = (uint32_t)s.draw(5);
                v->cap.push_back(p);
            }
            break;
        }
        default: abort();
    }
    return v;
}

Event gen_event(Src& s, const Config& c, int undef_pct)
{
    Event e;
    for(auto& a : c.attrs) {
        if(a.opt && s.chance((uint64_t)undef_pct, 100)) e.v.push_back(nullptr);
        else e.v.push_back(gen_val(s, c, a));
    }
    return e;
}

Consts gen_consts(Src& s, const Expr& e)
{
    Consts k;
    std::set<int> f;
    collect_ftypes(e, f);
    for(int t : f)
        if(!k.has[t / 2]) { k.has[t / 2] = true; k.v[t / 2] = s.chance(1, 10) ? 4294967295ll : (int64_t)s.draw(3) + 1; }
    return k;
}
void mistype(Src& s, Config& c, Event& ev)
{
    size_t i = s.draw(c.attrs.size());
    VT was = c.attrs[i].t;
    std::vector<VT> other;
    for(int k = 0; k < (int)T_IE; k++)
        if((VT)k != was && !((VT)k == T_INT && (was == T_IE || was == T_FLT))) other.push_back((VT)k);
    VT t = other[s.draw(other.size())];
    auto v = std::make_shared<Val>();
    v->t = t;
    v->b = s.chance(1, 2);
    v->i = s.chance(1, 2) ? 0 : (int64_t)s.draw(9) - 4;
    v->f.txt = s.chance(1, 2) ? "1.50" : "2.0";
    v->s = s.chance(1, 2) ? "x" : "7";
    size_t n = 1 + s.draw(3);
    for(size_t j = 0; j < n; j++) {
        v->il.push_back((int64_t)s.draw(4));
        v->sl.push_back(std::string(1, (char)('a' + s.draw(3))));
        v->seg.push_back(Seg { (int64_t)j + 1, 5 });
        v->cap.push_back(Cap { (int)s.draw(10), 1, "ns", true, 2, 3 });
    }
    c.attrs[i].t = t;
    ev.v[i] = v;
}
} // namespace mdl

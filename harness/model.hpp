// Independent reference model of be-tree: configurations, expressions, events,
// their generators, their textual form, and the documented meaning of expressions.
// Nothing here includes a header of the code under test.
#pragma once
#include "engine.hpp"
#include <cfloat>
#include <climits>

namespace mdl {
using eng::Ctx;
using eng::Src;

enum VT { T_BOOL, T_INT, T_FLT, T_STR, T_IL, T_SL, T_SEG, T_CAP, T_IE, T_COUNT };
const char* vt_name(VT t);

struct Num { // decimal literal: text without sign, and its value
    bool neg = false;
    std::string txt = "0.0";
    double val() const { double d = strtod(txt.c_str(), nullptr); return neg ? -d : d; }
    std::string str() const { return (neg ? "-" : "") + txt; }
};

struct Attr {
    std::string name;
    std::string decl; // spelling used when configuring the tree (empty: name)
    VT t = T_BOOL;
    bool opt = false;
    bool bounded = false;
    int64_t imin = INT64_MIN, imax = INT64_MAX;
    double fmin = -DBL_MAX, fmax = DBL_MAX;
    size_t cnt = SIZE_MAX;
    // values used for both constants and events
    std::vector<int64_t> ipool;      // inside the domain
    std::vector<Num> fpool;          // inside the domain
    std::vector<std::string> spool;
    std::vector<int64_t> iout;       // outside the domain (events only, unless the route extends bounds)
    std::vector<Num> fout;
};

struct Config {
    std::vector<Attr> attrs;
    int find(const std::string& n) const { for(size_t i = 0; i < attrs.size(); i++) if(attrs[i].name == n) return (int)i; return -1; }
    std::vector<int> of(VT t) const { std::vector<int> r; for(size_t i = 0; i < attrs.size(); i++) if(attrs[i].t == t) r.push_back((int)i); return r; }
};

struct Seg { int64_t id, ts; };
struct Cap { int type; int64_t id; std::string ns; bool tsdef; int64_t ts; int64_t value; };

struct Val {
    VT t = T_BOOL;
    bool b = false;
    int64_t i = 0;
    Num f;
    std::string s;
    std::vector<int64_t> il;
    std::vector<std::string> sl;
    std::vector<Seg> seg;
    std::vector<Cap> cap;
};

struct Event { std::vector<std::shared_ptr<Val>> v; }; // by attribute, null = undefined

struct Consts { bool has[5] = { false, false, false, false, false }; int64_t v[5] = { 0, 0, 0, 0, 0 }; };
extern const char* const_names[5];
extern const char* cap_types[10]; // advertiser, advertiser:ip, ...

enum K { LIT, BVAR, CMP, EQ, SETV, SETL, LST, NUL, STRP, SEGM, GEO, FREQ, AND, OR, NOT };
enum { LT, LE, GT, GE };
enum { ONE_OF, NONE_OF, ALL_OF };
enum { IS_NULL, IS_NOT_NULL, IS_EMPTY };
enum { CONTAINS, STARTS, ENDS };
enum { SEG_WITHIN, SEG_BEFORE };

struct Expr;
typedef std::shared_ptr<Expr> E;
struct Expr {
    K k = LIT;
    int op = 0;
    int a = -1;          // attribute
    bool isf = false;    // constant is a decimal
    bool iss = false;    // constant is a string / string list
    bool neg = false;    // EQ: <>, SETV/SETL: not in; LIT: value
    int64_t i = 0;
    Num f;
    std::string s;
    std::vector<int64_t> il;
    std::vector<std::string> sl;
    int ftype = 0; std::string ns; int64_t fval = 0, flen = 0; // FREQ
    bool segvar = false; int64_t segid = 0, secs = 0;          // SEGM
    Num lat, lon, rad; bool geoint = false;                    // GEO
    E l, r;
};

E mk(K k);
E clone(const E& e);

// Meaning
bool eval(const Config& c, const Expr& e, const Event& ev, const Consts& k);
double geo_dist(double la1, double lo1, double la2, double lo2);
bool uses_attr(const Config& c, const Expr& e, int a);
void collect_attrs(const Config& c, const Expr& e, std::set<int>& out);
void collect_ftypes(const Expr& e, std::set<int>& out);
size_t expr_size(const Expr& e);
bool contains_kind(const Expr& e, K k);

// Text
struct Style { Src* s = nullptr; bool parens = true; bool casing = false; bool ws = false; bool words = false; bool flip = false; bool quotes = false; };
std::string lit(const std::string& s, Style* st = nullptr); // quoted string
std::string text(const Config& c, const Expr& e, Style* st = nullptr);
std::string ival(int64_t v);
struct EvStyle { Src* s = nullptr; bool shuffle = false, dups = false, ws = false, nulls = false, casing = false, quotes = false, nested = false, whole = false; };
bool whole_number(const Num& n); // can also be written without a fraction
std::string event_text(const Config& c, const Event& ev, EvStyle* st = nullptr);
std::string config_text(const Config& c);
std::string consts_text(const Consts& k);

// Generators
struct GenOpt {
    bool specials = true, literals = true, nulls = true;
    bool in_domain = false;   // constants stay in declared domains
    int depth = 3;
    std::vector<int> only;    // restrict to these attributes (empty: all)
    bool prefer_bool_ops = true;
    std::vector<E>* reuse = nullptr; // earlier leaves to reuse or mutate
    bool list_dups = true;
    bool allow_ienum_in = false;
};
struct CfgOpt {
    int min = 1, max = 5;
    std::vector<VT> types; // empty: all
    bool few_points = false; // latitude and longitude from two values each
    bool specials = true;  // may add now/latitude/longitude/segments_with_timestamp/frequency_caps
    int opt_pct = 50;      // percentage of optional attributes
    bool bounded_strings = true;
    bool tight_vocab = false;
    bool wide = true;      // wide / unbounded / extreme domains allowed
};
Config gen_config(Src& s, const CfgOpt& o);
void fill_pools(Src& s, Attr& a, const CfgOpt& o);
E gen_leaf(Src& s, const Config& c, const GenOpt& o);
E gen_expr(Src& s, const Config& c, const GenOpt& o);
E mutate_leaf(Src& s, const Config& c, const E& e, const GenOpt& o);
std::shared_ptr<Val> gen_val(Src& s, const Config& c, const Attr& a);
Event gen_event(Src& s, const Config& c, int undef_pct = 30);
// gives one attribute of the event a value that its type cannot have; c: copy of the configuration, adapted to print and build it
void mistype(Src& s, Config& c, Event& ev);
Consts gen_consts(Src& s, const Expr& e);
std::string gen_string(Src& s);
Num gen_num(Src& s, int64_t lo, int64_t hi);
} // namespace mdl

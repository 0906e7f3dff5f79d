// C26 copying and comparing, C28 containers, C29 bounds, C30 textual definitions, C31 emptying.
#include "common.hpp"
#include "dump.hpp"
#include <cfloat>
extern "C" {
#include "clone.h"
#include "helper.h"
#include "map.h"
#include "jsw_rbtree.h"
#include "ast_compare.h"
struct betree_sub* find_sub_id(betree_sub_t id, struct cnode* cnode);
}
using namespace api;

// ---- C26 ------------------------------------------------------------------------------------

// every bit of meaning, in the order the nodes have
static std::string exact(const ast_node* n)
{
    if(n->type == AST_TYPE_BOOL_EXPR) {
        auto& e = n->bool_expr;
        if(e.op == AST_BOOL_OR) return "(or " + exact(e.binary.lhs) + " " + exact(e.binary.rhs) + ")";
        if(e.op == AST_BOOL_AND) return "(and " + exact(e.binary.lhs) + " " + exact(e.binary.rhs) + ")";
        if(e.op == AST_BOOL_NOT) return "(not " + exact(e.unary.expr) + ")";
    }
    std::string r = dmp::node(n);
    if(n->type == AST_TYPE_SPECIAL_EXPR) {
        auto& s = n->special_expr;
        if(s.type == AST_SPECIAL_FREQUENCY) r += "#" + str(s.frequency.id) + "@" + dmp::nm(s.frequency.attr_var.attr);
        if(s.type == AST_SPECIAL_GEO) r += str(s.geo.has_radius);
        if(s.type == AST_SPECIAL_SEGMENT) r += "@" + str((int)s.segment.has_variable);
    }
    return r;
}
// with every identifier the library assigned
static std::string full(const ast_node* n)
{
    auto sv = [](const string_value& s) { return "<" + dmp::z(s.string) + " " + str(s.var) + " " + str(s.str) + ">"; };
    auto av = [](const attr_var& a) { return "<" + dmp::z(a.attr) + " " + str(a.var) + ">"; };
    auto il = [](const betree_integer_list* l) { return dmp::ilist(l); };
    auto sl = [&](const betree_string_list* l) { std::string r = "("; for(size_t i = 0; i < l->count; i++) r += sv(l->strings[i]); return r + ")"; };
    std::string r = "{" + str(n->global_id) + "," + str(n->memoize_id) + " " + str((int)n->type) + " ";
    switch(n->type) {
        case AST_TYPE_COMPARE_EXPR: {
            auto& e = n->compare_expr;
            r += str((int)e.op) + av(e.attr_var) + str((int)e.value.value_type) + " " + (e.value.value_type == AST_COMPARE_VALUE_FLOAT ? lang::fnum(e.value.float_value) : str(e.value.integer_value));
            break;
        }
        case AST_TYPE_EQUALITY_EXPR: {
            auto& e = n->equality_expr;
            r += str((int)e.op) + av(e.attr_var) + str((int)e.value.value_type) + " ";
            switch(e.value.value_type) {
                case AST_EQUALITY_VALUE_INTEGER: r += str(e.value.integer_value); break;
                case AST_EQUALITY_VALUE_FLOAT: r += lang::fnum(e.value.float_value); break;
                case AST_EQUALITY_VALUE_STRING: r += sv(e.value.string_value); break;
                default: r += str(e.value.integer_enum_value.integer) + " " + str(e.value.integer_enum_value.var) + " " + str(e.value.integer_enum_value.ienum);
            }
            break;
        }
        case AST_TYPE_BOOL_EXPR: {
            auto& e = n->bool_expr;
            r += str((int)e.op) + " ";
            switch(e.op) {
                case AST_BOOL_OR: case AST_BOOL_AND: r += full(e.binary.lhs) + full(e.binary.rhs); break;
                case AST_BOOL_NOT: r += full(e.unary.expr); break;
                case AST_BOOL_VARIABLE: r += av(e.variable); break;
                default: r += str(e.literal);
            }
            break;
        }
        case AST_TYPE_SET_EXPR: {
            auto& e = n->set_expr;
            r += str((int)e.op) + " " + str((int)e.left_value.value_type) + " " + str((int)e.right_value.value_type) + " ";
            switch(e.left_value.value_type) {
                case AST_SET_LEFT_VALUE_INTEGER: r += str(e.left_value.integer_value); break;
                case AST_SET_LEFT_VALUE_STRING: r += sv(e.left_value.string_value); break;
                default: r += av(e.left_value.variable_value);
            }
            switch(e.right_value.value_type) {
                case AST_SET_RIGHT_VALUE_INTEGER_LIST: r += il(e.right_value.integer_list_value); break;
                case AST_SET_RIGHT_VALUE_STRING_LIST: r += sl(e.right_value.string_list_value); break;
                default: r += av(e.right_value.variable_value);
            }
            break;
        }
        case AST_TYPE_LIST_EXPR: {
            auto& e = n->list_expr;
            r += str((int)e.op) + av(e.attr_var) + (e.value.value_type == AST_LIST_VALUE_INTEGER_LIST ? il(e.value.integer_list_value) : sl(e.value.string_list_value));
            break;
        }
        case AST_TYPE_SPECIAL_EXPR: {
            auto& s = n->special_expr;
            r += str((int)s.type) + " ";
            switch(s.type) {
                case AST_SPECIAL_FREQUENCY: r += str((int)s.frequency.op) + av(s.frequency.attr_var) + str((int)s.frequency.type) + " " + str(s.frequency.id) + sv(s.frequency.ns) + str(s.frequency.value) + " " + str(s.frequency.length) + av(s.frequency.now); break;
                case AST_SPECIAL_SEGMENT: r += str((int)s.segment.op) + str(s.segment.has_variable) + av(s.segment.attr_var) + str(s.segment.segment_id) + " " + str(s.segment.seconds) + av(s.segment.now); break;
                case AST_SPECIAL_GEO: r += str((int)s.geo.op) + str(s.geo.has_radius) + lang::fnum(s.geo.latitude) + " " + lang::fnum(s.geo.longitude) + " " + lang::fnum(s.geo.radius) + av(s.geo.latitude_var) + av(s.geo.longitude_var); break;
                default: r += str((int)s.string.op) + av(s.string.attr_var) + dmp::z(s.string.pattern);
            }
            break;
        }
        default: r += str((int)n->is_null_expr.type) + av(n->is_null_expr.attr_var);
    }
    return r + "}";
}
static void subnodes(const ast_node* n, std::vector<const ast_node*>& out)
{
    out.push_back(n);
    if(n->type != AST_TYPE_BOOL_EXPR) return;
    auto& e = n->bool_expr;
    if(e.op == AST_BOOL_NOT) subnodes(e.unary.expr, out);
    if(e.op == AST_BOOL_OR || e.op == AST_BOOL_AND) { subnodes(e.binary.lhs, out); subnodes(e.binary.rhs, out); }
}
// decimal constants of an expression in order; the rest of the dump with them blanked
static std::string blank(const std::string& s, std::vector<double>& fs)
{
    std::string r;
    for(size_t i = 0; i < s.size(); i++) {
        if(s[i] >= '0' && s[i] <= '9') { // strings are written length:text, copied whole
            size_t j = i;
            while(j < s.size() && s[j] >= '0' && s[j] <= '9') j++;
            if(j < s.size() && s[j] == ':') {
                size_t n = j + 1 + (size_t)atol(s.c_str() + i);
                r += s.substr(i, n - i);
                i = n - 1;
                continue;
            }
        }
        bool starts = i == 0 || s[i - 1] == ' ' || s[i - 1] == 'f';
        if(starts && (s[i] == '-' || (s[i] >= '0' && s[i] <= '9'))) {
            size_t j = i;
            while(j < s.size() && s[j] != ' ' && s[j] != ')') j++;
            std::string w = s.substr(i, j - i);
            if(w.find_first_of(".ep") != std::string::npos || (i && s[i - 1] == 'f')) { fs.push_back(strtod(w.c_str(), nullptr)); r += "F"; i = j - 1; continue; }
            r += w;
            i = j - 1;
            continue;
        }
        r += s[i];
    }
    return r;
}
static bool same_but_floats(const std::string& a, const std::string& b, bool& near)
{
    near = false;
    if(a == b) return true;
    std::vector<double> x, y;
    if(blank(a, x) != blank(b, y) || x.size() != y.size()) return false;
    for(size_t i = 0; i < x.size(); i++) if(x[i] != y[i]) {
        if(std::fabs(x[i] - y[i]) < 1e-6) near = true; // close: the tolerance decides
        else return false;
    }
    return true;
}

// a near copy: one constant, operator or attribute changed somewhere
static E mutate_expr(Src& s, const Config& c, const E& e, const GenOpt& g)
{
    if(e->k == AND || e->k == OR) {
        E n = mk(e->k);
        *n = *e;
        switch(s.draw(5)) {
            case 0: n->k = e->k == AND ? OR : AND; return n;
            case 1: std::swap(n->l, n->r); return n;
            case 2: n->l = mutate_expr(s, c, e->l, g); return n;
            default: n->r = mutate_expr(s, c, e->r, g); return n;
        }
    }
    if(e->k == NOT) {
        if(s.chance(1, 4)) return e->l;
        E n = mk(NOT);
        *n = *e;
        n->l = mutate_expr(s, c, e->l, g);
        return n;
    }
    if(s.chance(1, 8)) { E n = mk(NOT); n->l = e; return n; }
    return mutate_leaf(s, c, e, g);
}

// the same expression with the first list found in it made of hundreds of values
static bool lengthen(Src& s, const Config& c, E& e)
{
    E n = mk(e->k);
    *n = *e;
    if(e->k == AND || e->k == OR || e->k == NOT) {
        if(!lengthen(s, c, n->l) && (!n->r || !lengthen(s, c, n->r))) return false;
    }
    else if(!e->il.empty() || !e->sl.empty()) {
        bool known = c.attrs[(size_t)e->a].bounded;
        size_t count = 250 + s.draw(500);
        for(size_t i = 0; i < count; i++) {
            if(!e->il.empty()) n->il.push_back(known ? e->il[i % e->il.size()] : (int64_t)i * 3 - 500);
            else n->sl.push_back(known ? e->sl[i % e->sl.size()] : "long" + str(i));
        }
    }
    else return false;
    e = n;
    return true;
}
static void p_c26(Ctx& x)
{
    CfgOpt o;
    o.max = 5;
    Config c = gen_config(x.s, o);
    x.note("config " + config_text(c));
    Tree t(c, 200, 0, false);
    GenOpt g;
    g.depth = (int)x.s.weighted({ 3, 3, 2, 1 });
    double mean = gen_mean(x, false);
    std::vector<Sub> subs;
    std::vector<const betree_sub*> bs;
    do {
        E e = !subs.empty() && x.s.chance(1, 2) ? mutate_expr(x.s, c, subs[x.s.draw(subs.size())].e, g) : gen_expr(x.s, c, g);
        if(x.s.chance(1, 60) && lengthen(x.s, c, e)) x.label("a list of hundreds");
        Sub b = make_subm(x.s, c, subs.size() + 1, e);
        note_sub(x, b);
        x.require(t.prepare(b.id, b.text, b.k), "refused: " + b.text);
        subs.push_back(b);
    } while(x.s.more(subs.size(), mean, 40));
    bs = t.pending;
    t.commit(); // few enough to stay where they are; identities are given by the insertion
    std::vector<const ast_node*> ns;
    std::vector<std::string> ex;
    for(auto b : bs) subnodes(b->expr, ns);
    if(ns.size() > 60) ns.resize(60);
    for(auto n : ns) ex.push_back(exact(n));
    // copies
    for(auto b : bs) {
        std::string before = full(b->expr);
        ast_node* k = clone_node(b->expr);
        x.require(full(k) == before, "the copy differs:\n  " + before + "\n  " + full(k));
        x.require(full(b->expr) == before, "copying changed the original: " + before);
        x.require(eq_expr(k, b->expr) && eq_expr(b->expr, k), "a copy is not equal to its original: " + before);
        x.require(expr_cmp(k, b->expr) == 0 && expr_cmp(b->expr, k) == 0, "a copy is not ordered like its original: " + before);
        ast_node* k2 = clone_node(k);
        free_ast_node(k);
        x.require(full(b->expr) == before, "freeing the copy changed the original: " + before);
        x.require(full(k2) == before, "freeing a copy changed the copy of it: " + before);
        free_ast_node(k2);
    }
    // order and equality
    size_t n = ns.size();
    std::vector<std::vector<signed char>> cmp(n, std::vector<signed char>(n));
    bool differ = false;
    for(size_t i = 0; i < n; i++)
        for(size_t j = 0; j < n; j++) {
            int v = expr_cmp(ns[i], ns[j]);
            cmp[i][j] = (signed char)(v < 0 ? -1 : v > 0);
            bool same = ex[i] == ex[j];
            x.require((v == 0) == same, std::string(v == 0 ? "ordered as equal but different:" : "ordered as different but the same:") + "\n  " + ex[i] + "\n  " + ex[j]);
            if(i > j) x.require(cmp[j][i] == -cmp[i][j], "the order is not symmetric:\n  " + ex[i] + "\n  " + ex[j]);
            bool near;
            bool eqf = same_but_floats(ex[i], ex[j], near);
            if(!near) x.require(eq_expr(ns[i], ns[j]) == eqf, std::string(eqf ? "not equal but the same:" : "equal but different:") + "\n  " + ex[i] + "\n  " + ex[j]);
            if(!near) x.require((ns[i]->global_id == ns[j]->global_id) == same, std::string(same ? "same expression, two identities:" : "one identity for different expressions:") + "\n  " + ex[i] + "\n  " + ex[j]);
            if(ns[i]->memoize_id != INVALID_PRED && ns[i]->memoize_id == ns[j]->memoize_id) x.require(same, "different expressions remember the same result:\n  " + ex[i] + "\n  " + ex[j]);
            if(!same && ns[i]->type == ns[j]->type) differ = true;
        }
    // transitivity: a sorted list is ordered throughout
    std::vector<size_t> o2(n);
    for(size_t i = 0; i < n; i++) o2[i] = i;
    std::stable_sort(o2.begin(), o2.end(), [&](size_t a, size_t b) { // insertion by counting smaller ones is robust to a broken order
        size_t ca = 0, cb = 0;
        for(size_t k = 0; k < n; k++) { ca += cmp[a][k] > 0; cb += cmp[b][k] > 0; }
        return ca < cb;
    });
    for(size_t i = 0; i < n; i++)
        for(size_t j = i + 1; j < n; j++) x.require(cmp[o2[i]][o2[j]] <= 0, "the order is not transitive around:\n  " + ex[o2[i]] + "\n  " + ex[o2[j]]);
    x.nontrivial = differ && n >= 3;
    x.label(n < 5 ? "fewer than 5 nodes" : n < 20 ? "5..19 nodes" : "20 or more nodes");
}

// ---- C28 ------------------------------------------------------------------------------------

static unsigned djb(const std::string& s)
{
    unsigned h = 5381;
    for(char c : s) h = ((h << 5u) + h) ^ (unsigned)c;
    return h;
}
static const std::vector<std::string>& colliding(size_t n) // with n letters in common at the start
{
    static std::map<size_t, std::vector<std::string>> all;
    std::vector<std::string>& v = all[n];
    if(v.empty()) {
        std::map<unsigned, std::string> seen;
        for(int a = 'A'; a <= 'z' && v.size() < 40; a++)
            for(int b = ' '; b < 127; b++) {
                std::string k = std::string(n, 'p') + (char)a + (char)b;
                auto r = seen.emplace(djb(k), k);
                if(!r.second) { v.push_back(r.first->second); v.push_back(k); }
            }
    }
    return v;
}
static std::string gen_key(Src& s)
{
    switch(s.weighted({ 5, 2, 3, 1, 1 })) {
        case 0: { std::string k; size_t n = s.draw(4); for(size_t i = 0; i < n; i++) k += (char)('a' + s.draw(3)); return k; }
        case 1: return "key" + str(s.draw(40));
        case 2: { static const size_t common[] = { 0, 0, 0, 6, 7, 14, 30, 31, 62, 63, 64, 100, 128, 254, 300 }; auto& v = colliding(common[s.draw(15)]); return v[s.draw(v.size())]; }
        case 3: { std::string k; size_t n = s.draw(60); for(size_t i = 0; i < n; i++) k += (char)(1 + s.draw(255)); return k; }
        default: return std::string(s.draw(300), 'x');
    }
}
template <class M, class V> static void map_history(Ctx& x, V (*val)(Src&))
{
    M m;
    map_init(&m);
    std::map<std::string, V> ref;
    double mean = x.s.chance(1, 3) ? 200 : x.s.chance(1, 2) ? 30 : 6;
    size_t n = 0, grown = 0;
    int bias = (int)x.s.draw(3);
    std::string bad;
    do {
        std::string k = !ref.empty() && x.s.chance(1, 3) ? std::next(ref.begin(), (long)x.s.draw(std::min<size_t>(ref.size(), 20)))->first : gen_key(x.s);
        switch(x.s.weighted({ 6u + 4u * (unsigned)bias, 3, 3, 1 })) {
            case 0: {
                V v = val(x.s);
                x.note("set " + lang::q(k) + " " + str(v));
                if(map_set(&m, k.c_str(), v) != 0) bad = "set failed";
                ref[k] = v;
                break;
            }
            case 1: {
                x.note("remove " + lang::q(k));
                map_remove(&m, k.c_str());
                ref.erase(k);
                break;
            }
            case 2: {
                V* p = (V*)map_get_(&m.base, k.c_str());
                auto f = ref.find(k);
                x.checks++;
                if((p != nullptr) != (f != ref.end())) bad = std::string(p ? "a value for a missing key " : "no value for ") + lang::q(k);
                else if(p && *p != f->second) bad = "the value of " + lang::q(k) + " is " + str(*p) + ", stored " + str(f->second);
                break;
            }
            default: {
                std::map<std::string, int> seen;
                map_iter_t it = map_iter(&m);
                const char* key;
                while((key = map_next(&m, &it))) seen[key]++;
                x.checks++;
                for(auto& p : ref) if(seen[p.first] != 1) bad = "iteration yields " + lang::q(p.first) + " " + str(seen[p.first]) + " times";
                if(bad.empty() && seen.size() != ref.size()) bad = "iteration yields a key that is not there";
            }
        }
        grown = std::max(grown, ref.size());
        n++;
        if(bad.empty() && (n < 20 || n % 16 == 0))
            for(auto& p : ref) {
                V* v = (V*)map_get_(&m.base, p.first.c_str());
                x.checks++;
                if(!v || *v != p.second) { bad = "after " + str(n) + " operations, " + lang::q(p.first) + (v ? " has the wrong value" : " is lost"); break; }
            }
    } while(bad.empty() && x.s.more(n, mean, 2000));
    if(bad.empty() && m.base.nnodes != ref.size()) bad = "the table counts " + str(m.base.nnodes) + " keys, it has " + str(ref.size());
    map_deinit(&m);
    if(!bad.empty()) x.fail(bad);
    if(grown >= 4) x.nontrivial = true;
    x.label(grown < 4 ? "table, fewer than 4 keys" : grown < 32 ? "table, 4..31 keys" : "table, 32 or more keys");
}

struct Item { int key; int tag; };
static size_t g_cmp;
static int item_cmp(const void* a, const void* b)
{
    g_cmp++;
    int p = ((const Item*)a)->key, q = ((const Item*)b)->key;
    return p < q ? -1 : p > q;
}
static void rb_history(Ctx& x)
{
    static const int spans[] = { 4, 16, 64, 1000 };
    int span = spans[x.s.draw(4)];
    double mean = x.s.chance(1, 2) ? 300 : x.s.chance(1, 2) ? 40 : 8;
    int order = (int)x.s.draw(3); // random, ascending, descending
    jsw_rbtree* t = jsw_rbnew(item_cmp);
    std::vector<std::unique_ptr<Item>> items;
    std::map<int, Item*> ref;
    std::string bad;
    size_t n = 0, top = 0;
    int next = 0;
    unsigned ins = 3 + (unsigned)x.s.draw(5);
    do {
        int k = (int)x.s.draw((uint64_t)span);
        switch(x.s.weighted({ ins, 3, 2 })) {
            case 0: {
                if(order) k = order == 1 ? next++ : -next++;
                items.emplace_back(new Item { k, (int)n });
                x.note("insert " + str(k));
                x.checks++;
                if(!jsw_rbinsert(t, items.back().get())) bad = "insertion failed";
                ref.emplace(k, items.back().get());
                break;
            }
            case 1: {
                if(order && next) k = order == 1 ? (int)x.s.draw((uint64_t)next) : -(int)x.s.draw((uint64_t)next);
                Item q { k, -1 };
                x.note("erase " + str(k));
                jsw_rberase(t, &q);
                ref.erase(k);
                break;
            }
            default: {
                if(order && next) k = order == 1 ? (int)x.s.draw((uint64_t)next + 1) : -(int)x.s.draw((uint64_t)next + 1);
                Item q { k, -1 };
                Item* r = (Item*)jsw_rbfind(t, &q);
                auto f = ref.find(k);
                x.checks++;
                if(r != (f == ref.end() ? nullptr : f->second)) bad = "looking for " + str(k) + " gives " + (r ? "an element it does not have" : "nothing");
            }
        }
        n++;
        top = std::max(top, ref.size());
        if(bad.empty() && jsw_rbsize(t) != ref.size()) bad = "the container counts " + str(jsw_rbsize(t)) + " elements, it has " + str(ref.size());
        if(bad.empty() && (n < 30 || n % 16 == 0)) {
            size_t lim = 1;
            while((1ull << lim) <= ref.size() + 1) lim++;
            for(auto& p : ref) {
                Item q { p.first, -1 };
                g_cmp = 0;
                Item* r = (Item*)jsw_rbfind(t, &q);
                x.checks++;
                if(r != p.second) { bad = "after " + str(n) + " operations, " + str(p.first) + (r ? " is another element" : " is lost"); break; }
                if(g_cmp > 2 * lim) { bad = "looking for one of " + str(ref.size()) + " elements takes " + str(g_cmp) + " comparisons"; break; }
            }
        }
    } while(bad.empty() && x.s.more(n, mean, 3000));
    jsw_rbdelete(t);
    if(!bad.empty()) x.fail(bad);
    if(top >= 4) x.nontrivial = true;
    x.label(top < 4 ? "container, fewer than 4 elements" : top < 32 ? "container, 4..31 elements" : "container, 32 or more elements");
}
static uint64_t val64(Src& s) { return s.draw(1000) * 0x100000001ull; }
static char val8(Src& s) { return (char)s.draw(256); }
static double valf(Src& s) { return (double)s.draw(1000) / 8; }
static void p_c28(Ctx& x)
{
    typedef map_t(uint64_t) map_u64_t;
    switch(x.s.weighted({ 4, 1, 1, 5 })) {
        case 0: map_history<map_u64_t, uint64_t>(x, val64); break;
        case 1: map_history<map_char_t, char>(x, val8); break;
        case 2: map_history<map_double_t, double>(x, valf); break;
        default: rb_history(x);
    }
}

// ---- C29 ------------------------------------------------------------------------------------

static std::string bound_text(const value_bound& b)
{
    switch(b.value_type) {
        case BETREE_INTEGER: case BETREE_INTEGER_LIST: return "[" + str(b.imin) + "," + str(b.imax) + "]";
        case BETREE_FLOAT: return "[" + lang::fnum(b.fmin) + "," + lang::fnum(b.fmax) + "]";
        case BETREE_BOOLEAN: return "[" + str((int)b.bmin) + "," + str((int)b.bmax) + "]";
        default: return "[" + str(b.smin) + "," + str(b.smax) + "]";
    }
}
// covered by b; for a value beyond an edge of the domain d, b must reach that edge
static bool covered(Tree& t, const Attr& a, const Val& v, const value_bound& d, const value_bound& b)
{
    auto ci = [&](int64_t k) { return std::min(std::max(k, d.imin), d.imax); };
    switch(a.t) {
        case T_BOOL: return b.bmin <= v.b && v.b <= b.bmax;
        case T_INT:
            if(v.i < d.imin) return b.imin <= d.imin;
            if(v.i > d.imax) return b.imax >= d.imax;
            return b.imin <= v.i && v.i <= b.imax;
        case T_FLT: {
            double f = v.f.val();
            if(f < d.fmin) return b.fmin <= d.fmin;
            if(f > d.fmax) return b.fmax >= d.fmax;
            return b.fmin - 1e-9 <= f && f <= b.fmax + 1e-9;
        }
        case T_IL: {
            if(v.il.empty()) return true;
            auto m = std::minmax_element(v.il.begin(), v.il.end());
            if(b.imin <= d.imin && *m.first <= d.imin) return true;
            if(b.imax >= d.imax && *m.second >= d.imax) return true;
            return ci(*m.first) <= b.imax && b.imin <= ci(*m.second);
        }
        default: {
            struct attr_var av = { a.name.c_str(), try_get_id_for_attr(t.t->config, a.name.c_str()) };
            std::vector<uint64_t> ids;
            if(a.t == T_STR) ids.push_back(try_get_id_for_string(t.t->config, av, v.s.c_str()));
            else if(a.t == T_IE) ids.push_back(try_get_id_for_ienum(t.t->config, av, v.i));
            else for(auto& s : v.sl) ids.push_back(try_get_id_for_string(t.t->config, av, s.c_str()));
            if(ids.empty()) return true;
            for(auto& i : ids) { if(i == UINT64_MAX) return true; i = std::min<uint64_t>(i, d.smax); }
            auto m = std::minmax_element(ids.begin(), ids.end());
            return *m.first <= b.smax && b.smin <= *m.second;
        }
    }
}
static void p_c29(Ctx& x)
{
    CfgOpt o;
    o.max = 4;
    Config c = gen_config(x.s, o);
    bool direct = x.s.chance(1, 2);
    x.note("config " + config_text(c) + (direct ? "; direct" : "; prepared"));
    Tree t(c, 200, 0, false);
    GenOpt g;
    g.in_domain = direct;
    g.depth = (int)x.s.weighted({ 2, 4, 3, 2, 1 });
    E e = gen_expr(x.s, c, g);
    Sub b = make_subm(x.s, c, 1, e);
    note_sub(x, b);
    const ast_node* n = nullptr;
    if(direct) {
        if(!t.insert(1, b.text, b.k)) x.discard(); // more strings than the vocabulary takes
        betree_sub* f = find_sub_id(1, t.t->cnode);
        x.require(f != nullptr, "an inserted expression can not be found");
        n = f->expr;
    }
    else {
        x.require(t.prepare(1, b.text, b.k), "refused: " + b.text);
        n = t.pending[0]->expr;
        t.commit();
    }
    for(size_t i = 0; i < c.attrs.size(); i++) {
        const Attr& a = c.attrs[i];
        if(a.t == T_SEG || a.t == T_CAP || !uses_attr(c, *e, (int)i)) continue;
        const attr_domain* d = t.t->config->attr_domains[i];
        value_bound r = get_variable_bound(d, n);
        x.checks++;
        if(r.value_type != d->bound.value_type) x.fail("the bound of " + a.name + " has another type");
        x.note("bound of " + a.name + " in " + bound_text(d->bound) + ": " + bound_text(r));
        bool narrow = bound_text(r) != bound_text(d->bound), hit = false;
        for(int ev = 0; ev < 3; ev++) {
            Event base = gen_event(x.s, c, 20);
            std::vector<std::shared_ptr<Val>> vs;
            auto addi = [&](int64_t k) { auto v = std::make_shared<Val>(); v->t = a.t; v->i = k; vs.push_back(v); };
            if(a.t == T_INT) {
                int64_t lo = d->bound.imin, hi = d->bound.imax;
                if((uint64_t)hi - (uint64_t)lo <= 80) for(int64_t k = lo;; k++) { addi(k); if(k == hi) break; }
                for(int64_t p : a.ipool) for(int64_t q = -2; q <= 2; q++) addi((int64_t)((uint64_t)p + (uint64_t)q));
                for(int64_t p : a.iout) addi(p);
                for(int64_t p : { lo, hi, (int64_t)0 }) addi(p);
            }
            else if(a.t == T_BOOL) for(bool q : { false, true }) { auto v = std::make_shared<Val>(); v->t = a.t; v->b = q; vs.push_back(v); }
            else if(a.t == T_STR) for(auto& q : a.spool) { auto v = std::make_shared<Val>(); v->t = a.t; v->s = q; vs.push_back(v); }
            else if(a.t == T_IE) for(auto q : a.ipool) addi(q);
            else if(a.t == T_FLT) {
                for(auto& q : a.fpool) { auto v = std::make_shared<Val>(); v->t = a.t; v->f = q; vs.push_back(v); }
                for(auto& q : a.fout) { auto v = std::make_shared<Val>(); v->t = a.t; v->f = q; vs.push_back(v); }
            }
            for(int q = 0; q < 12; q++) vs.push_back(gen_val(x.s, c, a));
            for(auto& v : vs) {
                base.v[i] = v;
                if(!eval(c, *e, base, b.k)) continue;
                hit = true;
                x.require(covered(t, a, *v, d->bound, r), "bound " + bound_text(r) + " of " + a.name + " in domain " + bound_text(d->bound) + " for " + b.text + " leaves out a value for which it is true: " + event_text(c, base));
            }
        }
        if(narrow && hit) { x.nontrivial = true; x.label(std::string("narrowed ") + vt_name(a.t)); }
    }
}

// ---- C30 ------------------------------------------------------------------------------------

// a decimal number as definition lines have it, sometimes with leading zeros or a sign
static std::string dnum(Ctx& x, int64_t v)
{
    if(!x.s.chance(1, 5)) return str(v);
    std::string d = str(v);
    bool neg = d[0] == '-';
    if(neg) d.erase(0, 1);
    if(x.s.chance(2, 3)) d = std::string(1 + x.s.draw(3), '0') + d;
    return (neg ? "-" : x.s.chance(1, 3) ? "+" : "") + d;
}
static std::string dline(const Attr& a, Ctx& x)
{
    static const std::map<int, const char*> names = { { T_BOOL, "boolean" }, { T_INT, "integer" }, { T_FLT, "float" }, { T_STR, "string" }, { T_IL, "integer list" }, { T_SL, "string list" }, { T_SEG, "segments" }, { T_CAP, "frequency" }, { T_IE, "integer enum" } };
    std::string r = a.name + "|" + names.at(a.t) + "|" + (a.opt ? "true" : "false");
    char buf[400];
    switch(a.t) {
        case T_INT: if(!(a.imin == INT64_MIN && a.imax == INT64_MAX) || x.s.chance(1, 2)) { r += "|" + dnum(x, a.imin); if(a.imax != INT64_MAX || x.s.chance(1, 2)) r += "|" + dnum(x, a.imax); } break;
        case T_IL: if(!(a.imin == INT64_MIN && a.imax == INT64_MAX) || x.s.chance(1, 2)) r += "|" + dnum(x, a.imin) + "|" + dnum(x, a.imax); break;
        case T_FLT:
            if(!(a.fmin == -DBL_MAX && a.fmax == DBL_MAX) || x.s.chance(1, 2)) {
                snprintf(buf, sizeof buf, "|%.17g", a.fmin);
                r += buf;
                snprintf(buf, sizeof buf, "|%.17g", a.fmax);
                if(a.fmax != DBL_MAX || x.s.chance(1, 2)) r += buf;
            }
            break;
        case T_STR: case T_SL: case T_IE: if(a.cnt != SIZE_MAX) r += "|" + dnum(x, (int64_t)a.cnt); break;
        default: break;
    }
    if(x.s.chance(1, 2)) r += "\n";
    return r;
}
static const std::map<int, int> btypes = { { T_BOOL, BETREE_BOOLEAN }, { T_INT, BETREE_INTEGER }, { T_FLT, BETREE_FLOAT }, { T_STR, BETREE_STRING }, { T_IL, BETREE_INTEGER_LIST }, { T_SL, BETREE_STRING_LIST }, { T_SEG, BETREE_SEGMENTS }, { T_CAP, BETREE_FREQUENCY_CAPS }, { T_IE, BETREE_INTEGER_ENUM } };
static void p_c30(Ctx& x)
{
    CfgOpt o;
    o.max = 8;
    o.tight_vocab = x.s.chance(1, 2);
    Config c = gen_config(x.s, o), none;
    // vocabularies larger than any tree fills
    if(x.s.chance(1, 6)) for(auto& at : c.attrs) if((at.t == T_STR || at.t == T_SL || at.t == T_IE) && x.s.chance(1, 2)) {
        static const int64_t wide[] = { 1000, 65536, INT32_MAX, (int64_t)INT32_MAX + 1, UINT32_MAX, (int64_t)1 << 32, (int64_t)1 << 40, INT64_MAX };
        int64_t w = wide[x.s.draw(8)], d = (int64_t)x.s.draw(4);
        at.cnt = (size_t)(w == INT64_MAX ? w - d : w + d);
    }
    Params p = gen_params(x);
    x.note("config " + config_text(c));
    Tree a(c, p.cap, p.part, p.dflt), b(none, p.cap, p.part, p.dflt);
    for(auto& at : c.attrs) {
        std::string l = dline(at, x), keep = l;
        x.note("line " + lang::q(l));
        add_variable_from_string(b.t, l.c_str());
        x.require(l == keep, "the line was changed");
    }
    for(size_t i = 0; i < c.attrs.size(); i++) {
        for(Tree* t : { &a, &b }) {
            betree_variable_definition d = betree_get_variable_definition(t->t, i);
            x.require(d.name && c.attrs[i].name == d.name, "definition " + str(i) + " is called " + dmp::z(d.name) + ", declared " + c.attrs[i].name);
            x.require((int)d.type == btypes.at(c.attrs[i].t), "definition " + str(i) + " (" + c.attrs[i].name + ") has type " + str((int)d.type));
        }
        const attr_domain *p1 = a.t->config->attr_domains[i], *p2 = b.t->config->attr_domains[i];
        x.require(p1->allow_undefined == c.attrs[i].opt && p2->allow_undefined == c.attrs[i].opt, c.attrs[i].name + " is optional in one and not in the other");
        VT ty = c.attrs[i].t;
        if(ty != T_SEG && ty != T_CAP) x.require(bound_text(p1->bound) == bound_text(p2->bound), c.attrs[i].name + " is bounded by " + bound_text(p1->bound) + " through the calls, " + bound_text(p2->bound) + " through the line");
    }
    x.require(a.t->config->attr_domain_count == c.attrs.size() && b.t->config->attr_domain_count == c.attrs.size(), "the number of attributes differs");
    // and they behave the same
    GenOpt g;
    g.depth = 2;
    g.in_domain = true;
    size_t n = 0;
    bool direct = x.s.chance(1, 2);
    std::vector<Sub> subs;
    do {
        n++;
        Sub s = make_subm(x.s, c, n, gen_expr(x.s, c, g));
        if(x.s.chance(1, 6)) s.text = bad_leaf(x.s, c, true);
        note_sub(x, s);
        bool r1 = direct ? a.insert(n, s.text, s.k) : a.prepare(n, s.text, s.k);
        bool r2 = direct ? b.insert(n, s.text, s.k) : b.prepare(n, s.text, s.k);
        x.require(r1 == r2, std::string(r1 ? "accepted" : "refused") + " with calls, not with lines: " + s.text);
    } while(x.s.more(n, 6, 40));
    a.commit();
    b.commit();
    for(int i = 0; i < 4; i++) {
        Event ev = gen_event(x.s, c, 30);
        if(x.s.chance(1, 4)) ev.v[x.s.draw(ev.v.size())] = nullptr;
        std::string et = event_text(c, ev);
        x.note("event " + et);
        Result r1 = search(a, et), r2 = search(b, et);
        x.require(r1 == r2, "with calls: " + rtext(r1) + "; with lines: " + rtext(r2));
        if(!r1.ids.empty()) x.nontrivial = true;
        x.label(!r1.ok ? "event refused" : r1.ids.empty() ? "no match" : "match");
    }
}

// ---- C31 ------------------------------------------------------------------------------------

static void p_c31(Ctx& x)
{
    CfgOpt o;
    o.max = 5;
    o.bounded_strings = false;
    Config c = gen_config(x.s, o);
    Params p = gen_params(x);
    x.note("config " + config_text(c) + "; " + ptext(p));
    Tree t(c, p.cap, p.part, p.dflt);
    GenOpt g;
    g.depth = (int)x.s.weighted({ 3, 3, 2 });
    std::vector<E> pool;
    g.reuse = &pool;
    size_t rounds = 0;
    bool some = false;
    uint64_t id = 0;
    bool direct = x.s.chance(1, 2);
    std::vector<Sub> kept; // prepared before the tree was emptied, inserted after
    bool carried = false;
    do {
        double mean = gen_mean(x);
        std::vector<Sub> subs;
        subs.swap(kept);
        if(!subs.empty()) carried = true;
        g.in_domain = direct;
        do {
            Sub b = make_subm(x.s, c, x.s.chance(1, 3) ? subs.size() + 1 : ++id, gen_expr(x.s, c, g));
            note_sub(x, b);
            bool ok = direct ? t.insert(b.id, b.text, b.k) : t.prepare(b.id, b.text, b.k);
            x.require(ok, "refused: " + b.text);
            subs.push_back(b);
        } while(x.s.more(subs.size(), mean, 120));
        if(x.s.chance(1, 2)) std::reverse(t.pending.begin(), t.pending.end());
        t.commit();
        for(int i = 0; i < 3; i++) {
            Event ev = gen_event(x.s, c, 30);
            std::string et = event_text(c, ev);
            x.note("event " + et);
            Result r = search(t, et);
            auto want = expected(c, subs, ev);
            x.require(r.ok, "event refused");
            x.require(r.ids == want, diff_text(c, subs, want, r.ids));
            if(rounds && !want.empty()) some = true;
            x.checks++;
        }
        Event ev = gen_event(x.s, c, 30);
        std::string et = event_text(c, ev);
        if(!direct && x.s.chance(1, 3)) {
            size_t n = 1 + x.s.draw(6);
            while(n--) {
                Sub b = make_subm(x.s, c, ++id, gen_expr(x.s, c, g));
                x.note("prepared only: " + b.text + " " + consts_text(b.k) + ", id " + str(b.id));
                x.require(t.prepare(b.id, b.text, b.k), "refused: " + b.text);
                kept.push_back(b);
            }
        }
        x.note("empty");
        empty_tree(t.t);
        Result r = search(t, et);
        x.require(r.ok && r.ids.empty() && r.evaluated == 0 && r.memoized == 0, "an emptied tree reports " + rtext(r));
        x.require(!betree_exists(t.t, et.c_str()), "an emptied tree has a match");
        x.require(!find_sub_id(1, t.t->cnode), "an emptied tree still finds an expression");
        rounds++;
    } while(x.s.more(rounds, 2.5, 6));
    x.nontrivial = some;
    x.label(str(std::min<size_t>(rounds, 4)) + (rounds >= 4 ? " or more" : "") + " rounds");
    if(carried) x.label("prepared before an emptying");
    t.commit();
}

int main(int argc, char** argv)
{
    std::vector<eng::Property> v;
    v.push_back({ "C26", "1..40 accepted expressions (all constructs, half of them near copies of earlier ones: one operator, constant, attribute or operand order changed; some with a list of hundreds of values), all their sub-expressions; each is copied, the copy compared field by field, identifiers included, then freed in either order (under AddressSanitizer); all pairs of nodes are compared with the order, the equality and the identity used for sharing, against equality of a structural dump; the order is checked to be symmetric and transitive. Non-trivial: at least 3 nodes with two different ones of the same kind.", 20000, 600000, p_c26, {}, 0.3, 40, {} });
    v.push_back({ "C28", "histories of 1..2000 insertions, overwrites, removals, lookups and iterations of the string table (keys: short, colliding hashes, long, any bytes; values of 1 or 8 bytes) against an ordered map, and of insertions, erasures and lookups of the ordered container (random, ascending, descending keys) against a set, with element identity, count and number of comparisons. Non-trivial: 4 or more elements present at once.", 250000, 5000000, p_c28, {}, 0.3, 40, {} });
    v.push_back({ "C29", "one expression (all constructs, nested up to 4 deep) with direct insertion or prepared; for each attribute it uses, every value of a small integer domain, neighbours of every constant, edges and generated values, in 3 generated events; any value for which the reference evaluator says true must lie in the computed bound (for a value beyond the domain, the bound must reach that edge). Non-trivial: a bound narrower than the domain, with a matching value.", 60000, 3000000, p_c29, {}, 0.1, 40, {} });
    v.push_back({ "C30", "1..8+ attributes of every type, declared through the calls in one tree and through definition lines (with and without final newline, omitted defaults) in another; definitions, optionality and bounds compared, then both trees get the same expressions (some ill-typed) and events, incomplete ones included. Non-trivial: a search with a match.", 110000, 2200000, p_c30, {}, 0.1, 40, {} });
    v.push_back({ "C31", "1..6 rounds of filling one tree (direct or prepared), searching and emptying it, ids and sub-expressions reused between rounds, some expressions prepared before an emptying and inserted after it, against the reference evaluator on the expressions of the round only. Non-trivial: a match after the tree was emptied and refilled.", 40000, 300000, p_c31, {}, 0.1, 40, {} });
    return eng::engine_main(argc, argv, v);
}

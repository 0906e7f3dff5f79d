// C23: the structure of the tree is well formed after every insertion.
#include "common.hpp"
#include "dump.hpp"
extern "C" struct betree_sub* find_sub_id(betree_sub_t id, struct cnode* cnode);
using namespace api;

struct Walk {
    Ctx& x;
    Tree& t;
    const Config& c;
    const std::vector<Sub>& subs;
    std::map<uint64_t, const Sub*> by;
    std::set<const void*> seen;   // expressions, by identity
    std::map<uint64_t, int> count;
    std::set<const void*> nodes;
    size_t parts = 0, splits = 0, deep = 0;
    struct Range { int a; const value_bound* b; bool child; const value_bound* top; };
    std::vector<Range> path;
    std::vector<Event>* evs;
    Params prm;
    Walk(Ctx& x_, Tree& t_, const Config& c_, const std::vector<Sub>& s_) : x(x_), t(t_), c(c_), subs(s_) { for(auto& s : s_) by[s.id] = &s; }
    [[noreturn]] void bad(const std::string& m) { x.fail("structure: " + m); }
    std::string rng(const value_bound& b)
    {
        switch(b.value_type) {
            case BETREE_INTEGER: case BETREE_INTEGER_LIST: return "[" + str(b.imin) + "," + str(b.imax) + "]";
            case BETREE_FLOAT: return "[" + lang::fnum(b.fmin) + "," + lang::fnum(b.fmax) + "]";
            case BETREE_BOOLEAN: return "[" + str((int)b.bmin) + "," + str((int)b.bmax) + "]";
            default: return "[" + str(b.smin) + "," + str(b.smax) + "]";
        }
    }
    // does the value lie in the range; a range at an edge of the whole domain also stands for
    // everything beyond that edge
    bool inside(const Attr& a, const Val& v, const value_bound& b, const value_bound& top, bool& known)
    {
        known = true;
        switch(a.t) {
            case T_BOOL: return b.bmin <= v.b && v.b <= b.bmax;
            case T_INT: return (b.imin <= v.i || b.imin == top.imin) && (v.i <= b.imax || b.imax == top.imax);
            case T_FLT: return (b.fmin - 1e-9 <= v.f.val() || b.fmin == top.fmin) && (v.f.val() <= b.fmax + 1e-9 || b.fmax == top.fmax);
            case T_IL: {
                if(v.il.empty()) { known = false; return true; }
                auto m = std::minmax_element(v.il.begin(), v.il.end());
                return (*m.first <= b.imax || b.imax == top.imax) && (b.imin <= *m.second || b.imin == top.imin);
            }
            case T_STR: case T_SL: case T_IE: {
                // ids are internal: ask for them
                struct attr_var av = { a.name.c_str(), try_get_id_for_attr(t.t->config, a.name.c_str()) };
                std::vector<uint64_t> ids;
                if(a.t == T_STR) ids.push_back(try_get_id_for_string(t.t->config, av, v.s.c_str()));
                else if(a.t == T_IE) ids.push_back(try_get_id_for_ienum(t.t->config, av, v.i));
                else for(auto& s : v.sl) ids.push_back(try_get_id_for_string(t.t->config, av, s.c_str()));
                for(auto i : ids) if(i == UINT64_MAX) { known = false; return true; }
                if(ids.empty()) { known = false; return true; }
                auto m = std::minmax_element(ids.begin(), ids.end());
                return *m.first <= b.smax && b.smin <= *m.second;
            }
            default: known = false; return true;
        }
    }
    void cnode_(const cnode* n, const cdir* parent, const cnode* root)
    {
        if(!n) bad("a missing node");
        if(!nodes.insert(n).second) bad("a node is reached twice");
        if(n->parent != parent) bad("a node does not know its parent");
        if(!n->lnode) bad("a node without a leaf");
        if(n->lnode->parent != n) bad("a leaf does not know its node");
        deep = std::max(deep, path.size());
        for(size_t i = 0; i < n->lnode->sub_count; i++) {
            const betree_sub* s = n->lnode->subs[i];
            if(!s) bad("a missing expression");
            if(!seen.insert(s).second) bad("expression " + str(s->id) + " is in two places");
            count[s->id]++;
            auto f = by.find(s->id);
            if(f == by.end()) bad("expression " + str(s->id) + " was never inserted");
            const Sub& m = *f->second;
            for(auto& r : path) {
                const Attr& a = c.attrs[(size_t)r.a];
                if(!uses_attr(c, *m.e, r.a)) bad("expression " + str(s->id) + " (" + m.text + ") is under a partition on " + a.name + ", which it does not use");
                if(!r.child) continue;
                for(auto& ev : *evs) {
                    if(!ev.v[(size_t)r.a]) continue;
                    bool known;
                    if(inside(a, *ev.v[(size_t)r.a], *r.b, *r.top, known) || !known) continue;
                    x.checks++;
                    if(eval(c, *m.e, ev, m.k)) bad("expression " + str(s->id) + " (" + m.text + ") is in the range " + rng(*r.b) + " of " + a.name + " but is true of " + event_text(c, ev));
                }
            }
        }
        if(n->pdir) {
            if(n->pdir->parent != n) bad("a partition list does not know its node");
            std::set<uint64_t> vars;
            for(size_t i = 0; i < n->pdir->pnode_count; i++) {
                const pnode* p = n->pdir->pnodes[i];
                parts++;
                if(p->parent != n->pdir) bad("a partition does not know its list");
                if(!vars.insert(p->attr_var.var).second) bad(std::string("two partitions of one node on ") + p->attr_var.attr);
                int a = c.find(p->attr_var.attr);
                if(a < 0) bad("a partition on an unknown attribute");
                if(try_get_id_for_attr(t.t->config, p->attr_var.attr) != p->attr_var.var) bad("a partition with the wrong attribute id");
                for(auto& r : path) if(r.a == a) bad(std::string("partitioned twice on ") + p->attr_var.attr);
                if(!p->cdir) bad("a partition without a range");
                if(p->cdir->parent_type != CNODE_PARENT_PNODE || p->cdir->pnode_parent != p) bad("a range does not know its partition");
                size_t before = seen.size();
                cdir_(p->cdir, a, false, root);
                if(!prm.dflt && seen.size() - before < prm.part) bad(std::string("a partition on ") + p->attr_var.attr + " was made for " + str(seen.size() - before) + " expressions, fewer than the minimum of " + str(prm.part));
            }
        }
    }
    void cdir_(const cdir* d, int a, bool child, const cnode* root)
    {
        if(!nodes.insert(d).second) bad("a range is reached twice");
        if(d->attr_var.var != try_get_id_for_attr(t.t->config, c.attrs[(size_t)a].name.c_str())) bad("a range with the wrong attribute");
        const value_bound* top = &d->bound;
        for(auto& r : path) if(r.a == a && !r.child) top = r.b;
        path.push_back({ a, &d->bound, child, top });
        cnode_(d->cnode, d, root);
        path.pop_back();
        const value_bound& b = d->bound;
        for(const cdir* k : { d->lchild, d->rchild }) {
            if(!k) continue;
            splits++;
            if(k->parent_type != CNODE_PARENT_CDIR || k->cdir_parent != d) bad("a range does not know its parent range");
            const value_bound& q = k->bound;
            bool in = false, ordered = false;
            switch(c.attrs[(size_t)a].t) {
                case T_INT: case T_IL: in = b.imin <= q.imin && q.imax <= b.imax; ordered = q.imin <= q.imax; break;
                case T_FLT: in = b.fmin <= q.fmin && q.fmax <= b.fmax; ordered = q.fmin <= q.fmax; break;
                case T_BOOL: in = b.bmin <= q.bmin && q.bmax <= b.bmax; ordered = q.bmin <= q.bmax; break;
                default: in = b.smin <= q.smin && q.smax <= b.smax; ordered = q.smin <= q.smax;
            }
            if(!in || !ordered) bad("range " + rng(q) + " inside " + rng(b) + " on " + c.attrs[(size_t)a].name);
        }
        if(d->lchild && d->rchild) {
            const value_bound &l = d->lchild->bound, &r = d->rchild->bound;
            bool ok = false;
            switch(c.attrs[(size_t)a].t) {
                case T_INT: case T_IL: ok = l.imin == b.imin && r.imax == b.imax && l.imax < INT64_MAX && r.imin <= l.imax + 1; break;
                case T_FLT: ok = l.fmin == b.fmin && r.fmax == b.fmax; break;
                case T_BOOL: ok = l.bmin == b.bmin && r.bmax == b.bmax; break;
                default: ok = l.smin == b.smin && r.smax == b.smax && r.smin <= l.smax + 1;
            }
            if(!ok) bad("ranges " + rng(l) + " and " + rng(r) + " do not cover " + rng(b) + " on " + c.attrs[(size_t)a].name);
        }
        if(d->lchild) cdir_(d->lchild, a, true, root);
        if(d->rchild) cdir_(d->rchild, a, true, root);
    }
    void run()
    {
        cnode_(t.t->cnode, nullptr, t.t->cnode);
        std::map<uint64_t, int> want;
        for(auto& s : subs) want[s.id]++;
        for(auto& w : want) if(count[w.first] != w.second) bad("expression " + str(w.first) + " is held " + str(count[w.first]) + " times, inserted " + str(w.second));
        for(auto& s : subs) {
            const betree_sub* f = find_sub_id(s.id, t.t->cnode);
            x.checks++;
            if(!f || f->id != s.id) bad("expression " + str(s.id) + " can not be found");
        }
        if(subs.size() <= (prm.dflt ? 3 : prm.cap) && nodes.size() != 1) bad("the tree was divided although " + str(subs.size()) + " expressions fit one node");
        if(find_sub_id(987654321, t.t->cnode)) bad("an expression that was never inserted is found");
    }
};

static void p_c23(Ctx& x)
{
    Ids ids(x);
    bool direct = x.s.chance(1, 2);
    CfgOpt o;
    o.max = 5;
    Config c = gen_config(x.s, o);
    Params p = gen_params(x);
    x.note("config " + config_text(c) + "; " + ptext(p) + (direct ? "; direct" : "; prepared"));
    Tree t(c, p.cap, p.part, p.dflt);
    GenOpt g;
    g.in_domain = direct;
    g.depth = (int)x.s.weighted({ 4, 3, 2 });
    double mean = gen_mean(x);
    std::vector<Sub> all, subs;
    std::vector<Event> evs;
    size_t ne = 6;
    for(size_t i = 0; i < ne; i++) evs.push_back(gen_event(x.s, c, 15));
    do {
        uint64_t id = ids(all.size() + 1);
        Sub b = make_subm(x.s, c, id, gen_expr(x.s, c, g));
        if(x.s.chance(1, 10) && !all.empty()) { b.e = all[0].e; b.text = all[0].text; b.k = all[0].k; b.id = all[0].id; }
        if(direct) {
            if(!t.insert(b.id, b.text, b.k)) { if(b.id != id) x.fail("refused the second time: " + b.text); continue; }
            note_sub(x, b);
            all.push_back(b);
            subs.push_back(b);
            Walk w(x, t, c, subs);
            w.evs = &evs; w.prm = p;
            w.run();
            if(w.splits) x.nontrivial = true;
        }
        else {
            note_sub(x, b);
            x.require(t.prepare(b.id, b.text, b.k), "refused: " + b.text);
            all.push_back(b);
        }
    } while(x.s.more(all.size(), mean, 250));
    if(!direct) {
        auto pend = t.pending;
        t.pending.clear();
        for(size_t i = 0; i < pend.size(); i++) {
            betree_insert_sub(t.t, pend[i]);
            subs.push_back(all[i]);
            if(pend.size() > 60 && i % 7 && i + 1 < pend.size()) continue;
            Walk w(x, t, c, subs);
            w.evs = &evs; w.prm = p;
            w.run();
            if(w.splits) x.nontrivial = true;
        }
    }
    Walk w(x, t, c, subs);
    w.evs = &evs; w.prm = p;
    w.run();
    if(w.parts > 1) x.label("several partitions");
    if(w.deep > 2) x.label("deeper than two ranges");
    x.label(w.splits ? "ranges split" : w.parts ? "partitioned" : "flat");
}


// ------------------------------------------------------------------ C34
// How many expressions a search has to look at: those whose ranges may hold the event's value.
struct Cand {
    Walk& w;
    const Event& ev;
    const value_bound* top = nullptr;
    bool may(const Attr& a, const Val& v, const value_bound& b, const value_bound& t)
    {
        bool known;
        if(a.t == T_STR || a.t == T_SL || a.t == T_IE) {
            bool in = w.inside(a, v, b, t, known);
            if(!known) return v.t == T_SL && v.sl.empty() ? true : b.smax == t.smax || a.t == T_SL;
            return in || b.smax == t.smax;
        }
        return w.inside(a, v, b, t, known);
    }
    size_t node(const cnode* n)
    {
        size_t r = n->lnode->sub_count;
        if(n->pdir) for(size_t i = 0; i < n->pdir->pnode_count; i++) {
            const pnode* p = n->pdir->pnodes[i];
            int a = w.c.find(p->attr_var.attr);
            if(a < 0) w.bad("a partition on an unknown attribute");
            const value_bound* old = top;
            top = &p->cdir->bound;
            r += dir(p->cdir, a);
            top = old;
        }
        return r;
    }
    size_t dir(const cdir* d, int a)
    {
        const value_bound* mine = top;
        size_t r = node(d->cnode);
        const Attr& at = w.c.attrs[(size_t)a];
        for(const cdir* k : { d->lchild, d->rchild }) {
            if(!k) continue;
            top = mine;
            if(!ev.v[(size_t)a] || may(at, *ev.v[(size_t)a], k->bound, *mine)) r += dir(k, a);
        }
        top = mine;
        return r;
    }
};

static void c34_walk(Ctx& x)
{
    Ids ids(x);
    bool direct = x.s.chance(1, 2);
    CfgOpt o;
    o.max = 5;
    o.opt_pct = 30;
    Config c = gen_config(x.s, o);
    Params p = gen_params(x);
    x.note("config " + config_text(c) + "; " + ptext(p) + (direct ? "; direct" : "; prepared"));
    GenOpt g;
    g.in_domain = direct;
    g.depth = (int)x.s.weighted({ 6, 3, 1 });
    double mean = gen_mean(x);
    std::vector<Sub> subs;
    Tree t(c, p.cap, p.part, p.dflt);
    size_t some = 0;
    auto look = [&]() {
        Event ev = gen_event(x.s, c, 15);
        std::string et = event_text(c, ev);
        x.note("event " + et);
        Result r = search(t, et);
        Walk w(x, t, c, subs);
        Cand k { w, ev };
        size_t n = k.node(t.t->cnode);
        x.require(r.evaluated <= n, "event " + et + ": " + str(r.evaluated) + " expressions were evaluated, only " + str(n) + " of " + str(subs.size()) + " are held where the event's values may be");
        if(n < subs.size()) some++;
    };
    do {
        Sub b = make_subm(x.s, c, ids(subs.size() + 1), gen_expr(x.s, c, g));
        note_sub(x, b);
        if(direct) { if(!t.insert(b.id, b.text, b.k)) continue; }
        else x.require(t.prepare(b.id, b.text, b.k), "refused: " + b.text);
        subs.push_back(b);
        if(direct && x.s.chance(1, 6)) look();
    } while(x.s.more(subs.size(), mean, 250));
    t.commit();
    for(int i = 0; i < 6; i++) look();
    x.nontrivial = some > 0;
    x.label(some ? "any structure, pruned" : "any structure, nothing to prune");
}

// every expression tests the attribute (or both) for one value: a search needs the node of that value only
static void c34_points(Ctx& x)
{
    static const std::vector<VT> types = { T_INT, T_STR, T_IE, T_IL, T_SL, T_BOOL };
    size_t dims = 1 + x.s.draw(2);
    size_t route = x.s.draw(3);
    Config c;
    struct Dim { std::vector<int64_t> vals; VT t; };
    std::vector<Dim> ds;
    for(size_t d = 0; d < dims; d++) {
        Attr a;
        a.name = d ? "w" : "m";
        a.t = types[x.s.weighted({ 6, 4, 2, 2, 2, 1 })];
        a.opt = x.s.chance(1, 3);
        size_t n = 1 + x.s.draw(x.s.chance(1, 3) ? 200 : 20);
        Dim dm;
        dm.t = a.t;
        if(a.t == T_BOOL) dm.vals = { 0, 1 };
        else {
            int64_t lo = 0;
            if(a.t == T_INT || a.t == T_IL) {
                a.bounded = true;
                lo = x.s.pick(std::vector<int64_t> { 0, 1, -5, -100, 1000000, (int64_t)1 << 40, -((int64_t)1 << 62) });
                a.imin = lo;
                a.imax = lo + (int64_t)n - 1 + (x.s.chance(1, 3) ? (int64_t)x.s.draw(1000 - n) : 0);
            }
            else { a.cnt = n + (x.s.chance(1, 3) ? x.s.draw(1000 - n) : 0); a.bounded = true; }
            for(size_t i = 0; i < n; i++) dm.vals.push_back(lo + (int64_t)i);
        }
        if(route == 0 && a.t != T_BOOL && x.s.chance(1, 4)) { // preparing the expressions finds the bounds
            a.bounded = false;
            a.imin = INT64_MIN; a.imax = INT64_MAX; a.cnt = SIZE_MAX;
        }
        c.attrs.push_back(a);
        ds.push_back(dm);
    }
    Attr u;
    u.name = "u"; u.t = T_INT; u.opt = x.s.chance(1, 3);
    c.attrs.push_back(u);
    Attr gs;
    gs.name = "g"; gs.t = T_SEG; gs.opt = true;
    c.attrs.push_back(gs);
    Params p;
    p.dflt = x.s.chance(1, 3);
    if(!p.dflt) { p.cap = 1 + x.s.draw(x.s.chance(1, 4) ? 40 : 6); p.part = x.s.draw(p.cap + 2); }
    size_t cap = p.dflt ? 3 : p.cap;
    x.note("config " + config_text(c) + "; " + ptext(p) + "; " + std::vector<std::string> { "prepared", "direct", "mixed" }[route]);
    Tree t(c, p.cap, p.part, p.dflt);
    auto word = [](int64_t v) { return "\"s" + str(v) + "\""; };
    auto one = [&](size_t d, int64_t v) -> std::string {
        const std::string& n = c.attrs[d].name;
        std::string k = ds[d].t == T_STR || ds[d].t == T_SL ? word(v) : ival(v);
        switch(ds[d].t) {
            case T_BOOL: return v ? n : "not " + n;
            case T_INT: switch(x.s.draw(6)) {
                case 0: return n + " = " + k;
                case 1: return k + " = " + n;
                case 2: return "not " + n + " <> " + k;
                case 3: return "(" + n + " >= " + k + " and " + n + " <= " + k + ")";
                case 4: return "not " + n + " not in (" + k + ")";
                default: return n + " in (" + k + ")";
            }
            case T_STR: switch(x.s.draw(4)) { case 3: return "not " + n + " not in (" + k + ")"; case 0: return n + " = " + k; case 1: return "not " + n + " <> " + k; default: return n + " in (" + k + ")"; }
            case T_IE: return x.s.chance(1, 2) ? n + " = " + k : "not " + n + " <> " + k;
            default: switch(x.s.draw(5)) {
                case 0: return n + " one of (" + k + ")";
                case 1: return n + " all of (" + k + ")";
                case 2: return "not " + n + " none of (" + k + ")";
                case 3: return k + " in " + n;
                default: return "not " + k + " not in " + n;
            }
        }
    };
    size_t n = 0;
    std::map<std::vector<int64_t>, size_t> mult;
    size_t top = 0;
    double mean = std::vector<double> { 8, 40, 150, 600 }[x.s.weighted({ 3, 4, 3, x.thorough ? 3u : 1u })];
    bool few = x.s.chance(1, 4);
    do {
        std::vector<int64_t> key;
        std::string e;
        for(size_t d = 0; d < dims; d++) {
            int64_t v = few ? ds[d].vals[x.s.draw(std::min<size_t>(ds[d].vals.size(), 4))] : x.s.pick(ds[d].vals);
            key.push_back(v);
            e += (d ? " and " : "") + one(d, v);
        }
        // conditions on attributes that can not be split (preparing would bound u)
        if(x.s.chance(1, 4)) e += route == 1 ? " and u > " + ival(x.s.range(0, 10)) : " and g is null";
        if(x.s.chance(1, 8)) e = (route == 1 ? "u <> " + ival(x.s.range(0, 10)) : "g is not null") + " and " + e;
        x.note("sub " + str(n + 1) + ": " + e);
        bool ok = route == 0 || (route == 2 && x.s.chance(1, 2)) ? t.prepare(n + 1, e) : t.insert(n + 1, e);
        x.require(ok, "refused: " + e);
        if(route == 2) t.commit();
        n++;
        top = std::max(top, ++mult[key]);
    } while(x.s.more(n, mean, 1500));
    t.commit();
    bool some = false;
    for(int i = 0; i < 8; i++) {
        std::string et = "{\"u\": " + ival(x.s.range(0, 12));
        std::vector<int64_t> key;
        bool in = true;
        for(size_t d = 0; d < dims; d++) {
            int64_t v = few ? ds[d].vals[x.s.draw(std::min<size_t>(ds[d].vals.size(), 4))] : x.s.pick(ds[d].vals);
            const Attr& a = c.attrs[d];
            if(a.t != T_BOOL && x.s.chance(1, 6)) {
                in = false;
                if(!a.bounded) v = x.s.pick(std::vector<int64_t> { -3, 100000, 5000000 });
                else v = a.t == T_INT || a.t == T_IL ? (x.s.chance(1, 2) ? a.imin - 1 - (int64_t)x.s.draw(3) : a.imax + 1 + (int64_t)x.s.draw(3)) : 1000 + (int64_t)x.s.draw(5);
            }
            key.push_back(v);
            bool l = a.t == T_IL || a.t == T_SL;
            et += ", \"" + a.name + "\": " + (l ? "[" : "") + (a.t == T_BOOL ? (v ? "true" : "false") : a.t == T_STR || a.t == T_SL ? word(v) : ival(v)) + (l ? "]" : "");
        }
        et += "}";
        x.note("event " + et);
        Result r = search(t, et);
        x.require(r.ok, "search refused a valid event: " + et);
        size_t m = top;
        if(in) { auto f = mult.find(key); if(f != mult.end()) m = f->second; }
        size_t lim = (dims == 1 ? 2 : 4) * std::max(cap, m);
        x.require(r.evaluated <= lim, "event " + et + ": " + str(r.evaluated) + " of " + str(n) + " expressions were evaluated, although each tests for one value, " + str(m) + " at most for this one, and a node holds " + str(cap) + "; more than " + str(lim) + " are not needed");
        if(lim < n) some = true;
    }
    x.nontrivial = some;
    x.label("one value each, " + str(dims) + (dims == 1 ? " attribute" : " attributes"));
    x.label(std::string("on ") + vt_name(ds[0].t));
}
static void p_c34(Ctx& x)
{
    if(x.s.chance(1, 2)) c34_points(x);
    else c34_walk(x);
}

// ------------------------------------------------------------------ C35
// What is known of an expression when attribute a is absent and nothing else is known:
// 1 true, 0 false, -1 open. Tests that look at several attributes are left open.
static int absent(const Expr& e, int a)
{
    switch(e.k) {
        case AND: { int l = absent(*e.l, a), r = absent(*e.r, a); return l == 0 || r == 0 ? 0 : l == 1 && r == 1 ? 1 : -1; }
        case OR: { int l = absent(*e.l, a), r = absent(*e.r, a); return l == 1 || r == 1 ? 1 : l == 0 && r == 0 ? 0 : -1; }
        case NOT: { int l = absent(*e.l, a); return l < 0 ? -1 : !l; }
        case LIT: case SEGM: case GEO: case FREQ: return -1;
        case NUL: return e.a != a ? -1 : e.op == IS_NULL;
        default: return e.a == a ? 0 : -1;
    }
}
static bool literal_root(const Expr& e) { return e.k == LIT || (e.k == NOT && literal_root(*e.l)); }
static void p_c35(Ctx& x)
{
    CfgOpt o;
    o.max = 6;
    if(x.s.chance(1, 5)) { // around whole words of bits
        o.min = 64 * (int)(1 + x.s.draw(3)) - 4;
        o.max = o.min + 8;
    }
    o.opt_pct = 70;
    Config c = gen_config(x.s, o);
    Tree t(c, 100000, 0, false);
    x.note("config " + config_text(c) + "; one node");
    GenOpt g;
    g.depth = (int)x.s.weighted({ 3, 4, 3 });
    std::vector<E> reuse;
    if(x.s.chance(1, 2)) g.reuse = &reuse;
    std::vector<Sub> subs;
    double mean = gen_mean(x);
    size_t route = x.s.draw(3);
    do {
        Sub b;
        if(!subs.empty() && x.s.chance(1, 2)) { b = x.s.pick(subs); b.id = subs.size() + 1; }
        else b = make_subm(x.s, c, subs.size() + 1, gen_expr(x.s, c, g));
        note_sub(x, b);
        bool ok = route == 0 || (route == 2 && x.s.chance(1, 2)) ? t.prepare(b.id, b.text, b.k) : t.insert(b.id, b.text, b.k);
        if(!ok && route == 0) x.fail("refused: " + b.text);
        if(!ok) { subs.size() ? (void)0 : x.discard(); continue; }
        if(route == 2) t.commit();
        subs.push_back(b);
    } while(x.s.more(subs.size(), mean, 250));
    t.commit();
    if(subs.empty()) x.discard();
    bool some = false, sh = false, me = false;
    for(int i = 0; i < 5; i++) {
        Event ev = gen_event(x.s, c, x.s.chance(1, 3) ? 0 : 40);
        std::string et = event_text(c, ev);
        x.note("event " + et);
        Result r = search(t, et);
        x.require(r.ok, "search refused a valid event: " + et);
        size_t lo = 0, hi = 0;
        for(auto& s : subs) {
            bool d = false, u = false;
            for(size_t a = 0; a < c.attrs.size(); a++) if(!ev.v[a] && c.attrs[a].opt && absent(*s.e, (int)a) >= 0) d = true;
            std::set<int> as;
            collect_attrs(c, *s.e, as);
            for(int a : as) if(!ev.v[(size_t)a]) u = true;
            lo += d;
            hi += u;
        }
        std::string m = "event " + et + ": " + rtext(r) + " of " + str(subs.size()) + " expressions";
        x.require(r.shorted >= lo, m + "; the absence of an attribute alone decides " + str(lo));
        x.require(r.shorted <= hi, m + "; " + str(hi) + " use an absent attribute");
        // copies of one expression: all but one of those evaluated reuse the result
        std::map<std::string, std::pair<size_t, bool>> by;
        for(auto& s : subs) { auto& q = by[s.text + " " + consts_text(s.k)]; q.first++; q.second = literal_root(*s.e); }
        size_t distinct = 0, lits = 0;
        for(auto& q : by) { distinct++; if(q.second.second) lits += q.second.first; }
        size_t need = subs.size() - distinct;
        size_t off = r.shorted + lits;
        need = need > off ? need - off : 0;
        x.require(r.memoized >= need, m + "; " + str(subs.size()) + " expressions with only " + str(distinct) + " different ones need at least " + str(need) + " remembered results");
        if(need) { some = true; me = true; }
        if(lo) { some = true; sh = true; }
    }
    x.nontrivial = some;
    if(me) x.label("results must be remembered");
    if(sh) x.label("decided by absence");
}

int main(int argc, char** argv)
{
    std::vector<eng::Property> v;
    v.push_back({ "C23", "histories of direct insertions (constants inside the declared domains) or insertions of subscriptions prepared beforehand, 2..60 expressions (thorough 120), repeated ids included, all tuning parameters (also capacities and minimum sizes around and above 255, 65535 and 2^32); after each insertion (in big prepared histories, every seventh) the whole structure is walked: every expression in exactly one place, attributes and ranges of partitions, parent links, lookup by id, a single node while the expressions fit its capacity, partitions no smaller than the minimum, and no expression held in a range while the reference evaluator finds it true of an event outside that range (ranges at the edges of the domain extend beyond it). Non-trivial: some range was split.", 80000, 1000000, p_c23,
        Regs { { "capacity and minimum size of 256", [](Ctx& x) {
            for(uint64_t cap : { 255, 256, 257, 512 }) {
                Config none; Tree t(none, cap, 0, false);
                betree_add_integer_variable(t.t, "i", false, 0, 10);
                for(int i = 0; i < 20; i++) t.insert((uint64_t)i + 1, "i = " + str(i % 11));
                x.require(t.t->cnode->pdir == nullptr && t.t->cnode->lnode->sub_count == 20, "20 expressions do not fit a node of capacity " + str(cap));
                Tree u(none, 1, cap, false);
                betree_add_integer_variable(u.t, "i", false, 0, 10);
                for(int i = 0; i < 20; i++) u.insert((uint64_t)i + 1, "i = " + str(i % 11));
                x.require((u.t->cnode->pdir == nullptr || u.t->cnode->pdir->pnode_count == 0) && u.t->cnode->lnode->sub_count == 20, "20 expressions were partitioned with a minimum of " + str(cap));
            } } } }, 0.1, 120, {} });
    v.push_back({ "C34", "half: random trees, the number of expressions evaluated compared with the number held in places whose ranges may contain the event's value (walking the structure). Half: 1..1500 expressions that each test one splittable attribute, or two, for a single value (written in several ways, with conditions on an attribute that can not be split), prepared, inserted or mixed; a search may evaluate two nodes' worth per attribute, whatever the number of expressions. Non-trivial: some expressions need not be evaluated.", 70000, 400000, p_c34, Regs {}, 0.2, 120, {} });
    v.push_back({ "C35", "one node of 1..250 expressions, many of them copies of each other, over 1..6 or about 64, 128 or 192 attributes, most optional; events with and without absences. The short-circuited count must reach the number of expressions that the absence of one attribute decides (three-valued evaluation) and not exceed the number that use an absent attribute; the memoized count must reach the number of repeated expressions. Non-trivial: either is required.", 60000, 1500000, p_c35, Regs {}, 0.2, 40, {} });
    return eng::engine_main(argc, argv, v);
}

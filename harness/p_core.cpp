// C01-C08, C18, C20, C24, C27: searching, decided against the reference model.
#include "common.hpp"
using namespace api;
using eng::Property;

static void check_events(Ctx& x, Tree& t, const Config& c, const std::vector<Sub>& subs, int n, int undef, bool& some, bool& pruned)
{
    int k = 0;
    do {
        Event ev = gen_event(x.s, c, undef);
        std::string et = event_text(c, ev);
        x.note("event " + et);
        Result r = search(t, et);
        x.require(r.ok, "search refused a valid event: " + et);
        auto want = expected(c, subs, ev);
        x.require(r.ids == want, "event " + et + "\n  " + diff_text(c, subs, want, r.ids));
        if(!want.empty() && want.size() < subs.size()) some = true;
        if(r.evaluated < subs.size()) pruned = true;
    } while(x.s.more((size_t)++k, n, (size_t)n * 3));
}

static void label_kinds(Ctx& x, const std::vector<Sub>& subs)
{
    static const char* kn[] = { "lit", "bvar", "cmp", "eq", "setv", "setl", "list", "null", "strpred", "segment", "geo", "freq" };
    for(K k : { STRP, SEGM, GEO, FREQ, NUL, LST, SETV, SETL })
        for(auto& b : subs) if(contains_kind(*b.e, k)) { x.label(std::string("kind ") + kn[k]); break; }
}

// ------------------------------------------------------------------ C01
// now and then some hundreds or thousands of expressions that are as good as one, to come before the others
static void crowd(Ctx& x, const Config& c, Ids& ids, std::vector<Sub>& subs, bool never)
{
    if(!x.s.chance(1, 250)) return;
    static const std::vector<size_t> sizes = { 130, 260, 520, 1030, 2050, 4200 };
    size_t n = x.s.pick(sizes);
    E e = mk(LIT);
    if(!never) e->neg = x.s.chance(1, 2);
    if(n <= 520 && x.s.chance(1, 2)) {
        GenOpt g;
        g.depth = 1;
        e = gen_expr(x.s, c, g);
        if(never) { E w = mk(NOT); w->l = e; E v = mk(AND); v->l = e; v->r = w; e = v; }
    }
    Sub b = make_subm(x.s, c, 0, e);
    x.note(str(n) + " times: " + b.text + (consts_text(b.k).empty() ? "" : "   [" + consts_text(b.k) + "]"));
    for(; n > 0; n--) {
        b.id = ids(subs.size() + 1);
        subs.push_back(b);
    }
    x.label("crowded");
}
static void p_c01(Ctx& x)
{
    Ids ids(x);
    CfgOpt o;
    o.max = 6;
    Config c = gen_config(x.s, o);
    Params p = gen_params(x);
    x.note("config " + config_text(c) + "; " + ptext(p));
    GenOpt g;
    g.depth = (int)x.s.weighted({ 4, 4, 3, 2 });
    std::vector<E> reuse;
    if(x.s.chance(1, 2)) g.reuse = &reuse;
    bool style = x.s.chance(1, 3);
    Style st;
    st.s = &x.s;
    st.casing = st.ws = st.words = st.flip = st.quotes = true;
    std::vector<Sub> subs;
    crowd(x, c, ids, subs, false);
    size_t crowded = subs.size();
    double mean = gen_mean(x);
    do {
        E e = gen_expr(x.s, c, g);
        Sub b = make_subm(x.s, c, ids(subs.size() + 1), e, style ? &st : nullptr);
        note_sub(x, b);
        subs.push_back(b);
    } while(x.s.more(subs.size() - crowded, mean, upmost(mean, 150)));
    Tree t(c, p.cap, p.part, p.dflt);
    for(auto& b : subs) x.require(t.prepare(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
    t.commit();
    bool some = false, pruned = false;
    check_events(x, t, c, subs, 6, 30, some, pruned);
    x.nontrivial = some;
    x.label(subs.size() > (p.dflt ? 3 : p.cap) ? "overflowed" : "single node");
    if(pruned) x.label("some search skipped expressions");
    if(some) x.label("some matched, some not");
    label_kinds(x, subs);
}

// ------------------------------------------------------------------ C02
static const char* junk(Src& s)
{
    static const char* j[] = { "", "a =", "(", "zz_unknown = 1", "zz_unknown", "1 in zz_unknown", "a a", "a @ b", "not", "= 1" };
    return j[s.draw(sizeof j / sizeof *j)];
}

static void p_c02(Ctx& x)
{
    Ids ids(x);
    // flavours: 0 direct only, 1 any mixture (no strings), 2 prepared one at a time
    int fl = (int)x.s.weighted({ 5, 2, 2 });
    CfgOpt o;
    o.max = 5;
    if(fl == 1) { o.types = { T_INT, T_BOOL, T_FLT, T_IL }; o.specials = false; }
    Config c = gen_config(x.s, o);
    Params p = gen_params(x);
    static const char* fn[] = { "direct insertion", "direct, prepared and announced mixed", "prepared one at a time" };
    x.note("config " + config_text(c) + "; " + ptext(p) + "; " + fn[fl]);
    x.label(fn[fl]);
    GenOpt g;
    g.in_domain = fl != 2;
    g.depth = (int)x.s.weighted({ 4, 4, 2 });
    std::vector<E> reuse;
    if(x.s.chance(1, 2)) g.reuse = &reuse;
    Tree t(c, p.cap, p.part, p.dflt);
    std::vector<Sub> subs;
    double mean = gen_mean(x);
    bool some = false, later = false;
    size_t steps = 0;
    uint64_t next = 1;
    size_t lastmatch = 0;
    std::vector<Event> evs;
    do {
        size_t op = x.s.weighted({ 6, 4, 1 });
        if(op == 0) {
            Sub b = make_subm(x.s, c, ids(next++), gen_expr(x.s, c, g));
            note_sub(x, b);
            size_t how = fl == 0 ? 0 : fl == 2 ? 1 : x.s.weighted({ 3, 3, 1 });
            if(fl == 1) { static const char* hn[] = { "  inserted directly", "  prepared and inserted", "  only announced" }; x.note(hn[how]); }
            if(how == 0) x.require(t.insert(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
            else if(how == 1) { x.require(t.prepare(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text); t.commit(); }
            else {
                x.require(betree_change_boundaries(t.t, b.text.c_str()), "a well-typed expression could not be announced: " + b.text);
                continue;
            }
            subs.push_back(b);
        }
        else if(op == 1) {
            Event ev = evs.empty() || x.s.chance(2, 3) ? gen_event(x.s, c, 25) : evs[x.s.draw(evs.size())];
            evs.push_back(ev);
            std::string et = event_text(c, ev);
            x.note("event " + et);
            auto want = expected(c, subs, ev);
            Result r;
            if(x.s.chance(1, 3)) {
                betree_event* e = make_event(t, c, ev);
                r = search_event(t, e);
                betree_free_event(e);
            }
            else r = search(t, et);
            x.require(r.ok, "search refused a valid event: " + et);
            x.require(r.ids == want, "event " + et + "\n  " + diff_text(c, subs, want, r.ids));
            if(!want.empty() && want.size() < subs.size()) { if(lastmatch && subs.size() > lastmatch) later = true; lastmatch = subs.size(); some = true; }
        }
        else {
            const char* j = junk(x.s);
            bool a_bool = c.attrs[0].t == T_BOOL;
            (void)a_bool;
            x.note(std::string("refused insertion: ") + j);
            x.require(!betree_insert(t.t, 9999, j), std::string("nonsense was accepted: ") + j);
        }
    } while(x.s.more(++steps, mean * 2, upmost(mean, 240)));
    // at the end every event seen is searched again
    for(auto& ev : evs) {
        Result r = search(t, event_text(c, ev));
        auto want = expected(c, subs, ev);
        x.require(r.ok && r.ids == want, "at the end, event " + event_text(c, ev) + "\n  " + diff_text(c, subs, want, r.ids));
    }
    x.nontrivial = some && later;
    x.label(subs.size() > (p.dflt ? 3 : p.cap) ? "overflowed" : "single node");
}

// ------------------------------------------------------------------ C03
static void p_c03(Ctx& x)
{
    Ids ids(x);
    bool direct = x.s.chance(1, 2);
    CfgOpt o;
    o.max = 5;
    Config c = gen_config(x.s, o);
    GenOpt g;
    g.in_domain = direct;
    g.depth = (int)x.s.weighted({ 4, 4, 2 });
    std::vector<E> reuse;
    if(x.s.chance(1, 2)) g.reuse = &reuse;
    x.note("config " + config_text(c));
    std::vector<Sub> subs;
    double mean = gen_mean(x);
    do {
        Sub b = make_subm(x.s, c, ids(subs.size() + 1), gen_expr(x.s, c, g));
        note_sub(x, b);
        subs.push_back(b);
    } while(x.s.more(subs.size(), mean, upmost(mean, 100)));
    struct Org { Params p; std::vector<size_t> order; bool direct; std::set<uint64_t> ids; std::unique_ptr<Tree> t; std::string d; };
    std::vector<Org> orgs;
    int n = 2 + (int)x.s.draw(3);
    for(int i = 0; i < n; i++) {
        Org r;
        r.direct = direct && x.s.chance(1, 2);
        if(i > 0) {
            r.p.dflt = x.s.chance(1, 4);
            if(!r.p.dflt) { r.p.cap = i == 1 && x.s.chance(1, 2) ? 200 : 1 + x.s.draw(8); r.p.part = x.s.draw(6); }
        }
        bool sub = i > 0 && x.s.chance(1, 3), perm = i > 0 && x.s.chance(1, 2);
        for(size_t j = 0; j < subs.size(); j++) if(!sub || x.s.chance(2, 3)) { r.order.push_back(j); r.ids.insert(subs[j].id); }
        if(perm) for(size_t j = r.order.size(); j > 1; j--) std::swap(r.order[j - 1], r.order[j - 1 - x.s.draw(j)]);
        r.d = ptext(r.p) + (r.direct ? ", direct" : ", prepared") + ", order";
        for(auto j : r.order) r.d += " " + str(subs[j].id);
        x.note("organisation " + str(i) + ": " + r.d);
        r.t.reset(new Tree(c, r.p.cap, r.p.part, r.p.dflt));
        for(auto j : r.order) {
            auto& b = subs[j];
            if(r.direct) x.require(r.t->insert(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
            else x.require(r.t->prepare(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
        }
        r.t->commit();
        orgs.push_back(std::move(r));
    }
    bool some = false;
    size_t k = 0;
    do {
        Event ev = gen_event(x.s, c, 25);
        std::string et = event_text(c, ev);
        x.note("event " + et);
        Result r0;
        for(size_t i = 0; i < orgs.size(); i++) {
            Result r = search(*orgs[i].t, et);
            x.require(r.ok, "search refused a valid event");
            if(i == 0) { r0 = r; if(!r.ids.empty() && r.ids.size() < subs.size()) some = true; continue; }
            std::vector<uint64_t> want;
            for(auto id : r0.ids) if(orgs[i].ids.count(id)) want.push_back(id);
            x.require(r.ids == want, "event " + et + ": organisation 0 finds (of the ids of organisation " + str(i) + ") " + ids_text(want) + ", organisation " + str(i) + " finds " + ids_text(r.ids) + "\n  " + diff_text(c, subs, want, r.ids));
        }
    } while(x.s.more(++k, 6, 20));
    x.nontrivial = some && subs.size() > 1;
    if(direct) x.label("with direct route");
    x.label(subs.size() > 8 ? "more than 8 expressions" : "up to 8 expressions");
}

// ------------------------------------------------------------------ C04
static void p_c04(Ctx& x)
{
    Ids ids(x);
    static const std::vector<int> sizes = { 2, 3, 4, 1, 5, 8, 63, 64, 65, 66, 127, 128, 129, 130, 192, 200 };
    int n = sizes[x.s.weighted({ 4, 4, 4, 2, 3, 3, 2, 2, 3, 2, 1, 1, 2, 1, 1, 1 })];
    Config c;
    std::vector<int> focus;
    bool many = n > 8;
    CfgOpt o;
    o.opt_pct = 100; o.specials = !many; o.min = many ? 1 : n; o.max = many ? 1 : n; o.wide = false;
    if(many) {
        for(int i = 0; i < n; i++) {
            Attr a;
            a.name = "v" + str(i);
            a.t = i % 3 == 0 ? T_BOOL : i % 3 == 1 ? T_INT : T_STR;
            a.opt = true;
            if(a.t == T_INT) { a.bounded = true; a.imin = 0; a.imax = 4; a.ipool = { 0, 1, 2, 3, 4 }; }
            if(a.t == T_STR) a.spool = { "a", "b" };
            c.attrs.push_back(a);
        }
        // attributes next to the machine word boundaries, plus a few others
        for(int b : { 0, 64, 128, 192 }) for(int d = -2; d <= 1; d++) if(b + d >= 0 && b + d < n && x.s.chance(1, 2)) focus.push_back(b + d);
        for(int i = 0; i < 2; i++) focus.push_back((int)x.s.draw((uint64_t)n));
        focus.push_back(n - 1);
        x.note("config: " + str(n) + " optional attributes v0.. (bool, int[0,4], string in turn)");
    }
    else {
        c = gen_config(x.s, o);
        if(x.s.chance(1, 3)) for(auto& a : c.attrs) if(x.s.chance(1, 4)) a.opt = false;
        x.note("config " + config_text(c));
    }
    Params p = gen_params(x);
    x.note(ptext(p));
    GenOpt g;
    g.only = focus;
    g.depth = 1 + (int)x.s.draw(5);
    std::vector<E> reuse;
    if(x.s.chance(1, 2)) g.reuse = &reuse;
    std::vector<Sub> subs;
    double mean = x.s.chance(1, 3) ? 8 : 2;
    do {
        E e = gen_expr(x.s, c, g);
        size_t wrap = x.s.draw(3);
        for(size_t i = 0; i < wrap; i++) { E w = mk(NOT); w->l = e; e = w; }
        Sub b = make_subm(x.s, c, ids(subs.size() + 1), e);
        note_sub(x, b);
        subs.push_back(b);
    } while(x.s.more(subs.size(), mean, upmost(mean, 40)));
    Tree t(c, p.cap, p.part, p.dflt);
    for(auto& b : subs) x.require(t.prepare(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
    t.commit();
    bool some = false;
    size_t k = 0, shorted = 0;
    do {
        Event ev;
        int pct = (int)x.s.pick(std::vector<int> { 60, 85, 30, 100 });
        std::set<int> fs(focus.begin(), focus.end());
        for(size_t i = 0; i < c.attrs.size(); i++) {
            if(many && !fs.count((int)i)) { ev.v.push_back(nullptr); continue; }
            if(c.attrs[i].opt && x.s.chance((uint64_t)pct, 100)) ev.v.push_back(nullptr);
            else ev.v.push_back(gen_val(x.s, c, c.attrs[i]));
        }
        std::string et = event_text(c, ev);
        x.note("event " + et);
        auto want = expected(c, subs, ev);
        Result r = search(t, et);
        x.require(r.ok, "search refused a valid event: " + et);
        x.require(r.ids == want, "event " + et + "\n  " + diff_text(c, subs, want, r.ids));
        x.require(betree_exists(t.t, et.c_str()) == !want.empty(), "existence of a match for " + et + " should be " + str(!want.empty()));
        for(auto& b : subs) {
            std::set<int> at;
            collect_attrs(c, *b.e, at);
            for(int a : at) if(!ev.v[a]) some = true;
        }
        shorted += r.shorted;
    } while(x.s.more(++k, 6, 20));
    x.nontrivial = some;
    if(shorted) x.label("short circuit taken");
    if(many) x.label("64 attributes or around and more");
}

// ------------------------------------------------------------------ C05
static void p_c05(Ctx& x)
{
    Ids ids(x);
    static const std::vector<VT> types = { T_INT, T_FLT, T_STR, T_IE, T_BOOL, T_IL, T_SL };
    VT ty = types[x.s.weighted({ 6, 5, 3, 2, 1, 2, 2 })];
    Config c;
    Attr a;
    a.name = "m"; a.t = ty; a.opt = x.s.chance(1, 4);
    CfgOpt fo;
    if(ty == T_INT || ty == T_IL) {
        a.bounded = true;
        size_t m = x.s.weighted({ 5, 3, 2, 2, 1 });
        if(m == 0) { a.imin = x.s.range(0, 20) - 10; a.imax = a.imin + x.s.range(0, 12); }
        else if(m == 1) { a.imin = x.s.range(0, 200) - 100; a.imax = a.imin + x.s.range(0, 100); }
        else if(m == 2) { a.imin = x.s.range(0, 2000) - 1000; a.imax = a.imin + x.s.range(990, 1003); }
        else if(m == 3) { a.imin = INT64_MIN; a.imax = INT64_MAX; a.bounded = false; }
        else { a.imin = INT64_MAX - (int64_t)x.s.draw(40); a.imax = INT64_MAX; if(x.s.chance(1, 2)) { a.imax = INT64_MIN + 1 + (int64_t)x.s.draw(40); a.imin = INT64_MIN; } }
    }
    else if(ty == T_FLT) {
        a.bounded = true;
        size_t m = x.s.weighted({ 5, 3, 2, 1 });
        if(m == 0) { a.fmin = (double)x.s.range(0, 32) / 4 - 4; a.fmax = a.fmin + (double)x.s.range(0, 24) / 4; }
        else if(m == 1) { a.fmin = (double)x.s.range(0, 400) / 100 - 2; a.fmax = a.fmin + (double)x.s.range(0, 1000) / 100; }
        else if(m == 2) { a.fmin = (double)x.s.range(0, 2000) - 1000; a.fmax = a.fmin + (double)x.s.range(990, 1003); }
        else { a.fmin = -DBL_MAX; a.fmax = DBL_MAX; a.bounded = false; }
    }
    fill_pools(x.s, a, fo);
    if(ty == T_INT && a.bounded && a.imax - a.imin <= 12 && a.imin > INT64_MIN) { a.ipool.clear(); for(int64_t v = a.imin;; v++) { a.ipool.push_back(v); if(v == a.imax) break; } }
    if((ty == T_STR || ty == T_SL)) {
        size_t want = 2 + x.s.draw(x.s.chance(1, 3) ? 30 : 6);
        for(size_t i = 0; a.spool.size() < want; i++) a.spool.push_back("s" + str(i));
        if(x.s.chance(1, 2)) { a.cnt = a.spool.size() + x.s.draw(3); a.bounded = true; }
    }
    if(ty == T_IE && x.s.chance(1, 2)) { for(int i = 100; i < 110; i++) a.ipool.push_back(i); }
    if(ty == T_IE && x.s.chance(1, 2)) { a.cnt = a.ipool.size(); a.bounded = true; }
    c.attrs.push_back(a);
    if(x.s.chance(1, 2)) { Attr b; b.name = "z"; b.t = T_BOOL; b.opt = x.s.chance(1, 4); c.attrs.push_back(b); }
    if(x.s.chance(1, 4)) { Attr b = a; b.name = "w"; c.attrs.push_back(b); }
    bool direct = x.s.chance(1, 2);
    Params p;
    p.dflt = x.s.chance(1, 4);
    if(!p.dflt) { p.cap = 1 + x.s.draw(4); p.part = x.s.draw(3); }
    x.note("config " + config_text(c) + "; " + ptext(p) + (direct ? "; direct insertion" : "; prepared"));
    GenOpt g;
    g.in_domain = direct;
    g.literals = false;
    g.specials = x.s.chance(1, 3);
    g.nulls = x.s.chance(1, 3);
    g.depth = (int)x.s.weighted({ 5, 4, 2 });
    std::vector<Sub> subs;
    double mean = std::vector<double> { 6, 20, 60 }[x.s.weighted({ 3, 4, 2 })];
    do {
        Sub b = make_subm(x.s, c, ids(subs.size() + 1), gen_expr(x.s, c, g));
        note_sub(x, b);
        subs.push_back(b);
    } while(x.s.more(subs.size(), mean, upmost(mean, 200)));
    Tree t(c, p.cap, p.part, p.dflt);
    for(auto& b : subs) {
        if(direct) x.require(t.insert(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
        else x.require(t.prepare(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
    }
    t.commit();
    // values of the main attribute: everything in and around the domain, or the pool and its neighbours
    std::vector<std::shared_ptr<Val>> vals;
    auto vi = [&](int64_t i) { auto v = std::make_shared<Val>(); v->t = ty; v->i = i; vals.push_back(v); };
    if(ty == T_INT) {
        if(a.bounded && (uint64_t)a.imax - (uint64_t)a.imin <= 40 && a.imin > INT64_MIN + 3 && a.imax < INT64_MAX - 3) for(int64_t v = a.imin - 2; v <= a.imax + 2; v++) vi(v);
        else for(int64_t v : a.ipool) { vi(v); if(v < INT64_MAX) vi(v + 1); if(v > INT64_MIN + 2) vi(v - 1); }
        for(int64_t v : a.iout) vi(v);
    }
    else if(ty == T_FLT) {
        auto vf = [&](const Num& n) { auto v = std::make_shared<Val>(); v->t = ty; v->f = n; vals.push_back(v); };
        for(auto& n : a.fpool) vf(n);
        for(auto& n : a.fout) vf(n);
        for(int i = 0; i < 6; i++) vf(a.bounded ? gen_num(x.s, (int64_t)floor(a.fmin * 100) - 100, (int64_t)ceil(a.fmax * 100) + 100) : gen_num(x.s, -6000, 6000));
        for(const char* w : { "inf", "-inf", "nan" }) { Num n; n.neg = *w == '-'; n.txt = w + n.neg; vf(n); } // only through the API
    }
    else if(ty == T_IE) { for(int64_t v : a.ipool) vi(v); for(int64_t v : a.iout) vi(v); }
    else if(ty == T_BOOL) { for(int i = 0; i < 2; i++) { auto v = std::make_shared<Val>(); v->t = ty; v->b = i; vals.push_back(v); } }
    else if(ty == T_STR) { for(auto& sx : a.spool) { auto v = std::make_shared<Val>(); v->t = ty; v->s = sx; vals.push_back(v); } auto v = std::make_shared<Val>(); v->t = ty; v->s = "never seen"; vals.push_back(v); }
    else for(int i = 0; i < 12; i++) vals.push_back(gen_val(x.s, c, a));
    if(a.opt) vals.push_back(nullptr);
    bool some = false, pruned = false;
    for(auto& v : vals) {
        Event ev = gen_event(x.s, c, 25);
        ev.v[0] = v;
        std::string et = event_text(c, ev);
        auto want = expected(c, subs, ev);
        Result r;
        if(v && ty == T_FLT && !std::isfinite(v->f.val())) {
            betree_event* e = make_event(t, c, ev);
            r = search_event(t, e);
            betree_free_event(e);
            et += " built through the API";
        }
        else r = search(t, et);
        x.require(r.ok, "search refused a valid event: " + et);
        if(r.ids != want) x.note("event " + et);
        x.require(r.ids == want, "event " + et + "\n  " + diff_text(c, subs, want, r.ids));
        if(!want.empty() && want.size() < subs.size()) some = true;
        if(r.evaluated < subs.size()) pruned = true;
    }
    x.note("events: " + str(vals.size()) + " values of m in and around the domain");
    x.nontrivial = some && pruned;
    x.label(std::string("main attribute ") + vt_name(ty));
    x.label(direct ? "direct" : "prepared");
}

// ------------------------------------------------------------------ C06
static void p_c06(Ctx& x)
{
    Ids ids(x);
    CfgOpt o;
    o.max = 3;
    o.few_points = true;
    Config c = gen_config(x.s, o);
    Params p = gen_params(x);
    x.note("config " + config_text(c) + "; " + ptext(p));
    GenOpt g;
    g.depth = 1 + (int)x.s.draw(3);
    std::vector<E> reuse;
    g.reuse = &reuse;
    std::vector<Sub> subs;
    do {
        E e;
        if(!subs.empty() && x.s.chance(1, 2)) {
            e = clone(subs[x.s.draw(subs.size())].e);
            if(x.s.chance(3, 4)) e = mutate_leaf(x.s, c, e, g);
            if(x.s.chance(1, 4)) { E w = mk(x.s.chance(1, 2) ? AND : OR); w->l = e; w->r = gen_expr(x.s, c, g); e = w; }
            if(x.s.chance(1, 5)) { E w = mk(NOT); w->l = e; e = w; }
        }
        else e = gen_expr(x.s, c, g);
        Sub b = make_subm(x.s, c, ids(subs.size() + 1), e);
        note_sub(x, b);
        subs.push_back(b);
    } while(x.s.more(subs.size(), 5, 14));
    Tree t(c, p.cap, p.part, p.dflt);
    std::vector<std::unique_ptr<Tree>> alone;
    for(auto& b : subs) {
        x.require(t.prepare(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
        alone.emplace_back(new Tree(c));
        x.require(alone.back()->prepare(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
        alone.back()->commit();
    }
    t.commit();
    size_t memo = 0, k = 0;
    bool some = false;
    do {
        Event ev = gen_event(x.s, c, 20);
        std::string et = event_text(c, ev);
        x.note("event " + et);
        Result r = search(t, et);
        std::vector<uint64_t> want;
        for(auto& q : alone) { Result s1 = search(*q, et); want.insert(want.end(), s1.ids.begin(), s1.ids.end()); }
        std::sort(want.begin(), want.end());
        memo += r.memoized;
        x.require(r.ok && r.ids == want, "event " + et + ": alone, the matching expressions are " + ids_text(want) + ", together " + ids_text(r.ids) + "\n  " + diff_text(c, subs, want, r.ids));
        if(!want.empty() && want.size() < subs.size()) some = true;
    } while(x.s.more(++k, 6, 20));
    x.nontrivial = memo > 0 && some;
    if(memo) x.label("memoized results used");
    label_kinds(x, subs);
}

// ------------------------------------------------------------------ C07
static void p_c07(Ctx& x)
{
    Ids ids(x);
    CfgOpt o;
    o.max = 5;
    Config c = gen_config(x.s, o);
    Params p = gen_params(x);
    x.note("config " + config_text(c) + "; " + ptext(p));
    GenOpt g;
    g.depth = (int)x.s.weighted({ 3, 4, 3 });
    g.literals = x.s.chance(1, 4);
    bool hard = x.s.chance(2, 3); // conjunctions match rarely
    std::vector<Sub> subs;
    crowd(x, c, ids, subs, true);
    size_t crowded = subs.size();
    double mean = gen_mean(x);
    if(x.s.chance(1, 12)) { x.note("no expression"); }
    else do {
        E e = gen_expr(x.s, c, g);
        if(hard) { E w = mk(AND); w->l = e; w->r = gen_expr(x.s, c, g); e = mk(AND); e->l = w; e->r = gen_expr(x.s, c, g); }
        Sub b = make_subm(x.s, c, ids(subs.size() + 1), e);
        note_sub(x, b);
        subs.push_back(b);
    } while(x.s.more(subs.size() - crowded, mean, upmost(mean, 100)));
    Tree t(c, p.cap, p.part, p.dflt);
    for(auto& b : subs) x.require(t.prepare(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
    t.commit();
    bool yes = false, no = false;
    size_t k = 0;
    do {
        Event ev = gen_event(x.s, c, 30);
        bool missing = false; // a mandatory attribute
        if(x.s.chance(1, 8)) for(size_t i = 0; i < c.attrs.size(); i++) if(!c.attrs[i].opt && x.s.chance(1, 2)) { ev.v[i] = nullptr; missing = true; }
        std::string et = event_text(c, ev);
        x.note("event " + et);
        Result r = search(t, et);
        x.require(r.ok == !missing, missing ? "search accepted an event without a mandatory attribute" : "search refused a valid event");
        bool ex = betree_exists(t.t, et.c_str());
        betree_event* e = make_event(t, c, ev);
        bool ex2 = betree_exists_with_event(t.t, e);
        bool ex3 = betree_exists_with_event(t.t, e);
        betree_free_event(e);
        bool want = !r.ids.empty();
        (want ? yes : no) = true;
        x.require(ex == want, "event " + et + ": search finds " + ids_text(r.ids) + ", existence (text) is " + str(ex));
        x.require(ex2 == want, "event " + et + ": search finds " + ids_text(r.ids) + ", existence (event object) is " + str(ex2));
        x.require(ex3 == want, "event " + et + ": search finds " + ids_text(r.ids) + ", existence (event object, second time) is " + str(ex3));
    } while(x.s.more(++k, 10, 30));
    x.nontrivial = yes && no;
    if(yes) x.label("answer true");
    if(no) x.label("answer false");
    x.label(subs.size() > (p.dflt ? 3 : p.cap) ? "overflowed" : "single node");
}

// ------------------------------------------------------------------ C08
static void p_c08(Ctx& x)
{
    Ids ids(x);
    CfgOpt o;
    o.max = 6;
    o.wide = false;
    Config c = gen_config(x.s, o);
    Params p = gen_params(x);
    x.note("config " + config_text(c) + "; " + ptext(p));
    GenOpt g;
    g.depth = (int)x.s.weighted({ 3, 4, 3 });
    std::vector<E> reuse;
    if(x.s.chance(1, 2)) g.reuse = &reuse;
    std::vector<Sub> subs;
    double mean = gen_mean(x, false);
    do {
        Sub b = make_subm(x.s, c, ids(subs.size() + 1), gen_expr(x.s, c, g));
        note_sub(x, b);
        subs.push_back(b);
    } while(x.s.more(subs.size(), mean, upmost(mean, 60)));
    Tree t(c, p.cap, p.part, p.dflt);
    for(auto& b : subs) x.require(t.prepare(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
    t.commit();
    bool some = false, differ = false;
    size_t k = 0;
    do {
        Event ev = gen_event(x.s, c, 30);
        std::string et = event_text(c, ev);
        x.note("event " + et);
        Result r = search(t, et);
        x.require(r.ok, "search refused a valid event: " + et);
        if(!r.ids.empty() && r.ids.size() < subs.size()) some = true;
        size_t n = 1 + x.s.draw(3);
        for(size_t i = 0; i < n; i++) {
            EvStyle st;
            st.s = &x.s;
            st.shuffle = x.s.chance(2, 3); st.dups = x.s.chance(1, 2); st.ws = x.s.chance(1, 2); st.nulls = x.s.chance(1, 2); st.casing = x.s.chance(1, 2); st.quotes = x.s.chance(1, 2); st.nested = x.s.chance(1, 2); st.whole = x.s.chance(1, 2);
            std::string v = event_text(c, ev, &st);
            if(v != et) differ = true;
            x.note("  as " + v);
            Result q = search(t, v);
            x.require(q == r, "event " + et + ": " + rtext(r) + "\n  as    " + v + ": " + rtext(q));
        }
        for(int api_variant = 0; api_variant < 2; api_variant++) {
            EvStyle st;
            st.s = &x.s;
            if(api_variant) { st.shuffle = st.dups = st.whole = true; st.casing = false; }
            betree_event* e = make_event(t, c, ev, &st);
            Result q = search_event(t, e);
            betree_free_event(e);
            x.require(q == r, "event " + et + ": " + rtext(r) + "\n  built through the API" + (api_variant ? " (shuffled): " : ": ") + rtext(q));
        }
    } while(x.s.more(++k, 4, 12));
    x.nontrivial = some && differ;
    label_kinds(x, subs);
}

// ------------------------------------------------------------------ C18
static void p_c18(Ctx& x)
{
    Ids ids(x);
    CfgOpt o;
    o.max = 6;
    o.opt_pct = 35;
    Config c = gen_config(x.s, o);
    Params p = gen_params(x);
    x.note("config " + config_text(c) + "; " + ptext(p));
    GenOpt g;
    g.depth = (int)x.s.draw(3);
    std::vector<Sub> subs;
    if(!x.s.chance(1, 10)) do {
        Sub b = make_subm(x.s, c, ids(subs.size() + 1), gen_expr(x.s, c, g));
        note_sub(x, b);
        subs.push_back(b);
    } while(x.s.more(subs.size(), gen_mean(x, false), 60));
    Tree t(c, p.cap, p.part, p.dflt);
    for(auto& b : subs) x.require(t.prepare(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
    t.commit();
    bool ref = false, acc = false;
    size_t k = 0;
    do {
        Event ev = gen_event(x.s, c, 40);
        bool missing = false;
        if(x.s.chance(1, 2)) {
            std::vector<size_t> man;
            for(size_t i = 0; i < c.attrs.size(); i++) if(!c.attrs[i].opt) man.push_back(i);
            if(!man.empty()) {
                size_t one = man[x.s.draw(man.size())];
                ev.v[one] = nullptr;
                missing = true;
                if(x.s.chance(1, 3)) for(auto i : man) if(x.s.chance(1, 4)) ev.v[i] = nullptr;
            }
        }
        EvStyle st;
        st.s = &x.s;
        st.shuffle = x.s.chance(1, 2);
        Config shown = c;
        bool wrong = x.s.chance(1, 6); // a value of another type
        if(wrong) mistype(x.s, shown, ev);
        std::string et = event_text(shown, ev, &st);
        if(missing && !wrong && x.s.chance(1, 3)) { // written as null
            for(size_t i = 0; i < c.attrs.size(); i++)
                if(!c.attrs[i].opt && !ev.v[i]) et = et == "{}" ? "{\"" + c.attrs[i].name + "\": null}" : "{\"" + c.attrs[i].name + "\": null, " + et.substr(1);
        }
        x.note("event " + et + (missing ? "   (a mandatory attribute is missing)" : "") + (wrong ? "   (a value has another type)" : ""));
        (missing || wrong ? ref : acc) = true;
        if(wrong) x.label("value of another type");
        Result r;
        if(x.s.chance(1, 3)) {
            betree_event* e = make_event(t, shown, ev, &st);
            r = search_event(t, e);
            if((missing || wrong) && x.s.chance(1, 2)) {
                x.require(!search_event(t, e).ok, "a refused event was accepted the second time: " + et);
                x.require(!betree_exists_with_event(t.t, e), "a refused event has matches: " + et);
            }
            betree_free_event(e);
        }
        else r = search(t, et);
        if(missing || wrong) {
            x.require(!r.ok, std::string(wrong ? "an event with a value of another type" : "an event without a mandatory attribute") + " was accepted: " + et);
            x.require(r.ids.empty() && r.matched == 0 && r.evaluated == 0 && r.shorted == 0 && r.memoized == 0, "the report of a refused event is not empty: " + rtext(r));
        }
        else {
            x.require(r.ok, "search refused an event with every mandatory attribute: " + et);
            auto want = expected(c, subs, ev);
            x.require(r.ids == want, "event " + et + "\n  " + diff_text(c, subs, want, r.ids));
        }
    } while(x.s.more(++k, 6, 20));
    x.nontrivial = ref && acc;
    if(ref) x.label("refused event");
    if(acc) x.label("accepted event");
}

// ------------------------------------------------------------------ C20
static E canon(const E& e0)
{
    E e = clone(e0);
    std::function<void(const E&)> go = [&](const E& q) {
        if(q->l) go(q->l);
        if(q->r) go(q->r);
        std::sort(q->il.begin(), q->il.end());
        q->il.erase(std::unique(q->il.begin(), q->il.end()), q->il.end());
        std::sort(q->sl.begin(), q->sl.end());
        q->sl.erase(std::unique(q->sl.begin(), q->sl.end()), q->sl.end());
        if((q->k == CMP || q->k == EQ) && q->isf) q->f.txt = str(q->f.val() < 0 ? -q->f.val() : q->f.val());
    };
    go(e);
    return e;
}
static void parts(const Config& c, const E& e, std::multiset<std::string>& out)
{
    out.insert(text(c, *e));
    if(e->l) parts(c, e->l, out);
    if(e->r) parts(c, e->r, out);
}
static void p_c20(Ctx& x)
{
    Ids ids(x);
    CfgOpt o;
    o.max = 6;
    Config c = gen_config(x.s, o);
    Params p = gen_params(x);
    if(!p.dflt && x.s.chance(1, 3)) p.cap = 200;
    x.note("config " + config_text(c) + "; " + ptext(p));
    GenOpt g;
    g.depth = (int)x.s.weighted({ 3, 4, 3 });
    bool distinct = x.s.chance(1, 2);
    std::vector<E> reuse;
    if(!distinct && x.s.chance(1, 2)) g.reuse = &reuse;
    std::vector<Sub> subs;
    std::multiset<std::string> all;
    if(!distinct) crowd(x, c, ids, subs, false);
    size_t crowded = subs.size();
    double mean = gen_mean(x);
    do {
        E e = gen_expr(x.s, c, g);
        if(distinct) { // keep only expressions whose parts are all new
            std::multiset<std::string> ps;
            parts(c, canon(e), ps);
            std::set<std::string> u(ps.begin(), ps.end());
            bool clash = u.size() != ps.size();
            for(auto& q : u) if(all.count(q)) clash = true;
            if(clash) continue;
            all.insert(ps.begin(), ps.end());
        }
        Sub b = make_subm(x.s, c, ids(subs.size() + 1), e);
        note_sub(x, b);
        subs.push_back(b);
    } while(x.s.more(subs.size() - crowded, mean, upmost(mean, 100)));
    Tree t(c, p.cap, p.part, p.dflt);
    for(auto& b : subs) x.require(t.prepare(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
    t.commit();
    size_t cap = p.dflt ? 3 : p.cap;
    bool some = false, pruned = false, shrt = false, memo = false;
    size_t k = 0;
    report* keep = make_report();
    free_report(keep);
    do {
        int undef = x.s.chance(1, 2) ? 0 : 50;
        Event ev = gen_event(x.s, c, undef);
        bool full = true;
        for(auto& v : ev.v) if(!v) full = false;
        std::string et = event_text(c, ev);
        x.note("event " + et);
        Result r = search(t, et);
        std::string m = "event " + et + ": " + rtext(r) + " of " + str(subs.size()) + " expressions";
        auto want = expected(c, subs, ev);
        x.require(r.matched == want.size(), m + "; " + str(want.size()) + " match");
        x.require(r.evaluated >= r.matched, m + "; evaluated less than matched");
        x.require(r.evaluated <= subs.size(), m + "; evaluated more than inserted");
        if(subs.size() <= cap) x.require(r.evaluated == subs.size(), m + "; a tree of one node evaluates every expression");
        x.require(r.shorted <= r.evaluated, m + "; short circuits exceed evaluations");
        if(full) x.require(r.shorted == 0, m + "; short circuit although every attribute is defined");
        if(distinct) x.require(r.memoized == 0, m + "; memoized although no part is shared");
        if(r.evaluated > 0 && r.evaluated < subs.size()) pruned = true;
        if(r.shorted) shrt = true;
        if(r.memoized) memo = true;
        if(r.evaluated > r.matched && r.matched > 0) some = true;
    } while(x.s.more(++k, 6, 20));
    x.nontrivial = some;
    if(pruned) x.label("partitioned tree skipped expressions");
    if(shrt) x.label("short circuits reported");
    if(memo) x.label("memoized results reported");
    if(subs.size() <= cap) x.label("one node");
    if(distinct) x.label("no shared part");
}

// ------------------------------------------------------------------ C24
static void p_c24(Ctx& x)
{
    bool direct = x.s.chance(1, 2);
    CfgOpt o;
    o.max = 4;
    o.min = 1;
    Config c = gen_config(x.s, o);
    Params p;
    p.dflt = x.s.chance(1, 3);
    if(!p.dflt) { p.cap = 1 + x.s.draw(4); p.part = x.s.draw(3); }
    x.note("config " + config_text(c) + "; " + ptext(p) + (direct ? "; direct" : "; prepared"));
    GenOpt g;
    g.in_domain = direct;
    g.depth = (int)x.s.weighted({ 5, 4, 2 });
    uint64_t nid = 1 + x.s.draw(4);
    bool huge = x.s.chance(1, 6);
    std::vector<Sub> subs;
    double mean = gen_mean(x);
    do {
        E e = !subs.empty() && x.s.chance(1, 10) ? clone(subs[x.s.draw(subs.size())].e) : gen_expr(x.s, c, g);
        uint64_t id = 1 + x.s.draw(nid);
        if(huge) id = UINT64_MAX - id;
        Sub b = make_subm(x.s, c, id, e);
        note_sub(x, b);
        subs.push_back(b);
    } while(x.s.more(subs.size(), mean, upmost(mean, 120)));
    Tree t(c, p.cap, p.part, p.dflt);
    bool some = false, pruned = false;
    for(auto& b : subs) {
        if(direct) x.require(t.insert(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
        else x.require(t.prepare(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
    }
    t.commit();
    check_events(x, t, c, subs, 8, 25, some, pruned);
    x.nontrivial = some && subs.size() > nid;
    x.label(subs.size() > (p.dflt ? 3 : p.cap) ? "overflowed" : "single node");
}

// ------------------------------------------------------------------ C27
static void p_c27(Ctx& x)
{
    Ids ids(x);
    int nt = 1 + (int)x.s.draw(3);
    struct One { Config c; std::vector<Sub> subs; std::unique_ptr<Tree> t; std::vector<Event> evs; std::vector<betree_event*> objs; std::vector<Result> first; std::vector<bool> seen; Params p; size_t base = 0; };
    std::vector<One> ts((size_t)nt);
    bool same_cfg = x.s.chance(1, 2);
    struct Guard { std::vector<One>& v; ~Guard() { for(auto& o : v) for(auto* e : o.objs) betree_free_event(e); } } guard { ts };
    for(int i = 0; i < nt; i++) {
        One& q = ts[(size_t)i];
        CfgOpt o;
        o.max = 5;
        if(i > 0 && same_cfg) q.c = ts[0].c;
        else q.c = gen_config(x.s, o);
        q.p = gen_params(x);
        x.note("tree " + str(i) + ": config " + config_text(q.c) + "; " + ptext(q.p));
        GenOpt g;
        g.depth = (int)x.s.weighted({ 3, 4, 3 });
        std::vector<E> reuse;
        if(x.s.chance(1, 2)) g.reuse = &reuse;
        double mean = gen_mean(x, false);
        do {
            Sub b = make_subm(x.s, q.c, ids(q.subs.size() + 1), gen_expr(x.s, q.c, g));
            note_sub(x, b);
            q.subs.push_back(b);
        } while(x.s.more(q.subs.size(), mean, upmost(mean, 50)));
        q.t.reset(new Tree(q.c, q.p.cap, q.p.part, q.p.dflt));
    }
    // preparation and insertion interleaved between the trees
    size_t longest = 0;
    for(auto& q : ts) longest = std::max(longest, q.subs.size());
    for(size_t j = 0; j < longest; j++) for(auto& q : ts) if(j < q.subs.size()) x.require(q.t->prepare(q.subs[j].id, q.subs[j].text, q.subs[j].k), "a well-typed expression was refused: " + q.subs[j].text);
    for(auto& q : ts) {
        q.t->commit();
        q.base = q.subs.size();
        size_t n = 1 + x.s.draw(4);
        for(size_t i = 0; i < n; i++) { q.evs.push_back(gen_event(x.s, q.c, 25)); q.objs.push_back(nullptr); q.first.push_back(Result()); q.seen.push_back(false); }
    }
    bool some = false, again = false, grew = false;
    bool grow = x.s.chance(1, 2);
    size_t k = 0;
    do {
        size_t ti = x.s.draw(ts.size());
        One& q = ts[ti];
        if(grow && x.s.chance(1, 6)) { // the tree gets another expression, often about what an event has
            GenOpt g;
            g.depth = 1;
            E e;
            const Event& ev = q.evs[x.s.draw(q.evs.size())];
            std::vector<size_t> strs;
            for(size_t i = 0; i < q.c.attrs.size(); i++) if(ev.v[i] && q.c.attrs[i].cnt == SIZE_MAX && (q.c.attrs[i].t == T_STR || (q.c.attrs[i].t == T_SL && !ev.v[i]->sl.empty()))) strs.push_back(i);
            if(!strs.empty() && x.s.chance(3, 4)) {
                size_t i = x.s.pick(strs);
                bool list = q.c.attrs[i].t == T_SL;
                const Val& v = *ev.v[i];
                if(list && x.s.chance(1, 2)) { e = mk(LST); e->op = (int)x.s.draw(3); do e->sl.push_back(x.s.pick(v.sl)); while(x.s.more(e->sl.size(), 2, 6)); }
                else { e = mk(list ? SETL : EQ); e->s = list ? x.s.pick(v.sl) : v.s; e->neg = x.s.chance(1, 4); }
                e->iss = true;
                e->a = (int)i;
            }
            else e = gen_expr(x.s, q.c, g);
            Sub b = make_subm(x.s, q.c, ids(q.subs.size() + 1), e);
            x.note("tree " + str(ti) + " gets " + str(b.id) + ": " + b.text);
            x.require(q.t->prepare(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
            q.t->commit();
            q.subs.push_back(b);
            for(size_t i = 0; i < q.seen.size(); i++) q.seen[i] = false;
            grew = true;
            continue;
        }
        size_t ei = x.s.draw(q.evs.size());
        std::string et = event_text(q.c, q.evs[ei]);
        size_t how = x.s.weighted({ 4, 3, 1, 1 });
        static const char* hn[] = { "search text", "search event object", "exists text", "exists event object" };
        x.note("tree " + str(ti) + " event " + et + " " + hn[how]);
        if(how == 1 || how == 3) if(!q.objs[ei]) q.objs[ei] = make_event(*q.t, q.c, q.evs[ei]);
        if(how == 2) { bool r = betree_exists(q.t->t, et.c_str()); if(q.seen[ei]) x.require(r == !q.first[ei].ids.empty(), "existence query of event " + et + " changed its answer"); continue; }
        if(how == 3) { bool r = betree_exists_with_event(q.t->t, q.objs[ei]); if(q.seen[ei]) x.require(r == !q.first[ei].ids.empty(), "existence query of event object " + et + " changed its answer"); continue; }
        Result r = how == 0 ? search(*q.t, et) : search_event(*q.t, q.objs[ei]);
        x.require(r.ok, "search refused a valid event");
        if(!q.seen[ei]) {
            q.seen[ei] = true;
            q.first[ei] = r;
            auto want = expected(q.c, q.subs, q.evs[ei]);
            x.require(r.ids == want, "tree " + str(ti) + " event " + et + "\n  " + diff_text(q.c, q.subs, want, r.ids));
            if(!r.ids.empty() && r.ids.size() < q.subs.size()) some = true;
        }
        else {
            again = true;
            x.require(r == q.first[ei], "tree " + str(ti) + " event " + et + ": first " + rtext(q.first[ei]) + ", later " + rtext(r));
        }
    } while(x.s.more(++k, 12, 60));
    // against a fresh tree that only ever sees one event
    for(auto& q : ts) {
        std::vector<size_t> did;
        for(size_t i = 0; i < q.evs.size(); i++) if(q.seen[i]) did.push_back(i);
        if(did.empty()) continue;
        size_t ei = did[x.s.draw(did.size())];
        Tree f(q.c, q.p.cap, q.p.part, q.p.dflt);
        for(size_t j = 0; j < q.subs.size(); j++) {
            f.prepare(q.subs[j].id, q.subs[j].text, q.subs[j].k);
            if(j + 1 >= q.base) f.commit();
        }
        Result r = search(f, event_text(q.c, q.evs[ei]));
        x.require(r == q.first[ei], "event " + event_text(q.c, q.evs[ei]) + ": " + rtext(q.first[ei]) + " in the tree searched before, " + rtext(r) + " in a fresh one");
    }
    x.nontrivial = some && again;
    if(grew) x.label("insertions in between");
    x.label(str(nt) + (nt > 1 ? " trees" : " tree"));
}

// ------------------------------------------------------------------ C33
static void spell(Src& s, std::string& n)
{
    switch(s.draw(4)) {
        case 0: for(auto& ch : n) if(ch >= 'a' && ch <= 'z' && s.chance(1, 3)) ch = (char)(ch - 32); break;
        case 1: for(auto& ch : n) if(ch >= 'a' && ch <= 'z') ch = (char)(ch - 32); break;
        case 2: if(n[0] >= 'a' && n[0] <= 'z') n[0] = (char)(n[0] - 32); break;
        default: break;
    }
}
static void p_c33(Ctx& x)
{
    Ids ids(x);
    bool direct = x.s.chance(1, 2);
    CfgOpt o;
    o.max = 5;
    Config c = gen_config(x.s, o);
    bool upper = false;
    std::string decls;
    for(auto& a : c.attrs) {
        a.decl = a.name;
        spell(x.s, a.decl);
        if(a.decl != a.name) upper = true;
        decls += (decls.empty() ? "" : ", ") + a.decl;
    }
    Params p = gen_params(x);
    x.note("config " + config_text(c) + "; declared as " + decls + "; " + ptext(p) + (direct ? "; direct" : "; prepared"));
    GenOpt g;
    g.in_domain = direct;
    g.depth = (int)x.s.weighted({ 4, 4, 3 });
    std::vector<E> reuse;
    if(x.s.chance(1, 2)) g.reuse = &reuse;
    Style st;
    st.s = &x.s;
    st.casing = true;
    std::vector<Sub> subs;
    double mean = gen_mean(x, false);
    do {
        Sub b = make_subm(x.s, c, ids(subs.size() + 1), gen_expr(x.s, c, g), x.s.chance(2, 3) ? &st : nullptr);
        note_sub(x, b);
        subs.push_back(b);
    } while(x.s.more(subs.size(), mean, upmost(mean, 60)));
    Tree t(c, p.cap, p.part, p.dflt);
    for(size_t i = 0; i < c.attrs.size(); i++) {
        auto d = betree_get_variable_definition(t.t, i);
        x.require(d.name && c.attrs[i].decl == d.name, "attribute " + str(i) + " declared as " + c.attrs[i].decl + " is reported as " + (d.name ? d.name : "nothing"));
    }
    for(auto& b : subs) {
        if(direct) x.require(t.insert(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
        else x.require(t.prepare(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
    }
    t.commit();
    bool some = false;
    size_t k = 0;
    do {
        Event ev = gen_event(x.s, c, 25);
        EvStyle es;
        es.s = &x.s;
        es.casing = x.s.chance(2, 3);
        std::string et = event_text(c, ev, &es);
        x.note("event " + et);
        auto want = expected(c, subs, ev);
        if(!want.empty() && want.size() < subs.size()) some = true;
        Result r = search(t, et);
        x.require(r.ok, "search refused a valid event: " + et);
        x.require(r.ids == want, "event " + et + "\n  " + diff_text(c, subs, want, r.ids));
        betree_event* e = make_event(t, c, ev, &es);
        Result q = search_event(t, e);
        bool ex = betree_exists_with_event(t.t, e);
        betree_free_event(e);
        x.require(q == r, "event " + et + ": " + rtext(r) + "\n  built through the API: " + rtext(q));
        x.require(ex == !want.empty() && betree_exists(t.t, et.c_str()) == ex, "existence of a match for " + et + " should be " + str(!want.empty()));
        if(x.s.chance(1, 4)) { // a mandatory attribute missing, in any spelling of the others
            for(size_t i = 0; i < c.attrs.size(); i++) if(!c.attrs[i].opt) {
                Event m = ev;
                m.v[i] = nullptr;
                std::string mt = event_text(c, m, &es);
                x.require(!search(t, mt).ok, "an event without the mandatory " + c.attrs[i].decl + " was accepted: " + mt);
                break;
            }
        }
    } while(x.s.more(++k, 5, 15));
    x.nontrivial = some && upper;
    if(c.find("now") >= 0 || c.find("latitude") >= 0) x.label("reserved attribute names");
    if(upper) x.label("declared with capitals");
}

// ------------------------------------------------------------------ registration
// ------------------------------------------------------------------ C37
static void p_c37(Ctx& x)
{
    Ids ids(x);
    bool direct = x.s.chance(1, 2);
    CfgOpt o;
    o.max = 5;
    Config all = gen_config(x.s, o);
    // any order of declaration
    for(size_t i = 1; i < all.attrs.size(); i++) std::swap(all.attrs[i], all.attrs[x.s.draw(i + 1)]);
    Params p = gen_params(x);
    x.note("attributes " + config_text(all) + "; " + ptext(p) + (direct ? "; direct" : "; prepared"));
    Config none, c; // c: what is declared so far
    Tree t(none, p.cap, p.part, p.dflt);
    struct Kept { // an event object made before some declarations
        Event ev;
        betree_event* e;
        size_t made;
        ~Kept() { betree_free_event(e); }
    };
    std::vector<std::unique_ptr<Kept>> kept;
    size_t fillers = 0, filled_after = 0, declared_after = 0;
    auto declare = [&]() {
        Attr a = all.attrs[c.attrs.size()];
        x.note("declare " + a.name);
        t.add(a);
        c.attrs.push_back(a);
    };
    auto fill = [&](size_t n) {
        if(n == 0) return;
        x.note("declare " + str(n) + " attributes that nothing uses, zz" + str(fillers) + "..");
        for(; n > 0; n--) {
            std::string nm = "zz" + str(fillers++);
            if(fillers % 2) betree_add_integer_variable(t.t, nm.c_str(), true, 0, 9);
            else betree_add_boolean_variable(t.t, nm.c_str(), true);
        }
    };
    GenOpt g;
    g.in_domain = direct;
    g.depth = (int)x.s.weighted({ 4, 4, 2 });
    std::vector<E> reuse;
    if(x.s.chance(1, 2)) g.reuse = &reuse;
    std::vector<Sub> subs, held;
    std::vector<size_t> known; // attributes there were when each was inserted
    double mean = gen_mean(x);
    bool some = false;
    size_t steps = 0;
    uint64_t next = 1;
    static const std::vector<size_t> first = { 0, 1, 5, 58, 60, 61, 62, 63, 64, 122, 126 };
    static const std::vector<size_t> many = { 1, 2, 64, 3, 60, 65, 130 };
    fill(first[x.s.weighted({ 6, 2, 1, 1, 1, 1, 2, 2, 1, 1, 1 })]);
    declare();
    do {
        size_t op = x.s.weighted({ 6, 4, 2, 1, 1, kept.empty() ? 0u : 1u });
        if(op == 2 && c.attrs.size() == all.attrs.size()) op = 3;
        if(op == 2) { if(!subs.empty()) declared_after++; declare(); }
        else if(op == 3) {
            size_t n = x.s.pick(many);
            if(fillers + n > 400) continue;
            if(!subs.empty()) filled_after += n;
            fill(n);
        }
        else if(op == 4) {
            std::string nm = c.attrs.size() < all.attrs.size() ? all.attrs[c.attrs.size()].name : "zz" + str(fillers);
            std::string tx = "not (?" + nm + ")";
            x.note("refused: " + tx);
            x.require(!(direct ? t.insert(9999, tx) : t.prepare(9999, tx)), "an expression over an attribute not declared yet was accepted: " + tx);
        }
        else if(op == 5) {
            Kept& q = *x.s.pick(kept);
            q.ev.v.resize(c.attrs.size());
            std::string et = event_text(c, q.ev) + ", an object made when there were " + str(q.made) + " attributes";
            x.note("event " + et);
            bool lacks = false;
            for(size_t i = 0; i < c.attrs.size(); i++) lacks |= !c.attrs[i].opt && !q.ev.v[i];
            Result r = search_event(t, q.e);
            x.require(r.ok == !lacks, lacks ? "an event without a mandatory attribute was searched: " + et : "search refused a valid event: " + et);
            if(lacks) continue;
            auto want = expected(c, subs, q.ev);
            x.require(r.ids == want, "event " + et + "\n  " + diff_text(c, subs, want, r.ids));
            x.label("event object older than a declaration");
        }
        else if(op == 0) {
            Sub b = make_subm(x.s, c, ids(next++), gen_expr(x.s, c, g));
            note_sub(x, b);
            x.require(direct ? t.insert(b.id, b.text, b.k) : t.prepare(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
            held.push_back(b);
            if(direct || x.s.chance(2, 3)) {
                if(!direct) x.note("  insert what is prepared");
                t.commit();
                for(auto& h : held) { subs.push_back(h); known.push_back(c.attrs.size() + fillers); }
                held.clear();
            }
        }
        else {
            Event ev = gen_event(x.s, c, 30);
            std::string et = event_text(c, ev);
            x.note("event " + et);
            auto want = expected(c, subs, ev);
            Result r;
            if(x.s.chance(1, 3)) {
                betree_event* e = make_event(t, c, ev);
                r = search_event(t, e);
                kept.push_back(std::make_unique<Kept>());
                kept.back()->ev = ev;
                kept.back()->e = e;
                kept.back()->made = c.attrs.size() + fillers;
            }
            else r = search(t, et);
            x.require(r.ok, "search refused a valid event: " + et);
            x.require(r.ids == want, "event " + et + "\n  " + diff_text(c, subs, want, r.ids));
            x.require(betree_exists(t.t, et.c_str()) == !want.empty(), "existence of a match for " + et + " should be " + str(!want.empty()));
            if(!want.empty() && want.size() < subs.size()) for(size_t k : known) if(k < c.attrs.size() + fillers) some = true;
        }
    } while(x.s.more(++steps, mean * 2, upmost(mean, 200)));
    // with everything declared: as a tree that had all of it from the start
    while(c.attrs.size() < all.attrs.size()) { if(!subs.empty()) declared_after++; declare(); }
    t.commit();
    for(auto& h : held) subs.push_back(h);
    Tree u(all, p.cap, p.part, p.dflt);
    for(auto& b : subs) x.require(direct ? u.insert(b.id, b.text, b.k) : u.prepare(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
    u.commit();
    for(int k = 0; k < 3; k++) {
        Event ev = gen_event(x.s, c, 30);
        std::string et = event_text(c, ev);
        x.note("event " + et);
        auto want = expected(c, subs, ev);
        Result r = search(t, et), v = search(u, et);
        x.require(r.ok && r.ids == want, "at the end, event " + et + "\n  " + diff_text(c, subs, want, r.ids));
        x.require(v.ok && v.ids == want, "with all declared first, event " + et + "\n  " + diff_text(c, subs, want, v.ids));
        if(!want.empty() && want.size() < subs.size()) for(size_t q : known) if(q < c.attrs.size() + fillers) some = true;
    }
    x.nontrivial = some;
    if(declared_after) x.label("used attribute declared late");
    if(filled_after >= 60) x.label("many declared late");
    x.label(subs.size() > (p.dflt ? 3 : p.cap) ? "overflowed" : "single node");
}

static std::vector<Property> props()
{
    std::vector<Property> v;
    CfgFn aopt = [](betree* t) { betree_add_integer_variable(t, "a", true, 0, 10); betree_add_boolean_variable(t, "b", true); };
    CfgFn caps = [](betree* t) { betree_add_frequency_caps_variable(t, "frequency_caps", true); betree_add_integer_variable(t, "now", true, INT64_MIN, INT64_MAX); };
    CfgFn ib = [](betree* t) { betree_add_integer_variable(t, "i", false, 0, 10); betree_add_boolean_variable(t, "b", false); };
    Consts fl; fl.has[3] = true; fl.v[3] = 7;
    auto flt = [](double lo, double hi) { return [=](betree* t) { betree_add_float_variable(t, "f", false, lo, hi); }; };

    v.push_back({ "C01", "random configuration, 1..150 expressions of every kind (now and then after some hundreds or thousands of copies of one), prepared and inserted, then about 6 events (in and out of domain, optional attributes missing); ids compared with the reference evaluator. Non-trivial: in some event at least one expression matched and at least one did not.", 90000, 3000000, p_c01,
        Regs { { "not over and with null test", [=](Ctx& x) { reg_case(x, aopt, { "not (a is null and a = 0)" }, { { "{}", { 1 } }, { "{\"a\": 0}", { 1 } } }); } },
               // counts that 16 bits do not hold
               { "the smallest integer", [=](Ctx& x) {
                   for(bool d : { false, true }) reg_case(x, [](betree* t) { betree_add_integer_variable(t, "i", true, INT64_MIN, INT64_MAX); betree_add_integer_variable(t, "k", true, 0, 10); betree_add_integer_list_variable(t, "l", true, INT64_MIN, INT64_MAX); },
                       { "i = -9223372036854775808", "i < -9223372036854775807", "i > -9223372036854775808", "not (i > -9223372036854775808)", "k < -9223372036854775808", "not (k >= -9223372036854775808)", "l one of (-9223372036854775808, 5)", "i in (-9223372036854775808)" },
                       { { "{\"i\": -9223372036854775808, \"k\": 3, \"l\": [-9223372036854775808]}", { 1, 2, 4, 7, 8 } }, { "{\"i\": -9223372036854775807, \"k\": 0, \"l\": [-9223372036854775807]}", { 3 } } }, d, 1);
               } },
               { "more than 65536 different tests", [=](Ctx& x) {
                   std::vector<std::string> e;
                   for(int c = 0; c < 9; c++) { std::string q; for(int k = 0; k < 8000; k++) q += (k ? " or i = " : "i = ") + str(c * 8000 + k); e.push_back(q); }
                   e.push_back("i = 66000"); e.push_back("i = 464"); e.push_back("not (i = 71999)");
                   many_case(x, [](betree* t) { betree_add_integer_variable(t, "i", false, INT64_MIN, INT64_MAX); }, e, { { "{\"i\": 66000}", { 9, 10, 12 } }, { "{\"i\": 464}", { 1, 11, 12 } }, { "{\"i\": 71999}", { 9 } }, { "{\"i\": 72000}", { 12 } } });
               } },
               { "thousands of strings", [=](Ctx& x) {
                   std::string q;
                   for(int k = 0; k < 5000; k++) q += (k ? ",'s" : "'s") + str(k) + "'";
                   many_case(x, [](betree* t) { betree_add_string_variable(t, "s", false, SIZE_MAX); betree_add_string_list_variable(t, "l", false, SIZE_MAX); }, { "s in (" + q + ")", "s = 's4900'", "s = 's464'", "s not in (" + q + ")", "l one of (" + q + ")", "l all of ('s4999', 's0')", "l none of ('s464')" },
                       { { "{\"s\": \"s4900\", \"l\": [\"s4900\"]}", { 1, 2, 5, 7 } }, { "{\"s\": \"s464\", \"l\": [\"s464\"]}", { 1, 3, 5 } }, { "{\"s\": \"s5000\", \"l\": [\"s0\", \"s4999\"]}", { 4, 5, 6, 7 } } });
               } },
               { "thousands of enum values", [=](Ctx& x) {
                   std::string q;
                   for(int k = 0; k < 5000; k++) q += (k ? " or e = " : "e = ") + str(k);
                   many_case(x, [](betree* t) { betree_add_integer_enum_variable(t, "e", false, SIZE_MAX); }, { q, "e = 4900", "e = 964", "e <> 964" },
                       { { "{\"e\": 4900}", { 1, 2, 4 } }, { "{\"e\": 964}", { 1, 3 } }, { "{\"e\": 5000}", { 4 } } });
               } } }, 0.3, 40, {} });
    v.push_back({ "C02", "random history of insertions (direct; direct, prepared and announced mixed; prepared one at a time), refused insertions and searches, up to 240 steps; every search compared with the reference evaluator over the expressions accepted so far, and every event searched again at the end. Non-trivial: a search separating matching from non-matching expressions happened before and after a later insertion.", 70000, 2500000, p_c02,
        Regs { { "largest integer announced after others", [=](Ctx& x) {
            auto e = rep(12, "a < 0"); e[1] = "a < 2"; e[10] = "a <= 9223372036854775807"; e[11] = "a >= 0";
            Config none; Tree t(none, 3, 0, false);
            betree_add_integer_variable(t.t, "a", false, INT64_MIN, INT64_MAX);
            for(size_t i = 0; i < e.size(); i++) {
                if(i == 1 || i == 2 || i == 10 || i == 11) { t.prepare(i + 1, e[i]); t.commit(); }
                else t.insert(i + 1, e[i]);
            }
            Result r = search(t, "{\"a\": 1}");
            x.require(r.ids == std::vector<uint64_t> { 2, 11, 12 }, "a = 1 finds " + ids_text(r.ids));
        } } }, 0.2, 40, {} });
    v.push_back({ "C03", "one expression set organised in 2..4 trees (capacity 1..200, partition size 0..5, permuted, direct or prepared, subsets); the same events must find the same ids in all (restricted to the subset). Non-trivial: some event separates the expressions.", 45000, 1600000, p_c03, Regs {}, 0.2, 40, {} });
    v.push_back({ "C04", "1..200 optional attributes (sizes around 64, 128, 192), expressions with null tests nested in not/and/or up to depth 5 and not/not/not on top, events leaving out 30..100 percent of the attributes; ids and existence compared with two-valued reference evaluation. Non-trivial: some event leaves out an attribute that some expression uses.", 90000, 3000000, p_c04,
        Regs { { "not over and with null test", [=](Ctx& x) { reg_case(x, aopt, { "not (a is null and a = 0)", "not (a is not null or b)", "not (not a is null or a = 0)" }, { { "{}", { 1, 2, 3 } }, { "{\"a\": 0, \"b\": true}", { 1 } } }); } },
               { "frequency cap without now", [=](Ctx& x) { reg_case(x, caps, { "within_frequency_cap(\"flight\", \"ns\", 1, 10)", "not within_frequency_cap(\"flight\", \"ns\", 1, 10)" }, { { "{\"frequency_caps\": []}", { 1 } }, { "{\"now\": 1}", { 2 } }, { "{}", { 2 } } }, false, 3, 0, fl); } } }, 0.3, 40, {} });
    v.push_back({ "C05", "one main attribute (every type; integer and float domains of small, odd, unsplittable, wide, unbounded and extreme widths), 1..200 expressions on it, capacity 1..4 or default, direct or prepared; events take every value in and around the domain (or every pool value and its neighbours). Non-trivial: partitioning skipped expressions and some event separates them.", 50000, 1800000, p_c05,
        Regs { { "negated conjunction", [=](Ctx& x) { for(bool d : { false, true }) reg_case(x, ib, rep(8, "not (i < 5 and b)"), { { "{\"i\": 2, \"b\": false}", upto(8) }, { "{\"i\": 2, \"b\": true}", {} }, { "{\"i\": 7, \"b\": true}", upto(8) } }, d, 1); } },
               { "float domain of width 1.5", [=](Ctx& x) { for(bool d : { false, true }) reg_case(x, flt(0, 1.5), { "f = 0.0", "f = 0.1", "f = 0.2", "f = 0.3", "f = 0.4", "f < 1.0", "f > 1.0", "f = 1.5" }, { { "{\"f\": 0.3}", { 4, 6 } }, { "{\"f\": 1.5}", { 7, 8 } } }, d, 1); } },
               { "float domain of width 0.5", [=](Ctx& x) { for(bool d : { false, true }) reg_case(x, flt(0, 0.5), { "f = 0.0", "f = 0.1", "f = 0.2", "f = 0.3", "f = 0.4", "f < 1.0", "f > 1.0", "f = 0.5" }, { { "{\"f\": 0.3}", { 4, 6 } }, { "{\"f\": 0.5}", { 6, 8 } } }, d, 1); } },
               { "float within the equality tolerance", [=](Ctx& x) { for(bool d : { false, true }) reg_case(x, flt(0, 1), rep(6, "f = 1.0"), { { "{\"f\": 0.9999999999999999}", upto(6) }, { "{\"f\": 0.5}", {} } }, d, 3); } },
               { "nearly full integer domain", [=](Ctx& x) { for(bool d : { false, true }) reg_case(x, [](betree* t) { betree_add_integer_variable(t, "i", false, INT64_MIN, INT64_MAX - 1); }, { "i = 0", "i = 1", "i = 2", "i > 3", "i < 100", "i = 9223372036854775806" }, { { "{\"i\": 1}", { 2, 5 } }, { "{\"i\": 9223372036854775806}", { 4, 6 } } }, d, 1); } } }, 0.2, 40, {} });
    v.push_back({ "C06", "2..14 expressions made of reused and slightly changed sub-expressions (operator, constant, list, attribute, entity constant changed), in one tree; the matching set must be the union of what each finds alone in a tree of its own. Non-trivial: memoized results were used and some event separates the expressions.", 60000, 2000000, p_c06, Regs {}, 0.1, 40, {} });
    v.push_back({ "C07", "random trees (0..100 expressions, mostly conjunctions that match rarely; now and then after up to 4200 that never match), about 10 events each; existence by text and by event object must be true exactly when the search finds an id. Non-trivial: both answers occurred in the case.", 50000, 1800000, p_c07, Regs {}, 0.15, 40, {} });
    v.push_back({ "C08", "random trees; each event is presented as text in several shuffled, re-spaced, re-quoted, re-cased variants with repeated list elements and explicit nulls, nested or flat caps, and through the API in order and shuffled; complete reports must be equal. Non-trivial: some event separates the expressions and some variant differs from the plain text.", 60000, 2000000, p_c08, Regs {}, 0.15, 40, {} });
    v.push_back({ "C18", "random trees with mandatory attributes; events complete or with one or more mandatory attributes left out (omitted or written null; text or event object). Non-trivial: both refused and accepted events in the case.", 90000, 3000000, p_c18, Regs {}, 0.1, 40, {} });
    v.push_back({ "C20", "random trees, also of one node, crowded with up to 4200 copies of one expression, and with pairwise distinct parts; counters checked against each other, the reference evaluator and the number of expressions. Non-trivial: some search matched something and evaluated more than it matched.", 70000, 2500000, p_c20, Regs {}, 0.2, 40, {} });
    v.push_back({ "C24", "expressions under 1..4 ids, also near 2^64, direct or prepared, low capacities; the multiset of reported ids compared with the reference evaluator. Non-trivial: ids repeat and some event separates the expressions.", 70000, 2500000, p_c24,
        Regs { { "eight expressions under one id", [=](Ctx& x) {
            for(bool d : { false, true }) {
                Config none; Tree t(none, 1, 0, false);
                betree_add_integer_variable(t.t, "i", false, 0, 10);
                for(int i = 0; i <= 10; i++) { std::string e = "i = " + str(i); if(d) t.insert(1, e); else t.prepare(1, e); }
                t.commit();
                for(int i = 0; i <= 10; i++) { Result r = search(t, "{\"i\": " + str(i) + "}"); x.require(r.ids == std::vector<uint64_t> { 1 }, "i = " + str(i) + " finds " + ids_text(r.ids)); }
            } } } }, 0.2, 40, {} });
    v.push_back({ "C27", "1..3 trees (same or different configurations) prepared interleaved, then up to 60 searches and existence queries by text and by reused event objects, in any order over the trees; in half of the cases with further insertions in between, often naming strings of the events; every repetition between two insertions must give the identical report, the first one the ids of the reference evaluator, and all equal that of a fresh tree that saw only that event. Non-trivial: a search was repeated and separates the expressions.", 50000, 1800000, p_c27, Regs {}, 0.2, 40, {} });
    v.push_back({ "C33", "random configurations whose names are declared with capitals, expressions, event texts and event objects that spell the names in any mixture of case (reserved names included), direct or prepared; reports, existence and refusals compared with the reference evaluator, definitions reported as declared. Non-trivial: some attribute was declared with a capital and some event separates the expressions.", 60000, 2000000, p_c33,
        Regs { { "declared with capitals", [=](Ctx& x) {
            CfgFn cfg = [](betree* t) { betree_add_integer_variable(t, "Age", false, 0, 100); betree_add_string_variable(t, "COUNTRY", true, 3); };
            for(bool d : { false, true }) reg_case(x, cfg, { "Age > 10", "age > 10", "AGE > 10 and country = 'Fr'", "country = 'fr'", "Country is null" }, { { "{\"age\": 20, \"Country\": \"Fr\"}", { 1, 2, 3 } }, { "{\"AGE\": 20}", { 1, 2, 5 } }, { "{\"Age\": 5, \"COUNTRY\": \"fr\"}", { 4 } } }, d);
        } },
        { "reserved names declared with capitals", [=](Ctx& x) {
            CfgFn cfg = [](betree* t) { betree_add_float_variable(t, "Latitude", true, -90, 90); betree_add_float_variable(t, "LONGITUDE", true, -180, 180); betree_add_integer_variable(t, "Now", true, INT64_MIN, INT64_MAX); betree_add_segments_variable(t, "Segments_With_Timestamp", true); betree_add_frequency_caps_variable(t, "FREQUENCY_CAPS", true); };
            reg_case(x, cfg, { "geo_within_radius(10.0, 20.0, 5.0)", "segment_within(1, 20)", "within_frequency_cap(\"flight\", \"ns\", 1, 0)" }, { { "{\"latitude\": 10.0, \"longitude\": 20.0, \"now\": 100, \"segments_with_timestamp\": [[1, 90000000]], \"frequency_caps\": []}", { 1, 2, 3 } }, { "{\"frequency_caps\": [[[\"flight\", 7, \"ns\"], 3, 0]], \"NOW\": 100, \"Latitude\": 10.0, \"Segments_with_timestamp\": [[1, 90000000]]}", { 2 } } }, false, 3, 0, fl);
        } } }, 0.1, 40, {} });
    v.push_back({ "C37", "0..60 expressions (rarely hundreds) inserted directly or prepared and held back, over attributes declared one after the other in any order between the insertions and searches, also next to up to 400 attributes that nothing uses (counts around 64 and 128 preferred). Ids and existence compared with the reference evaluator at every step and at the end also with a tree that had everything declared first; expressions over attributes still undeclared are refused. Non-trivial: an event separates expressions, one of which was inserted before a later declaration.", 60000, 1500000, p_c37,
        Regs { { "hundreds of attributes after the expressions", [](Ctx& x) {
            Config none;
            Tree t(none);
            for(int i = 0; i < 3; i++) betree_add_integer_variable(t.t, ("a" + str(i)).c_str(), true, 0, 100);
            for(int i = 0; i < 20; i++) t.insert((uint64_t)i + 1, "a" + str(i % 3) + " = " + str(i));
            for(int i = 3; i < 200; i++) betree_add_integer_variable(t.t, ("a" + str(i)).c_str(), true, 0, 100);
            for(int i = 0; i < 200; i++) t.insert((uint64_t)i + 100, "a" + str(i) + " = " + str(i % 7));
            Result r = search(t, "{\"a0\": 3, \"a150\": 3}");
            x.require(r.ids == std::vector<uint64_t> { 4, 250 }, "finds " + ids_text(r.ids));
        } } }, 0.2, 120, {} });
    return v;
}

int main(int argc, char** argv) { auto p = props(); return eng::engine_main(argc, argv, p); }

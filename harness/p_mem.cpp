// C21: no history of API calls corrupts or leaks memory; C22: arbitrary text never
// crashes the readers. Built with address and undefined-behaviour sanitizers, and with
// the allocator of the code under test accounted for (see the wrap flags in the Makefile).
#include "account.hpp"
#include "common.hpp"
#include "dump.hpp"
#include "textgen.hpp"
extern "C" {
#include "helper.h"
}
using namespace api;
using namespace tg;

// ------------------------------------------------------------------ C21
struct World {
    Config c;
    Params p;
    std::unique_ptr<Tree> t;
    std::vector<betree_event*> evs; // events built for this tree, still alive
    std::vector<std::string> used;  // expressions already accepted
    std::vector<E> pool;
    uint64_t next = 1;
    size_t ins = 0;
    ~World() {}
};

static void fill(Ctx& x, const Config& c, betree_event* e, const Event& ev)
{
    EvStyle st;
    st.s = &x.s;
    for(size_t i = 0; i < c.attrs.size(); i++)
        if(ev.v[i]) betree_set_variable(e, i, make_var(c.attrs[i], c.attrs[i].name, *ev.v[i]));
        else if(x.s.chance(1, 4)) betree_set_variable(e, i, nullptr);
}
static Event any_event(Ctx& x, World& w)
{
    Event ev = gen_event(x.s, w.c, 25);
    if(x.s.chance(1, 4)) // a mandatory attribute is missing
        for(size_t k = 0; k < 3; k++) { size_t i = x.s.draw(w.c.attrs.size()); ev.v[i] = nullptr; }
    return ev;
}
static void loose_values(Ctx& x)
{
    Src& s = x.s;
    switch(s.draw(9)) {
        case 0: { auto l = betree_make_integer_list(s.draw(4)); betree_free_integer_list(l); break; }
        case 1: {
            size_t n = s.draw(4);
            auto l = betree_make_string_list(n);
            for(size_t i = 0; i < n; i++) betree_add_string(l, i, gen_string(s).c_str());
            betree_free_string_list(l);
            break;
        }
        case 2: { betree_free_segment(betree_make_segment((int64_t)s.draw(9), (int64_t)s.draw(9))); break; }
        case 3: {
            size_t n = s.draw(4);
            auto l = betree_make_segments(n);
            for(size_t i = 0; i < n; i++) betree_add_segment(l, i, betree_make_segment((int64_t)i, 3));
            betree_free_segments(l);
            break;
        }
        case 4: {
            if(s.chance(1, 8)) {
                // unknown kinds give nothing
                static const char* odd[] = { "", "flights", "Flight", "campaign", "advertiser:IP", "ip", ":ip", " flight", "product_", "nothing" };
                const char* kind = odd[s.draw(10)];
                for(const char* k : cap_types) if(!strcmp(kind, k)) kind = "nothing";
                auto f = betree_make_frequency_cap(kind, 3, gen_string(s).c_str(), s.chance(1, 2), 2, 1);
                if(f) betree_free_frequency_cap(f);
                break;
            }
            betree_free_frequency_cap(betree_make_frequency_cap(cap_types[s.draw(10)], 3, gen_string(s).c_str(), s.chance(1, 2), 2, 1));
            break;
        }
        case 5: {
            size_t n = s.draw(4);
            auto l = betree_make_frequency_caps(n);
            for(size_t i = 0; i < n; i++) betree_add_frequency_cap(l, i, betree_make_frequency_cap(cap_types[s.draw(10)], 3, gen_string(s).c_str(), s.chance(1, 2), 2, 1));
            betree_free_frequency_caps(l);
            break;
        }
        case 6: { betree_free_constant(betree_make_integer_constant(const_names[s.draw(5)], 7)); break; }
        case 7: {
            size_t n = 1 + s.draw(4);
            std::vector<betree_constant*> k;
            for(size_t i = 0; i < n; i++) k.push_back(betree_make_integer_constant(const_names[s.draw(5)], (int64_t)i));
            betree_free_constants(n, k.data());
            break;
        }
        default: {
            static const char* nm[] = { "a", "B", "" };
            const char* n = nm[s.draw(3)];
            betree_variable* v = nullptr;
            switch(s.draw(8)) {
                case 0: v = betree_make_boolean_variable(n, true); break;
                case 1: v = betree_make_integer_variable(n, -3); break;
                case 2: v = betree_make_float_variable(n, 2.5); break;
                case 3: v = betree_make_string_variable(n, "x"); break;
                case 4: v = betree_make_integer_list_variable(n, betree_make_integer_list(0)); break;
                case 5: { auto l = betree_make_string_list(1); betree_add_string(l, 0, "q"); v = betree_make_string_list_variable(n, l); break; }
                case 6: { auto l = betree_make_segments(1); betree_add_segment(l, 0, betree_make_segment(1, 2)); v = betree_make_segments_variable(n, l); break; }
                default: { auto l = betree_make_frequency_caps(1); betree_add_frequency_cap(l, 0, betree_make_frequency_cap("flight", 1, "ns", true, 2, 3)); v = betree_make_frequency_caps_variable(n, l); }
            }
            betree_free_variable(v);
        }
    }
}

static void new_world(Ctx& x, std::vector<std::unique_ptr<World>>& ws)
{
    auto w = std::make_unique<World>();
    CfgOpt o;
    o.max = 6;
    w->c = gen_config(x.s, o);
    w->p = gen_params(x);
    x.note("tree " + str(ws.size()) + ": " + config_text(w->c) + "; " + ptext(w->p));
    w->t = std::make_unique<Tree>(w->c, w->p.cap, w->p.part, w->p.dflt);
    for(size_t i = 0; i < w->c.attrs.size(); i++) {
        auto d = betree_get_variable_definition(w->t->t, i);
        x.require(d.name != nullptr && lang::lower(d.name) == lang::lower(w->c.attrs[i].name), "definition of another attribute");
    }
    GenOpt g;
    g.depth = 1;
    size_t n = 2 + x.s.draw(4);
    for(size_t i = 0; i < n; i++) w->pool.push_back(gen_leaf(x.s, w->c, g));
    ws.push_back(std::move(w));
}
static void end_world(Ctx& x, World& w)
{
    if(!w.t) return;
    w.t->commit();
    bool ev_first = x.s.chance(1, 2);
    if(ev_first) for(auto e : w.evs) betree_free_event(e);
    w.t.reset();
    if(!ev_first) for(auto e : w.evs) betree_free_event(e);
    w.evs.clear();
}

static void p_c21(Ctx& x)
{
    Balance bal;
    size_t refused = 0, accepted = 0, searches = 0;
    {
        std::vector<std::unique_ptr<World>> ws;
        report* rep = nullptr;
        new_world(x, ws);
        double mean = x.s.chance(1, 3) ? 60 : x.s.chance(1, 2) ? 25 : 8;
        if(x.thorough && x.s.chance(1, 6)) mean = 200;
        size_t n = 0;
        do {
            World& w = *ws[x.s.draw(ws.size())];
            std::string W = ws.size() > 1 ? "tree " + str((size_t)(&w == ws[0].get() ? 0 : 1)) + ": " : "";
            size_t op = w.t ? x.s.weighted({ 10, 6, 4, 3, 2, 2, 2, 1, 1, 1, 1 }) : 7;
            switch(op) {
                case 0: { // a good expression
                    GenOpt g;
                    g.depth = (int)x.s.weighted({ 4, 3, 2, 1 });
                    g.reuse = &w.pool;
                    E e = gen_expr(x.s, w.c, g);
                    Style st;
                    st.s = &x.s;
                    st.casing = st.ws = st.words = st.flip = st.quotes = x.s.chance(1, 3);
                    Sub b = make_subm(x.s, w.c, x.s.chance(1, 8) ? 1 : w.next++, e, &st);
                    if(x.s.chance(1, 6)) b.k = Consts(); // perhaps without its constants
                    size_t reps = x.s.chance(1, 6) ? 1 + x.s.draw(8) : 1;
                    if(x.s.chance(1, 2000)) reps = 200 + x.s.draw(1200);
                    for(size_t r = 0; r < reps; r++) {
                        bool ok;
                        if(x.s.chance(1, 2)) { x.note(W + "insert " + str(b.id) + ": " + b.text); ok = w.t->insert(b.id, b.text, b.k); }
                        else { x.note(W + "prepare " + str(b.id) + ": " + b.text); ok = w.t->prepare(b.id, b.text, b.k); if(ok && x.s.chance(2, 3)) { x.note(W + "insert prepared"); w.t->commit(); } else if(ok && x.s.chance(1, 3)) { x.note(W + "discard it"); free_sub((betree_sub*)w.t->pending.back()); w.t->pending.pop_back(); w.ins--; } }
                        (ok ? accepted : refused)++;
                        if(ok) w.ins++;
                    }
                    break;
                }
                case 1: { // search of a text
                    Event ev = any_event(x, w);
                    Config shown = w.c;
                    if(x.s.chance(1, 8)) mistype(x.s, shown, ev);
                    std::string et = event_text(shown, ev);
                    bool ex = x.s.chance(1, 4), keep = rep && x.s.chance(1, 2);
                    x.note(W + (ex ? "exists " : "search ") + et);
                    if(ex) { Balance b; (void)betree_exists(w.t->t, et.c_str()); b.check(x, "after an existence query"); }
                    else if(!keep && x.s.chance(1, 2)) { Balance b; report* r = make_report(); (void)betree_search(w.t->t, et.c_str(), r); free_report(r); b.check(x, "after a search whose report has been freed"); }
                    else {
                        if(rep && !keep) { free_report(rep); rep = nullptr; }
                        if(!rep) rep = make_report();
                        (void)betree_search(w.t->t, et.c_str(), rep);
                    }
                    searches++;
                    break;
                }
                case 2: { // a new event object
                    if(w.evs.size() > 4) break;
                    betree_event* e = betree_make_event(w.t->t);
                    Event ev = any_event(x, w);
                    Config shown = w.c;
                    if(x.s.chance(1, 8)) mistype(x.s, shown, ev);
                    x.note(W + "make event " + event_text(shown, ev));
                    fill(x, shown, e, ev);
                    w.evs.push_back(e);
                    break;
                }
                case 3: { // use or free an event object
                    if(w.evs.empty()) break;
                    size_t i = x.s.draw(w.evs.size());
                    size_t how = x.s.draw(3);
                    x.note(W + (how == 0 ? "search" : how == 1 ? "exists" : "free") + " event object " + str(i));
                    Balance b; // a repeated element of a list may go, nothing may stay
                    if(how == 0) { report* r = make_report(); (void)betree_search_with_event(w.t->t, w.evs[i], r); free_report(r); searches++; }
                    else if(how == 1) (void)betree_exists_with_event(w.t->t, w.evs[i]);
                    if(how < 2 && g_live > b.live) b.check(x, "after a search of an event object");
                    else { betree_free_event(w.evs[i]); w.evs.erase(w.evs.begin() + (long)i); }
                    break;
                }
                case 4: { // a faulty expression
                    GenOpt g;
                    g.depth = 1;
                    Sub b = make_subm(x.s, w.c, 999, gen_expr(x.s, w.c, g));
                    std::string bad = x.s.chance(1, 2) ? bad_text(x.s, b.text) : bad_leaf(x.s, w.c, true);
                    if(x.s.chance(1, 2)) bad = x.s.chance(1, 2) ? "(" + b.text + ") and " + bad : bad + " or (" + b.text + ")";
                    bool dir = x.s.chance(1, 2);
                    x.note(W + (dir ? "insert " : "prepare ") + bad);
                    bool ok = dir ? w.t->insert(999, bad, b.k) : w.t->prepare(999, bad, b.k);
                    (ok ? accepted : refused)++;
                    break;
                }
                case 5: { // announcements
                    GenOpt g;
                    g.depth = 1;
                    E e = gen_expr(x.s, w.c, g);
                    std::string tx = x.s.chance(1, 4) ? bad_text(x.s, text(w.c, *e)) : text(w.c, *e);
                    x.note(W + "announce " + tx);
                    (void)betree_change_boundaries(w.t->t, tx.c_str());
                    break;
                }
                case 6: x.note("loose values"); loose_values(x); break;
                case 7:
                    if(ws.size() < 2) new_world(x, ws);
                    else if(w.t && x.s.chance(1, 3)) { x.note(W + "free"); end_world(x, w); }
                    break;
                case 9: { // printing
                    GenOpt g;
                    g.depth = (int)x.s.draw(4);
                    std::string tx = text(w.c, *gen_expr(x.s, w.c, g));
                    x.note("print " + tx);
                    Balance b;
                    ast_node* node = nullptr;
                    if(parse(tx.c_str(), &node) == 0) {
                        const char* p = ast_to_string(node);
                        x.require(p != nullptr, "nothing printed");
                        free_ast_node(node);
                        free((char*)p);
                    }
                    b.check(x, "after printing an expression");
                    break;
                }
                case 10:
                    x.note(W + "empty");
                    w.t->commit();
                    empty_tree(w.t->t);
                    w.ins = 0;
                    break;
                default:
                    x.note("free report");
                    if(rep) { free_report(rep); rep = nullptr; }
            }
        } while(x.s.more(++n, mean, 400));
        x.nontrivial = accepted >= 2 && searches >= 1;
        if(refused) x.label("with refusals");
        if(ws.size() > 1) x.label("several trees");
        if(ws[0]->ins > 10) x.label("more than 10 insertions");
        for(auto& w : ws) end_world(x, *w);
        if(rep) free_report(rep);
    }
    bal.check(x, "everything has been freed");
}

// ------------------------------------------------------------------ C22
static std::string bytes(Src& s)
{
    std::string r;
    double mean = s.chance(1, 4) ? 60 : 8;
    while(s.more(r.size(), mean, 3000)) r += (char)(1 + s.draw(255));
    return r;
}
// a text that is long in one way
static std::string huge(Src& s, bool event, const std::string& v)
{
    static const size_t sz[] = { 50, 500, 4000, 9000 };
    size_t n = sz[s.weighted({ 6, 6, 2, 1 })] + s.draw(50);
    std::string r;
    if(event) {
        switch(s.draw(7)) {
            case 0: return "{\"a\": \"" + std::string(n, 'x') + "\"}";
            case 1: r = "{\"a\": ["; for(size_t i = 0; i < n; i++) r += (i ? "," : "") + str(i); return r + "]}";
            case 2: r = "{"; for(size_t i = 0; i < n; i++) r += (i ? ",\"" : "\"") + str(i) + "\": 1"; return r + (s.chance(1, 2) ? "}" : "");
            case 3: return std::string(n, s.chance(1, 2) ? '[' : '{');
            case 4: return "{\"a\": " + std::string(n, '9') + (s.chance(1, 2) ? "}" : ".5}");
            case 5: r = "{\"a\": ["; for(size_t i = 0; i < n; i++) r += (i ? ",[" : "[") + str(i) + ",1]"; return r + "]}";
            default: r = "{\"a\": ["; for(size_t i = 0; i < n; i++) r += (i ? ",\"" : "\"") + str(i) + "\""; return r + (s.chance(1, 2) ? "]}" : "");
        }
    }
    switch(s.draw(8)) {
        case 0: return std::string(n, '(') + v + std::string(n, ')');
        case 1: for(size_t i = 0; i < n; i++) r += "not "; return r + v;
        case 2: for(size_t i = 0; i < n && i < 3000 && r.size() < 60000; i++) r += (i ? (s.chance(1, 2) ? " and " : " or ") : "") + v; return r;
        case 3: r = "a in ("; for(size_t i = 0; i < n; i++) r += (i ? "," : "") + str(i); return r + (s.chance(1, 2) ? ")" : "");
        case 4: r = "a one of ("; for(size_t i = 0; i < n; i++) r += (i ? ",'" : "'") + str(i) + "'"; return r + (s.chance(1, 2) ? ")" : "");
        case 5: return "a = " + std::string(n, '7') + (s.chance(1, 2) ? "" : "." + std::string(n, '3'));
        case 6: return std::string(n, 'a') + " = '" + std::string(n, 'b') + "'";
        default: return std::string(n, '(') + v;
    }
}

static void p_c22(Ctx& x)
{
    Balance bal;
    {
        CfgOpt o;
        o.max = 4;
        Config c = gen_config(x.s, o);
        Attr sen;
        sen.name = "sentinel";
        sen.t = T_INT;
        sen.opt = true;
        sen.ipool = { 1 };
        c.attrs.push_back(sen);
        int si = (int)c.attrs.size() - 1;
        Params p = gen_params(x);
        Tree t(c, p.cap, p.part, p.dflt);
        x.note("config " + config_text(c) + "; " + ptext(p));
        x.require(t.insert(7, "sentinel = 1 and not (sentinel = 2)"), "sentinel refused");
        size_t n = 0;
        bool some = false;
        do {
            bool event = x.s.chance(1, 3);
            size_t how = x.s.weighted({ 20, 20, 15, 10, 10, 1 });
            std::string text;
            Style st;
            st.s = &x.s;
            st.words = st.flip = true;
            st.quotes = st.ws = true;
            GenOpt g;
            g.depth = (int)x.s.weighted({ 3, 3, 2 });
            Consts k;
            for(int i = 0; i < 5; i++) if(x.s.chance(2, 3)) { k.has[i] = true; k.v[i] = (int64_t)x.s.draw(3); }
            if(how == 0 || how == 1) { // altered sentence over the configured attributes, or any sentence
                if(event) {
                    if(how == 0) text = event_text(c, gen_event(x.s, c, 20));
                    else { EvGen e(x.s); e.event(); text = glue(x.s, mutate_tokens(x.s, e.g.t, event_vocab())); }
                }
                else {
                    if(how == 0) text = mdl::text(c, *gen_expr(x.s, c, g), &st);
                    else { Gen e(x.s); e.expr(3, 0); text = glue(x.s, mutate_tokens(x.s, e.t, expr_vocab())); }
                }
                if(how == 0) text = x.s.chance(1, 8) ? text : mutate_text(x.s, text, event ? "{}[],:-\"'12.truefalsn\\ " : "()and or-nt=<>\"'12.,\\ie");
            }
            else if(how == 2) { // truncated
                if(event) { EvGen e(x.s); e.event(); text = glue(x.s, e.g.t); }
                else text = mdl::text(c, *gen_expr(x.s, c, g), &st);
                text.resize(x.s.draw(text.size() + 1));
            }
            else if(how == 3) text = bytes(x.s);
            else if(how == 4) {
                std::vector<std::string> w;
                auto& v = event ? event_vocab() : expr_vocab();
                while(x.s.more(w.size(), 10, 60)) w.push_back(v[x.s.draw(v.size())]);
                text = glue(x.s, w);
            }
            else {
                g.depth = 0;
                text = huge(x.s, event, mdl::text(c, *gen_expr(x.s, c, g)));
            }
            x.note((event ? "event: " : "expression: ") + (text.size() > 3000 ? show(text.substr(0, 200)) + "... (" + str(text.size()) + " bytes)" : show(text)));
            if(how >= 3 || !text.empty()) some = true;
            Balance one;
            if(event) {
                betree_event* e = nullptr;
                if(event_parse(text.c_str(), &e) == 0) free_event(e);
                one.check(x, "reading an event");
                x.checks++;
            }
            else {
                struct ast_node* nd = nullptr;
                if(parse(text.c_str(), &nd) == 0) free_ast_node(nd);
                one.check(x, "reading an expression");
                bool ok = false;
                switch(x.s.draw(4)) {
                    case 0: ok = t.insert(9, text, k); break;
                    case 1: ok = t.prepare(9, text, k); if(ok) t.commit(); break;
                    case 2: (void)betree_change_boundaries(t.t, text.c_str()); break;
                    default: break;
                }
                if(ok) x.label("accepted");
            }
            // the readers still work
            if(x.s.chance(1, 2)) {
                struct ast_node* nd = nullptr;
                x.require(parse("not x and ('v' in y || z >= -2.5)", &nd) == 0, "a good expression is refused afterwards");
                std::string d = dmp::node(nd);
                free_ast_node(nd);
                x.require(d == lang::parse_expr("not x and ('v' in y || z >= -2.5)").dump, "a good expression is misread afterwards: " + d);
            }
            else {
                betree_event* e = nullptr;
                const char* s = "{\"x\": [1, -2], \"y\": ['v'], \"z\": -2.5}";
                x.require(event_parse(s, &e) == 0, "a good event is refused afterwards");
                std::string d = dmp::event(e);
                free_event(e);
                x.require(d == lang::parse_event(s).dump, "a good event is misread afterwards: " + d);
            }
            if(x.s.chance(1, 3)) {
                Event ev = gen_event(x.s, c, 20);
                bool one_ = x.s.chance(1, 2);
                auto v = std::make_shared<Val>();
                v->t = T_INT;
                v->i = one_ ? 1 : 2;
                ev.v[(size_t)si] = v;
                Result r = search(t, event_text(c, ev));
                x.require(r.ok && (size_t)std::count(r.ids.begin(), r.ids.end(), 7) == (one_ ? 1u : 0u), "the search for " + event_text(c, ev) + " is wrong afterwards: " + ids_text(r.ids));
            }
        } while(x.s.more(++n, 4, 30));
        x.nontrivial = some;
    }
    bal.check(x, "everything has been freed");
}

// ------------------------------------------------------------------
static std::vector<eng::Property> props()
{
    std::vector<eng::Property> v;
    auto hist = [](CfgFn cfg, std::vector<std::string> good, std::vector<std::string> bad, std::vector<std::string> evs, bool prep = true, bool dir = true) {
        return [=](Ctx& x) {
            Balance bal;
            {
                Config none;
                for(int d = prep ? 0 : 1; d < (dir ? 2 : 1); d++) {
                    Tree t(none, 3, 0, false);
                    cfg(t.t);
                    Consts k;
                    uint64_t id = 0;
                    for(auto& g : good) { x.note(g); x.require(d ? t.insert(++id, g, k) : t.prepare(++id, g, k), "refused " + g); t.commit(); }
                    for(auto& g : bad) { x.note(g); x.require(!(d ? t.insert(++id, g, k) : t.prepare(++id, g, k)), "accepted " + g); }
                    for(auto& e : evs) { x.note(e); (void)search(t, e); (void)betree_exists(t.t, e.c_str()); }
                }
            }
            bal.check(x, "everything has been freed");
        };
    };
    auto mixed = [](betree* t) { betree_add_integer_variable(t, "i", true, INT64_MIN, INT64_MAX); betree_add_string_variable(t, "s", true, 3); betree_add_string_list_variable(t, "sl", true, SIZE_MAX); betree_add_boolean_variable(t, "m", false); betree_add_frequency_caps_variable(t, "frequency_caps", true); betree_add_integer_variable(t, "now", true, 0, 10); };
    auto lng = [](std::string u, std::string sep, size_t n) { std::string r = u; for(size_t i = 1; i < n; i++) r += sep + u; return r; };
    v.push_back({ "C21", "histories (mean 8 to 60, thorough 200, at most 400 steps) over one or two trees of random configuration: direct and prepared insertions, prepared expressions discarded, repeated ids and texts, faulty expressions, missing constants, announcements, text and object events, events missing mandatory attributes, reused events and reports, loose values, printed expressions, emptied trees, freeing in either order; run under address and undefined-behaviour sanitizers, with every block allocated by the library accounted for. Non-trivial: at least two accepted insertions and one search.", 70000, 2500000, p_c21,
        Regs { { "nearly full domain", hist([](betree* t) { betree_add_integer_variable(t, "i", false, INT64_MIN, INT64_MAX - 1); betree_add_integer_variable(t, "j", false, INT64_MIN + 1, INT64_MAX); }, rep(8, "i < 3 and j > 4"), {}, { "{\"i\": 1, \"j\": 9}" }) },
               { "extreme comparisons", hist([](betree* t) { betree_add_integer_variable(t, "i", true, INT64_MIN, INT64_MAX); }, { "i < 9223372036854775807", "i > 9223372036854775807", "i <= 9223372036854775807", "i >= -9223372036854775807", "i < -9223372036854775807", "not (i > 9223372036854775807)", "i <> 9223372036854775807" }, {}, { "{\"i\": 9223372036854775807}", "{\"i\": -9223372036854775807}" }) },
               { "constants missing", hist(mixed, { "m" }, { "within_frequency_cap('flight', 'ns', 1, 0)", "s = 'a' and within_frequency_cap('product', 'ns', 1, 0)" }, { "{\"m\": true}" }) },
               { "refused events", hist(mixed, { "m", "i = 1" }, {}, { "{}", "{\"i\": 1}", "{\"m\": true, \"i\": 1}" }) },
               { "refused expressions", hist(mixed, { "s = 'a'", "sl one of ('b')" }, { "i = 'x'", "m = 'x'", "s = 1", "unknown", "i = unknown", "(", "1 in (1, 2)", "contains(i, 'x')", "sl in ('q', 'r'" }, { "{\"m\": true}" }) },
               { "string constant of an integer with a bound ending before zero", hist([](betree* t) { betree_add_string_list_variable(t, "a", true, SIZE_MAX); betree_add_integer_variable(t, "b", true, -5, -1); }, { "a one of ('a')" }, { "b = 'x'" }, { "{}" }, false) } }, 0.2, 120, {} });
    v.push_back({ "C22", "texts for both readers: sentences altered by tokens or characters (over the configured attributes or any), truncations, random bytes, random words, and texts that are long in one way (up to about 9000 nested parentheses or negations, list elements, digits, characters; 200 kB), given to the readers and to a tree (prepared, inserted or announced), each followed by sentinel texts and searches; sanitizers and allocation accounting. Non-trivial: some text is not empty.", 50000, 1500000, p_c22,
        Regs { { "syntax errors leak nothing", hist(mixed, { "m" }, { "", "a", "i = 'x", "s = 'a' and", "s = 'a' 'b'", "sl one of ('a', 'b'", "sl one of ('a', 'b') )", "'a' in", "contains(s, 'x'", "i = 1 $", "within_frequency_cap('flight', 'ns', 1", "x = 'a' = 'b'", "1 in (1, 2)", "'a' in ('a')", "i in ('a') x", "a b", "(a", "a)", "\xff", "i \x80", "a = \"\\\"" }, { "{\"m\": true}" }) },
               { "event syntax errors leak nothing", [](Ctx& x) {
                    for(auto t : { "", "{", "{\"a\"", "{\"a\": \"b\"", "{\"a\": [1, 2", "{\"a\": [\"x\", \"y\"", "{\"a\": [[1, 2], [3", "{\"a\": [[\"flight\", 1, \"ns\", 2, 3], [\"flight\"", "{\"a\": [[[\"flight\", 1, \"ns\"], 2, 3]", "{\"a\": 1, \"b\": \"c\"} x", "{\"a\": 1} {\"b\": \"c\"}", "{\"a\": null, \"b\": [\"c\"], }", "{\"a\": [\"c\", 1]}", "{\"a\": [1, \"c\"]}", "{\"a\": [[1, 2], [\"x\", 2]]}", "{\"a\": $}" }) {
                        x.note(t);
                        Balance b;
                        betree_event* e = nullptr;
                        x.require(event_parse(t, &e) != 0, std::string("accepted ") + t);
                        b.check(x, std::string("reading ") + t);
                    }
                } },
               { "long texts", hist(mixed, { lng("m", " and ", 5000), lng("not", " ", 5000) + " m", "s in ('" + std::string(20000, 'x') + "')", std::string(4000, '(') + "m" + std::string(4000, ')') }, { std::string(20000, '('), std::string(5000, '(') + "m" }, { "{\"m\": true}" }) } }, 0.2, 120, {} });
    return v;
}

int main(int argc, char** argv) { auto p = props(); return eng::engine_main(argc, argv, p); }

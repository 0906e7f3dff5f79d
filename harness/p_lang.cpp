// C14: the expression language; C15: printing and reading back; C16: the event language.
#include "common.hpp"
#include "dump.hpp"
#include "textgen.hpp"
using namespace api;
using lang::Parsed;
using namespace tg;

// ------------------------------------------------------------------ C14
static void check_expr(Ctx& x, const std::string& text, const Parsed& want)
{
    struct ast_node* n = nullptr;
    int rc = parse(text.c_str(), &n);
    if(rc == 0) {
        std::string d = dmp::node(n);
        free_ast_node(n);
        x.require(want.ok, "accepted, but it is not a sentence of the language: " + show(text) + "\n  read as " + d);
        if(!want.big) x.require(d == want.dump, "misread: " + show(text) + "\n  expected " + want.dump + "\n  read     " + d);
    }
    else x.require(!want.ok, "refused, but it is a sentence of the language: " + show(text));
}

static void p_c14(Ctx& x)
{
    Gen g(x.s);
    static const int dep[] = { 0, 1, 2, 3, 5 };
    int d = dep[x.s.weighted({ 1, 3, 4, 4, 2 })];
    size_t how = x.s.weighted({ 4, 4, 2, 1 });
    if(how == 3) { // words at random
        std::vector<std::string> t;
        while(x.s.more(t.size(), 6, 30)) t.push_back(expr_vocab()[x.s.draw(expr_vocab().size())]);
        std::string text = glue(x.s, t);
        x.note("text " + show(text));
        Parsed want = lang::parse_expr(text);
        check_expr(x, text, want);
        x.nontrivial = want.ok && want.ops > 0;
        x.label(want.ok ? "random words, accepted" : "random words, refused");
        return;
    }
    std::string dump = g.expr(d, 0);
    std::string text;
    if(how == 0) {
        text = glue(x.s, g.t);
        x.note("text " + show(text));
        Parsed want;
        want.ok = true;
        want.dump = dump;
        // the two descriptions of the language in this harness must agree
        Parsed mine = lang::parse_expr(text);
        if(!mine.ok || mine.dump != dump) x.fail("HARNESS: generator and recogniser disagree on " + show(text) + "\n  " + dump + "\n  " + mine.dump);
        check_expr(x, text, want);
        x.nontrivial = g.ops >= 1 && g.leaves >= 2;
        x.label("sentence");
        return;
    }
    if(how == 1) text = glue(x.s, mutate_tokens(x.s, g.t, expr_vocab()));
    else text = mutate_text(x.s, glue(x.s, g.t), "()and or-nt=<>\"'12.,\\ie");
    x.note("text " + show(text));
    Parsed want = lang::parse_expr(text);
    check_expr(x, text, want);
    x.nontrivial = !want.ok || want.ops > 0;
    x.label(want.ok ? "altered, accepted" : "altered, refused");
}

// ------------------------------------------------------------------ C15
static void p_c15(Ctx& x)
{
    if(x.s.chance(1, 2)) { // structure
        Gen g(x.s);
        g.nulls = false;
        g.plainq = true;
        g.expr((int)x.s.weighted({ 1, 3, 4, 2 }), 0);
        std::string text = glue(x.s, g.t);
        x.note("text " + show(text));
        struct ast_node* n = nullptr;
        if(parse(text.c_str(), &n) != 0) x.fail("refused, but it is a sentence of the language: " + show(text));
        std::string d = dmp::node(n);
        char* p = ast_to_string(n);
        std::string printed = p;
        free(p);
        std::string d2 = dmp::node(n);
        free_ast_node(n);
        x.note("printed " + show(printed));
        struct ast_node* m = nullptr;
        int rc = parse(printed.c_str(), &m);
        x.require(rc == 0, "the printed form is not accepted: " + show(printed));
        std::string e = dmp::node(m);
        free_ast_node(m);
        x.require(d == d2, "printing changed the expression: " + d + " -> " + d2);
        x.require(d == e, "the printed form means something else: " + show(printed) + "\n  expression " + d + "\n  printed    " + e);
        x.nontrivial = g.leaves >= 1 && g.t.size() >= 3;
        x.label("structure");
        return;
    }
    CfgOpt o;
    Config c = gen_config(x.s, o);
    GenOpt g;
    g.nulls = false;
    g.depth = (int)x.s.weighted({ 2, 4, 3 });
    Params p = gen_params(x);
    x.note("config " + config_text(c) + "; " + ptext(p));
    Tree t(c, p.cap, p.part, p.dflt);
    std::vector<Sub> subs;
    size_t n = 0;
    std::vector<E> pool;
    do {
        E e = gen_expr(x.s, c, g);
        if(contains_kind(*e, NUL)) continue;
        Style st;
        st.s = &x.s;
        st.casing = st.ws = st.words = st.flip = true;
        Sub b = make_subm(x.s, c, subs.size() + 1, e, &st);
        if(lang::parse_expr(b.text).dump.find('"') != std::string::npos) continue; // a string with a double quote has no printed form
        struct ast_node* nd = nullptr;
        if(parse(b.text.c_str(), &nd) != 0) x.fail("refused: " + b.text);
        char* pr = ast_to_string(nd);
        b.text = pr;
        free(pr);
        free_ast_node(nd);
        x.note("printed " + b.text);
        x.require(t.prepare(b.id, b.text, b.k), "the printed form is not accepted: " + b.text);
        subs.push_back(b);
    } while(x.s.more(++n, 4, 30));
    t.commit();
    bool some = false;
    size_t m = 0;
    do {
        Event ev = gen_event(x.s, c, 20);
        std::string et = event_text(c, ev);
        x.note("event " + et);
        Result r = search(t, et);
        auto want = expected(c, subs, ev);
        x.require(r.ids == want, "event " + et + "\n  " + diff_text(c, subs, want, r.ids));
        if(!want.empty() && want.size() < subs.size()) some = true;
    } while(x.s.more(++m, 4, 12));
    x.nontrivial = some;
    x.label("meaning");
}

// ------------------------------------------------------------------ C16
static void check_event(Ctx& x, const std::string& text, const Parsed& want)
{
    struct betree_event* e = nullptr;
    int rc = event_parse(text.c_str(), &e);
    if(rc == 0) {
        std::string d = dmp::event(e);
        free_event(e);
        x.require(want.ok, "accepted, but it is not a complete event: " + show(text) + "\n  read as " + d);
        if(!want.big) x.require(d == want.dump, "misread: " + show(text) + "\n  expected " + want.dump + "\n  read     " + d);
    }
    else x.require(!want.ok, "refused, but it is a complete event: " + show(text));
}

static void p_c16(Ctx& x)
{
    EvGen g(x.s);
    size_t how = x.s.weighted({ 5, 4, 2, 1 });
    if(how == 3) {
        std::vector<std::string> t;
        while(x.s.more(t.size(), 6, 30)) t.push_back(event_vocab()[x.s.draw(event_vocab().size())]);
        std::string text = glue(x.s, t);
        x.note("text " + show(text));
        Parsed want = lang::parse_event(text);
        check_event(x, text, want);
        x.nontrivial = want.ok && want.leaves > 0;
        x.label(want.ok ? "random words, accepted" : "random words, refused");
        return;
    }
    std::string dump = g.event();
    std::string text;
    if(how == 0) {
        text = glue(x.s, g.g.t);
        x.note("text " + show(text));
        Parsed want;
        want.ok = true;
        want.dump = dump;
        Parsed mine = lang::parse_event(text);
        if(!mine.ok || mine.dump != dump) x.fail("HARNESS: generator and recogniser disagree on " + show(text) + "\n  " + dump + "\n  " + mine.dump);
        check_event(x, text, want);
        x.nontrivial = g.vals >= 1;
        x.label("event");
        return;
    }
    if(how == 1) text = glue(x.s, mutate_tokens(x.s, g.g.t, event_vocab()));
    else text = mutate_text(x.s, glue(x.s, g.g.t), "{}[],:-\"'12.truefalsn\\ ");
    x.note("text " + show(text));
    Parsed want = lang::parse_event(text);
    check_event(x, text, want);
    x.nontrivial = !want.ok || want.leaves > 0;
    x.label(want.ok ? "altered, accepted" : "altered, refused");
}

// ------------------------------------------------------------------
static std::vector<eng::Property> props()
{
    std::vector<eng::Property> v;
    auto yes = [](std::vector<std::string> l) { return [l](Ctx& x) { for(auto& t : l) { x.note(show(t)); Parsed w = lang::parse_expr(t); if(!w.ok) x.fail("HARNESS: " + t); check_expr(x, t, w); } }; };
    auto no = [](std::vector<std::string> l) { return [l](Ctx& x) { for(auto& t : l) { x.note(show(t)); Parsed w = lang::parse_expr(t); if(w.ok) x.fail("HARNESS: " + t); check_expr(x, t, w); } }; };
    v.push_back({ "C14", "sentences of the expression language with the structure they stand for (all operators, both spellings, any white space, odd names, nesting to 5), the same altered by tokens or by characters, and random words; acceptance and structure compared with an independent lexer and parser. Non-trivial: a sentence with a boolean operator, or an altered one that must be refused.", 900000, 12000000, p_c14,
        Regs { { "the smallest integer", yes({ "i = -9223372036854775808", "i < - 9223372036854775808", "l one of (1, -9223372036854775808)", "-9223372036854775808 in l", "segment_within(-9223372036854775808, 9223372036854775807)" }) },
               { "unknown characters", no({ "a = 1 $", "a + b", "a;", "a = 1 ]", "\xff", "a\x01", "a and b \"" }) },
               { "not before names starting with in", yes({ "not in-stock", "not inner", "not in1 and b", "a not in(1)", "a not in\tb", "not in_x", "a not in('x')" }) },
               { "precedence", yes({ "not a and b", "not a or b and c", "a or b and c or d", "not not a", "a and b and c", "not a = 1", "a = 1and b" }) },
               { "incomplete", no({ "", " ", "a and", "and a", "a = ", "(a", "a)", "a in ()", "a in (1, 'x')", "not", "a not", "a = b", "1 = 1", "a == 1", "1.5 in a", "a in 1", "a is  null", "a not  in (1)", "contains('a', 'b')", "geo_within_radius(1, 2.0, 3)" }) } }, 0.2, 40, {} });
    auto back = [](std::vector<std::string> l) { return [l](Ctx& x) { for(auto& t : l) { x.note(show(t)); struct ast_node* n; if(parse(t.c_str(), &n) != 0) x.fail("refused " + t); char* p = ast_to_string(n); struct ast_node* m; x.require(parse(p, &m) == 0, std::string("not accepted: ") + p); x.require(dmp::node(n) == dmp::node(m), t + " printed as " + p); free(p); free_ast_node(n); free_ast_node(m); } }; };
    v.push_back({ "C15", "sentences without null tests and without double quotes in strings (those have no printed form in the language), printed and read back: same structure; and model expressions whose printed form is inserted in a tree and searched, against the reference evaluator. Non-trivial: the expression has at least 3 tokens; some event separates the expressions.", 220000, 4000000, p_c15,
        Regs { { "decimals and signs", back({ "f = 1.005", "f < 0.001", "f > 123456789.123456", "f = 0.1", "geo_within_radius(1.2345, 2.0, 0.5)", "segment_within(-1, 20)", "segment_before(a, -5, -20)" }) } }, 0.2, 40, {} });
    v.push_back({ "C16", "events of 0..30 attributes of every kind with the values they stand for (any white space, both quotes, nulls, 64-bit extremes, long lists, flat and nested caps), the same altered by tokens or by characters, and random words; acceptance and every value compared with an independent reader. Non-trivial: an event with a value, or an altered one that must be refused.", 900000, 12000000, p_c16,
        Regs { { "the smallest integer", [](Ctx& x) { for(auto t : { "{\"a\": -9223372036854775808}", "{\"a\": [1, -9223372036854775808]}", "{\"a\": - 9223372036854775808, \"b\": 9223372036854775807}" }) { x.note(t); Parsed w = lang::parse_event(t); if(!w.ok) x.fail(std::string("HARNESS: ") + t); check_event(x, t, w); } } },
               { "incomplete", [](Ctx& x) { for(auto t : { "", "{", "}", "{\"a\"}", "{\"a\":}", "{\"a\": 1,}", "{,}", "{\"a\": 1} x", "{\"a\": 1}}", "{a: 1}", "{\"a\": [1, \"b\"]}", "{\"a\": [[1]]}", "{\"a\": +1}", "{\"a\": 1 \"b\": 2}", "{\"a\": 1 $}", "[]" }) { x.note(t); Parsed w = lang::parse_event(t); if(w.ok) x.fail(std::string("HARNESS: ") + t); check_event(x, t, w); } } } }, 0.2, 40, {} });
    return v;
}

int main(int argc, char** argv) { auto p = props(); return eng::engine_main(argc, argv, p); }

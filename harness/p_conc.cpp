// C32: concurrent searches, C38: several trees. Built with ThreadSanitizer.
#include "common.hpp"
#include <atomic>
#include <thread>
extern "C" {
#include "helper.h"
}
using namespace api;

struct Job { int how; Event ev; std::string text; std::vector<uint64_t> want; bool any; };

static void p_c32(Ctx& x)
{
    CfgOpt o;
    o.max = 4;
    o.bounded_strings = false;
    Config c = gen_config(x.s, o);
    Params p = gen_params(x);
    x.note("config " + config_text(c) + "; " + ptext(p));
    Tree t(c, p.cap, p.part, p.dflt);
    GenOpt g;
    std::vector<E> pool;
    g.reuse = &pool;
    g.depth = (int)x.s.weighted({ 2, 3, 3 });
    std::vector<Sub> subs;
    do {
        Sub b = make_subm(x.s, c, subs.size() + 1, gen_expr(x.s, c, g));
        note_sub(x, b);
        x.require(t.prepare(b.id, b.text, b.k), "refused: " + b.text);
        subs.push_back(b);
    } while(x.s.more(subs.size(), 12, 60));
    t.commit();
    size_t nt = 2 + x.s.draw(3);
    int own = x.s.chance(1, 3) ? (int)(nt - 1) : -1; // this thread has a tree of its own and fills it
    std::vector<std::vector<Job>> jobs(nt);
    size_t strs = 0, hits = 0;
    for(size_t k = 0; k < nt; k++) {
        do {
            Job j;
            j.how = (int)x.s.weighted({ 3, 3, 1, 1 });
            j.ev = gen_event(x.s, c, 25);
            EvStyle st;
            st.s = &x.s;
            st.shuffle = x.s.chance(1, 3);
            j.text = event_text(c, j.ev, &st);
            j.want = expected(c, subs, j.ev);
            static const char* hows[] = { "search text", "search event", "exists text", "exists event" };
            x.note("thread " + str(k) + (own == (int)k ? " (own tree) " : " ") + hows[j.how] + " " + j.text);
            hits += !j.want.empty();
            jobs[k].push_back(j);
        } while(x.s.more(jobs[k].size(), 3, 8));
    }
    (void)strs;
    std::vector<std::string> err(nt);
    std::atomic<size_t> ready { 0 };
    auto work = [&](size_t k) {
        ready++;
        while(ready.load() < nt) std::this_thread::yield();
        std::unique_ptr<Tree> mine;
        Tree* w = &t;
        if((int)k == own) {
            mine.reset(new Tree(c, p.cap, p.part, p.dflt));
            for(auto& b : subs) if(!mine->prepare(b.id, b.text, b.k)) { err[k] = "own tree refuses " + b.text; return; }
            mine->commit();
            w = mine.get();
        }
        for(auto& j : jobs[k]) {
            if(j.how < 2) {
                Result r;
                if(j.how == 0) r = search(*w, j.text);
                else {
                    betree_event* e = make_event(*w, c, j.ev);
                    r = search_event(*w, e);
                    betree_free_event(e);
                }
                if(!r.ok) err[k] = "thread " + str(k) + ": search refused " + j.text;
                else if(r.ids != j.want) err[k] = "thread " + str(k) + ": " + j.text + ": expected ids " + ids_text(j.want) + ", reported " + ids_text(r.ids);
            }
            else {
                bool r;
                if(j.how == 2) r = betree_exists(w->t, j.text.c_str());
                else {
                    betree_event* e = make_event(*w, c, j.ev);
                    r = betree_exists_with_event(w->t, e);
                    betree_free_event(e);
                }
                if(r != !j.want.empty()) err[k] = "thread " + str(k) + ": existence of a match for " + j.text + " is " + (r ? "true" : "false");
            }
            if(!err[k].empty()) return;
        }
    };
    std::vector<std::thread> th;
    for(size_t k = 0; k < nt; k++) th.emplace_back(work, k);
    for(auto& q : th) q.join();
    for(auto& e : err) x.require(e.empty(), e);
    x.nontrivial = hits > 0;
    x.label(str(nt) + " threads" + (own >= 0 ? ", one with its own tree" : ""));
}

// ------------------------------------------------------------------ C38
struct Op { enum { INSERT, REFUSED, SEARCH, EVENT, EXISTS, ANNOUNCE, EMPTY, RENEW } k; Sub b; std::string text; Event ev; };
struct Actor {
    Config c;
    Params p;
    bool direct = false;
    std::vector<Op> ops;
};
// One tree and what became of each operation on it; everything it needs is drawn before.
struct Stage {
    const Actor& a;
    std::unique_ptr<Tree> t;
    std::vector<Sub> in;
    std::vector<std::string> out;
    std::string wrong; // first difference from the meaning of the expressions
    size_t hits = 0;
    explicit Stage(const Actor& a_) : a(a_) {}
    bool left() const { return out.size() < a.ops.size(); }
    void searched(const Op& o, const Result& r)
    {
        auto want = expected(a.c, in, o.ev);
        hits += !want.empty();
        if(wrong.empty() && (!r.ok || r.ids != want)) wrong = "event " + o.text + ": " + diff_text(a.c, in, want, r.ids);
        out.push_back(rtext(r));
    }
    void step()
    {
        if(!t) t.reset(new Tree(a.c, a.p.cap, a.p.part, a.p.dflt));
        const Op& o = a.ops[out.size()];
        switch(o.k) {
            case Op::INSERT: {
                bool ok = a.direct ? t->insert(o.b.id, o.b.text, o.b.k) : t->prepare(o.b.id, o.b.text, o.b.k);
                t->commit();
                if(ok) in.push_back(o.b);
                else if(wrong.empty()) wrong = "refused: " + o.b.text;
                out.push_back(ok ? "accepted" : "refused");
                break;
            }
            case Op::REFUSED: {
                bool ok = a.direct ? t->insert(o.b.id, o.text) : t->prepare(o.b.id, o.text);
                t->commit();
                if(ok && wrong.empty()) wrong = "accepted: " + o.text;
                out.push_back(ok ? "accepted" : "refused");
                break;
            }
            case Op::SEARCH: searched(o, search(*t, o.text)); break;
            case Op::EVENT: {
                betree_event* e = make_event(*t, a.c, o.ev);
                Result r = search_event(*t, e);
                betree_free_event(e);
                searched(o, r);
                break;
            }
            case Op::EXISTS: {
                bool r = betree_exists(t->t, o.text.c_str());
                if(wrong.empty() && r != !expected(a.c, in, o.ev).empty()) wrong = "existence of a match for " + o.text + " is " + (r ? "true" : "false");
                out.push_back(r ? "exists" : "does not exist");
                break;
            }
            case Op::ANNOUNCE: out.push_back(betree_change_boundaries(t->t, o.b.text.c_str()) ? "announced" : "not announced"); break;
            case Op::EMPTY: empty_tree(t->t); in.clear(); out.push_back("emptied"); break;
            default: t.reset(); in.clear(); t.reset(new Tree(a.c, a.p.cap, a.p.part, a.p.dflt)); out.push_back("renewed"); break;
        }
    }
};
static void p_c38(Ctx& x)
{
    size_t n = 2 + x.s.weighted({ 5, 2, 1 });
    bool threads = x.s.chance(1, 3);
    std::vector<Actor> as(n);
    for(size_t i = 0; i < n; i++) {
        Actor& a = as[i];
        size_t like = i ? x.s.draw(i) : 0;
        bool alike = i && x.s.chance(1, 2);
        CfgOpt o;
        o.max = 4;
        a.c = alike ? as[like].c : gen_config(x.s, o);
        // alike but for what a cache of the other's would get wrong
        if(alike && x.s.chance(1, 2)) {
            auto& v = a.c.attrs;
            if(v.size() > 1) std::swap(v[0], v[1 + x.s.draw(v.size() - 1)]);
            for(auto& q : v) if(x.s.chance(1, 4)) q.opt = !q.opt;
        }
        a.p = gen_params(x);
        a.direct = x.s.chance(1, 2);
        std::string who = "tree " + str(i + 1);
        x.note(who + ": config " + config_text(a.c) + "; " + ptext(a.p) + (a.direct ? "; direct" : "; prepared"));
        GenOpt g;
        g.in_domain = a.direct;
        g.depth = (int)x.s.weighted({ 3, 3, 2 });
        std::vector<E> pool;
        g.reuse = &pool;
        uint64_t id = 0;
        double mean = std::vector<double> { 5, 12, 30 }[x.s.weighted({ 3, 4, 2 })];
        do {
            Op q;
            size_t k = x.s.weighted({ 10, 1, 4, 2, 1, a.direct ? 0u : 1u, 1, 1 });
            if(k >= 6 && !x.s.chance(1, 4)) k = 0;
            q.k = decltype(q.k)(k);
            static const char* what[] = { "insert", "insert, to be refused", "search", "search event", "exists", "announce", "empty", "free and make again" };
            if(k == Op::INSERT || k == Op::ANNOUNCE) q.b = make_subm(x.s, a.c, ++id, gen_expr(x.s, a.c, g));
            if(k == Op::REFUSED) {
                q.b.id = ++id;
                q.text = x.s.chance(1, 2) ? bad_leaf(x.s, a.c, false, false) : bad_text(x.s, text(a.c, *gen_leaf(x.s, a.c, g)));
            }
            if(k >= Op::SEARCH && k <= Op::EXISTS) {
                q.ev = gen_event(x.s, a.c, 25);
                q.text = event_text(a.c, q.ev);
            }
            x.note(who + ": " + what[k] + " " + (k == Op::INSERT || k == Op::ANNOUNCE ? str(q.b.id) + ": " + q.b.text + " " + consts_text(q.b.k) : q.text));
            a.ops.push_back(q);
        } while(x.s.more(a.ops.size(), mean, 80));
        // whatever it holds in the end
        for(int k = 0; k < 2; k++) {
            Op q;
            q.k = Op::SEARCH;
            q.ev = gen_event(x.s, a.c, 25);
            q.text = event_text(a.c, q.ev);
            x.note(who + ": search " + q.text);
            a.ops.push_back(q);
        }
    }
    std::vector<std::unique_ptr<Stage>> together, alone;
    for(auto& a : as) together.emplace_back(new Stage(a));
    if(threads) {
        std::atomic<size_t> ready { 0 };
        std::vector<std::thread> th;
        for(auto& s : together) {
            Stage* w = s.get();
            th.emplace_back([&ready, w, n] {
                ready++;
                while(ready.load() < n) std::this_thread::yield();
                while(w->left()) w->step();
            });
        }
        for(auto& q : th) q.join();
    }
    else {
        std::string order;
        for(;;) {
            std::vector<size_t> can;
            for(size_t i = 0; i < n; i++) if(together[i]->left()) can.push_back(i);
            if(can.empty()) break;
            size_t i = can[x.s.draw(can.size())];
            size_t run = 1 + x.s.weighted({ 4, 2, 1 });
            while(run-- && together[i]->left()) { order += " " + str(i + 1); together[i]->step(); }
        }
        x.note("order" + order);
    }
    for(size_t i = 0; i < n; i++) { x.checks++; x.require(together[i]->wrong.empty(), "tree " + str(i + 1) + ": " + together[i]->wrong); }
    // one event object for trees configured alike: what it means is looked up anew in each
    bool shared = false;
    for(size_t i = 0; i < n; i++)
        for(size_t j = i + 1; j < n; j++) {
            if(config_text(as[i].c) != config_text(as[j].c)) continue;
            for(int k = 0; k < 2; k++) {
                Event ev = gen_event(x.s, as[i].c, 25);
                std::string et = event_text(as[i].c, ev);
                betree_event* e = make_event(*together[i]->t, as[i].c, ev);
                struct Own { betree_event* e; ~Own() { betree_free_event(e); } } own { e };
                size_t turns = 2 + x.s.draw(3);
                for(size_t q = 0; q < turns; q++) {
                    size_t w = q % 2 ? j : i;
                    bool ex = x.s.chance(1, 4);
                    x.note(std::string(ex ? "exists" : "search") + " in tree " + str(w + 1) + ", event object " + et);
                    auto want = expected(as[w].c, together[w]->in, ev);
                    x.checks++;
                    if(ex) { x.require(betree_exists_with_event(together[w]->t->t, e) == !want.empty(), "tree " + str(w + 1) + ": wrong existence for an event object of another tree"); continue; }
                    Result r = search_event(*together[w]->t, e);
                    x.require(r.ok && r.ids == want, "tree " + str(w + 1) + ", an event object used in both: " + diff_text(as[w].c, together[w]->in, want, r.ids));
                }
                shared = true;
            }
        }
    if(shared) x.label("an event object shared");
    size_t lively = 0;
    for(size_t i = 0; i < n; i++) {
        Stage s(as[i]);
        while(s.left()) s.step();
        for(size_t k = 0; k < s.out.size(); k++)
            x.require(s.out[k] == together[i]->out[k], "tree " + str(i + 1) + ", operation " + str(k + 1) + ": " + together[i]->out[k] + " among the others, " + s.out[k] + " alone");
        lively += s.hits > 0;
    }
    x.nontrivial = lively >= 2;
    x.label(str(n) + (threads ? " trees, a thread each" : " trees in turns"));
}

int main(int argc, char** argv)
{
    std::vector<eng::Property> v;
    v.push_back({ "C32", "2..4 threads started together on one tree of 1..60 prepared expressions, each with 1..8 searches and existence queries of generated events, as text or built by the thread; in a third of the cases one thread fills and searches a tree of its own meanwhile. Each result is compared with the reference evaluator, and the library runs under ThreadSanitizer, whose happens-before analysis reports unsynchronised accesses whatever the actual timing. Non-trivial: some event has a match.", 28000, 400000, p_c32, {}, 0.1, 40, {} });
    v.push_back({ "C38", "2..4 trees, half of them configured like another one (some with two attributes in each other's place or optional instead of mandatory), each with a history of 3..82 operations: insertions (direct or prepared), refused texts, announcements, searches, existence queries, emptying, freeing and making again. The histories run in turns in one thread, in a generated order, or each in a thread of its own under ThreadSanitizer. Every result is compared with the reference evaluator on the tree's own expressions and every outcome, the counters included, with the same history run alone; at the end event objects are searched in turns in trees configured alike. Non-trivial: at least two trees report a match.", 12000, 250000, p_c38, {}, 0.1, 60, {} });
    return eng::engine_main(argc, argv, v);
}

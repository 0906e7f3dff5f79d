// Drives the public API of be-tree with model objects.
#pragma once
#include "model.hpp"
extern "C" {
#include "betree.h"
}
namespace api {
using namespace mdl;

struct Tree {
    betree* t;
    bool own = false;
    std::vector<const betree_sub*> pending;
    Tree(const Config& c, uint64_t cap = 3, uint64_t part = 0, bool dflt = true)
    {
        // a default tree may also live in memory of the caller's, here unzeroed
        own = dflt && c.attrs.size() % 2 == 1;
        if(own) { t = (betree*)malloc(sizeof *t); memset((void*)t, 0xa5, sizeof *t); betree_init(t); }
        else t = dflt ? betree_make() : betree_make_with_parameters(cap, part);
        configure(c);
    }
    Tree(const Tree&) = delete;
    Tree& operator=(const Tree&) = delete;
    ~Tree()
    {
        if(!t) return;
        if(own) { betree_deinit(t); free(t); }
        else betree_free(t);
    }
    void configure(const Config& c)
    {
        for(auto& a : c.attrs) add(a);
    }
    void add(const Attr& a)
    {
        const char* n = a.decl.empty() ? a.name.c_str() : a.decl.c_str();
        switch(a.t) {
            case T_BOOL: betree_add_boolean_variable(t, n, a.opt); break;
            case T_INT: betree_add_integer_variable(t, n, a.opt, a.imin, a.imax); break;
            case T_FLT: betree_add_float_variable(t, n, a.opt, a.fmin, a.fmax); break;
            case T_STR: betree_add_string_variable(t, n, a.opt, a.cnt); break;
            case T_IL: betree_add_integer_list_variable(t, n, a.opt, a.imin, a.imax); break;
            case T_SL: betree_add_string_list_variable(t, n, a.opt, a.cnt); break;
            case T_SEG: betree_add_segments_variable(t, n, a.opt); break;
            case T_CAP: betree_add_frequency_caps_variable(t, n, a.opt); break;
            case T_IE: betree_add_integer_enum_variable(t, n, a.opt, a.cnt); break;
            default: abort();
        }
    }
    // the constants come in any order and among others the expression has no use for
    static std::vector<betree_constant*> constants(uint64_t id, const Consts& k)
    {
        std::vector<betree_constant*> cs;
        for(int i = 0; i < 5; i++) {
            int j = (int)((i + id % 5) % 5);
            if(id % 3 == 2 && i == (int)(id % 5)) cs.push_back(betree_make_integer_constant(id % 2 ? "other_id" : "campaign", -7));
            if(k.has[j]) cs.push_back(betree_make_integer_constant(const_names[j], k.v[j]));
        }
        return cs;
    }
    bool prepare(uint64_t id, const std::string& text, const Consts& k = Consts())
    {
        auto cs = constants(id, k);
        const betree_sub* s = betree_make_sub(t, id, cs.size(), (const betree_constant**)cs.data(), text.c_str());
        if(!cs.empty()) betree_free_constants(cs.size(), cs.data());
        if(!s) return false;
        pending.push_back(s);
        return true;
    }
    void commit()
    {
        for(auto s : pending) if(!betree_insert_sub(t, s)) throw eng::Fail { "betree_insert_sub returned false" };
        pending.clear();
    }
    bool insert(uint64_t id, const std::string& text, const Consts& k = Consts())
    {
        auto cs = constants(id, k);
        bool r = cs.empty() ? betree_insert(t, id, text.c_str()) : betree_insert_with_constants(t, id, cs.size(), (const betree_constant**)cs.data(), text.c_str());
        if(!cs.empty()) betree_free_constants(cs.size(), cs.data());
        return r;
    }
};

struct Result {
    bool ok = false;
    std::vector<uint64_t> ids; // sorted
    size_t evaluated = 0, matched = 0, memoized = 0, shorted = 0;
    bool operator==(const Result& o) const { return ok == o.ok && ids == o.ids && evaluated == o.evaluated && matched == o.matched && memoized == o.memoized && shorted == o.shorted; }
};
inline Result take(bool ok, report* r)
{
    Result x;
    x.ok = ok;
    x.evaluated = r->evaluated; x.matched = r->matched; x.memoized = r->memoized; x.shorted = r->shorted;
    for(size_t i = 0; i < r->matched; i++) x.ids.push_back(r->subs[i]);
    std::sort(x.ids.begin(), x.ids.end());
    return x;
}
inline Result search(Tree& t, const std::string& ev)
{
    report* r = make_report();
    bool ok = betree_search(t.t, ev.c_str(), r);
    Result x = take(ok, r);
    free_report(r);
    return x;
}

inline betree_variable* make_var(const Attr& a, const std::string& name, const Val& v, Src* s = nullptr, bool whole = false)
{
    const char* n = name.c_str();
    switch(a.t) {
        case T_BOOL: return betree_make_boolean_variable(n, v.b);
        case T_INT: case T_IE: return betree_make_integer_variable(n, v.i);
        case T_FLT:
            if(whole && whole_number(v.f) && s->chance(2, 3)) return betree_make_integer_variable(n, (int64_t)v.f.val());
            return betree_make_float_variable(n, v.f.val());
        case T_STR: return betree_make_string_variable(n, v.s.c_str());
        case T_IL: {
            auto l = betree_make_integer_list(v.il.size());
            for(size_t i = 0; i < v.il.size(); i++) betree_add_integer(l, i, v.il[i]);
            return betree_make_integer_list_variable(n, l);
        }
        case T_SL: {
            auto l = betree_make_string_list(v.sl.size());
            for(size_t i = 0; i < v.sl.size(); i++) betree_add_string(l, i, v.sl[i].c_str());
            return betree_make_string_list_variable(n, l);
        }
        case T_SEG: {
            auto l = betree_make_segments(v.seg.size());
            for(size_t i = 0; i < v.seg.size(); i++) betree_add_segment(l, i, betree_make_segment(v.seg[i].id, v.seg[i].ts));
            return betree_make_segments_variable(n, l);
        }
        case T_CAP: {
            auto l = betree_make_frequency_caps(v.cap.size());
            for(size_t i = 0; i < v.cap.size(); i++) {
                auto& p = v.cap[i];
                betree_add_frequency_cap(l, i, betree_make_frequency_cap(cap_types[p.type], p.id, p.ns.c_str(), p.tsdef, p.ts, p.value));
            }
            return betree_make_frequency_caps_variable(n, l);
        }
        default: abort();
    }
}
// slots: where each defined attribute goes (default: its own index)
inline betree_event* make_event(Tree& t, const Config& c, const Event& ev, EvStyle* st = nullptr)
{
    betree_event* e = betree_make_event(t.t);
    std::vector<size_t> slot(c.attrs.size());
    for(size_t i = 0; i < slot.size(); i++) slot[i] = i;
    if(st && st->shuffle) for(size_t i = slot.size(); i > 1; i--) std::swap(slot[i - 1], slot[i - 1 - st->s->draw(i)]);
    for(size_t i = 0; i < c.attrs.size(); i++) {
        if(!ev.v[i]) continue;
        Val v = *ev.v[i];
        std::string n = c.attrs[i].name;
        if(st) {
            if(st->shuffle) {
                for(size_t k = v.il.size(); k > 1; k--) std::swap(v.il[k - 1], v.il[k - 1 - st->s->draw(k)]);
                for(size_t k = v.sl.size(); k > 1; k--) std::swap(v.sl[k - 1], v.sl[k - 1 - st->s->draw(k)]);
            }
            if(st->dups && !v.il.empty() && st->s->chance(1, 2)) v.il.push_back(v.il[st->s->draw(v.il.size())]);
            if(st->dups && !v.sl.empty() && st->s->chance(1, 2)) v.sl.push_back(v.sl[st->s->draw(v.sl.size())]);
            if(st->casing) for(auto& ch : n) if(ch >= 'a' && ch <= 'z' && st->s->chance(1, 4)) ch = (char)(ch - 32);
        }
        betree_set_variable(e, slot[i], make_var(c.attrs[i], n, v, st ? st->s : nullptr, st && st->whole));
    }
    return e;
}
inline Result search_event(Tree& t, betree_event* e)
{
    report* r = make_report();
    bool ok = betree_search_with_event(t.t, e, r);
    Result x = take(ok, r);
    free_report(r);
    return x;
}
inline std::string ids_text(const std::vector<uint64_t>& v)
{
    std::string r = "{";
    for(size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::to_string(v[i]);
    return r + "}";
}

struct Sub { uint64_t id; E e; Consts k; std::string text; };
inline std::vector<uint64_t> expected(const Config& c, const std::vector<Sub>& subs, const Event& ev)
{
    std::vector<uint64_t> r;
    for(auto& s : subs) if(eval(c, *s.e, ev, s.k)) r.push_back(s.id);
    std::sort(r.begin(), r.end());
    return r;
}

// hand-written case: configure, insert the expressions under ids 1.., search the events
typedef std::function<void(betree*)> CfgFn;
struct RegEv { std::string text; std::vector<uint64_t> want; };
inline void reg_case(Ctx& x, const CfgFn& cfg, const std::vector<std::string>& exprs, const std::vector<RegEv>& evs, bool direct = false, uint64_t cap = 3, uint64_t part = 0, const Consts& k = Consts())
{
    Config none;
    Tree t(none, cap, part, false);
    cfg(t.t);
    uint64_t id = 0;
    for(auto& e : exprs) {
        x.note("sub " + std::to_string(++id) + ": " + e);
        if(direct) x.require(t.insert(id, e, k), "refused: " + e);
        else x.require(t.prepare(id, e, k), "refused: " + e);
    }
    t.commit();
    for(auto& ev : evs) {
        x.note("event " + ev.text);
        Result r = search(t, ev.text);
        x.require(r.ok, "event refused: " + ev.text);
        x.require(r.ids == ev.want, "event " + ev.text + ": expected ids " + ids_text(ev.want) + ", reported " + ids_text(r.ids));
    }
}
// the same with expressions too long to be shown
inline void many_case(Ctx& x, const CfgFn& cfg, const std::vector<std::string>& exprs, const std::vector<RegEv>& evs)
{
    Config none;
    Tree t(none, 3, 0, false);
    cfg(t.t);
    uint64_t id = 0;
    for(auto& e : exprs) {
        id++;
        x.require(t.prepare(id, e), "refused: expression " + std::to_string(id) + ", " + e.substr(0, 60));
    }
    t.commit();
    for(auto& ev : evs) {
        Result r = search(t, ev.text);
        x.require(r.ok && r.ids == ev.want, "event " + ev.text + ": expected ids " + ids_text(ev.want) + ", reported " + ids_text(r.ids));
    }
}
} // namespace api

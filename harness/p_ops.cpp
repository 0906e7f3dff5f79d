// C09-C13: operators with focused oracles; C17, C19, C25: acceptance and refusal of expressions.
#include "common.hpp"
using namespace api;
using eng::Property;

static Result ask(Ctx& x, Tree& t, const Config& c, const Event& ev, bool text_ok, std::string& how, EvStyle* st = nullptr, bool api_ok = true)
{
    if(text_ok && (!api_ok || x.s.chance(1, 2))) {
        how = event_text(c, ev, st);
        x.note("event " + how);
        return search(t, how);
    }
    betree_event* e = make_event(t, c, ev, st);
    how = event_text(c, ev) + " built through the API";
    x.note("event " + how);
    Result r = search_event(t, e);
    betree_free_event(e);
    return r;
}
static void add_subs(Ctx& x, Tree& t, const std::vector<Sub>& subs, bool direct)
{
    for(auto& b : subs) {
        if(direct) x.require(t.insert(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
        else x.require(t.prepare(b.id, b.text, b.k), "a well-typed expression was refused: " + b.text);
    }
    t.commit();
}

// ------------------------------------------------------------------ C09
static void p_c09(Ctx& x)
{
    static const std::vector<VT> types = { T_IL, T_SL, T_INT, T_STR };
    VT ty = types[x.s.draw(4)];
    bool strs = ty == T_SL || ty == T_STR;
    Config c;
    Attr a;
    a.name = "m"; a.t = ty; a.opt = x.s.chance(1, 4);
    bool huge = x.s.chance(1, 40); // lists longer than a byte can count
    bool giant = x.s.chance(1, 8000); // nor two bytes
    if(giant) huge = false;
    size_t universe = giant ? (strs ? 1000 + x.s.draw(3000) : 32760 + x.s.draw(2000)) : huge ? 200 + x.s.draw(400) : 2 + x.s.draw(x.s.chance(1, 3) ? 60 : 8);
    std::vector<std::string> su;
    std::vector<int64_t> iu;
    bool extreme = !giant && !strs && x.s.chance(1, 5);
    for(size_t i = 0; i < universe; i++) {
        if(strs) su.push_back(i < 3 ? std::vector<std::string> { "a", "b", "" }[i] : "s" + str(i));
        else if(extreme) iu.push_back(i == 0 ? INT64_MAX : i == 1 ? -INT64_MAX : (i % 2 ? INT64_MAX - (int64_t)i : -INT64_MAX + (int64_t)i));
        else iu.push_back((int64_t)i - (int64_t)universe / 4);
    }
    if(strs && x.s.chance(1, 3)) { a.cnt = universe; a.bounded = true; }
    if(!strs && !extreme && x.s.chance(1, 2)) { a.bounded = true; a.imin = iu.front(); a.imax = iu.back(); }
    c.attrs.push_back(a);
    bool direct = x.s.chance(1, 3);
    Params p = gen_params(x);
    x.note("config " + config_text(c) + "; " + ptext(p) + (direct ? "; direct" : "; prepared"));
    auto one_i = [&]() { return iu[x.s.draw(iu.size())]; };
    auto one_s = [&]() { return su[x.s.draw(su.size())]; };
    std::vector<Sub> subs;
    double len = std::vector<double> { 1.5, 4, 20 }[x.s.weighted({ 4, 3, 2 })];
    const size_t most = huge ? 700 : 60;
    // every step'th value of the universe
    auto whole = [&](std::vector<int64_t>& il, std::vector<std::string>& sl) {
        for(size_t i = x.s.draw(3), step = strs ? 1 + x.s.draw(3) : 1; i < universe; i += step) { if(strs) sl.push_back(su[i]); else il.push_back(iu[i]); }
    };
    auto length = [&]() { return huge && x.s.chance(1, 2) ? 300.0 : len; };
    do {
        E e;
        bool emptyq = false;
        if(ty == T_IL || ty == T_SL) {
            size_t k = x.s.weighted({ 6, 3, 1 });
            if(k == 0) { e = mk(LST); e->op = (int)x.s.draw(3); }
            else if(k == 1) { e = mk(SETL); e->neg = x.s.chance(1, 2); }
            else { e = mk(NUL); e->op = IS_EMPTY; emptyq = true; }
        }
        else { e = mk(SETV); e->neg = x.s.chance(1, 2); }
        e->a = 0;
        e->iss = strs && !emptyq;
        if(e->k == SETL) { if(strs) e->s = one_s(); else e->i = one_i(); }
        else if(!emptyq && giant && x.s.chance(1, 2)) whole(e->il, e->sl);
        else if(!emptyq) for(double l = length();;) { if(strs) e->sl.push_back(one_s()); else e->il.push_back(one_i()); if(!x.s.more(e->il.size() + e->sl.size(), l, most)) break; }
        if(x.s.chance(1, 6)) { E w = mk(NOT); w->l = e; e = w; }
        Sub b = make_subm(x.s, c, subs.size() + 1, e);
        note_sub(x, b);
        subs.push_back(b);
    } while(x.s.more(subs.size(), 5, giant ? 4 : 25));
    Tree t(c, p.cap, p.part, p.dflt);
    add_subs(x, t, subs, direct);
    bool some = false;
    size_t k = 0;
    do {
        Event ev;
        ev.v.push_back(nullptr);
        if(!a.opt || x.s.chance(7, 8)) {
            auto v = std::make_shared<Val>();
            v->t = ty;
            bool unknown = x.s.chance(1, 4);
            if(ty == T_INT) v->i = unknown ? (int64_t)x.s.draw(200) - 100 : one_i();
            else if(ty == T_STR) v->s = unknown ? gen_string(x.s) + "?" : one_s();
            else if(giant && x.s.chance(1, 3)) whole(v->il, v->sl);
            else if(x.s.chance(1, 4) && !subs.empty()) { // start from the list of an expression
                const Expr* e = subs[x.s.draw(subs.size())].e.get();
                if(e->k == NOT) e = e->l.get();
                v->il = e->il; v->sl = e->sl;
                size_t drop = x.s.draw(3);
                if(drop == 1 && !v->il.empty()) v->il.erase(v->il.begin() + (long)x.s.draw(v->il.size()));
                if(drop == 1 && !v->sl.empty()) v->sl.erase(v->sl.begin() + (long)x.s.draw(v->sl.size()));
                if(drop == 2) { if(strs) v->sl.push_back(one_s()); else v->il.push_back(one_i()); }
            }
            else {
                for(double l = length(); x.s.more(v->il.size() + v->sl.size(), l, most);) {
                    if(strs) v->sl.push_back(unknown && x.s.chance(1, 3) ? "unseen" + str(x.s.draw(3)) : one_s());
                    else v->il.push_back(unknown && x.s.chance(1, 3) ? (int64_t)x.s.draw(400) - 200 : one_i());
                }
            }
            ev.v[0] = v;
        }
        std::string how;
        EvStyle st;
        st.s = &x.s;
        st.shuffle = st.dups = x.s.chance(1, 2);
        Result r = ask(x, t, c, ev, true, how, &st);
        auto want = expected(c, subs, ev);
        x.require(r.ok && r.ids == want, "event " + how + "\n  " + diff_text(c, subs, want, r.ids));
        if(!want.empty() && want.size() < subs.size()) some = true;
    } while(x.s.more(++k, 6, giant ? 4 : 20));
    x.nontrivial = some;
    x.label(std::string("attribute ") + vt_name(ty) + (giant ? ", lists of thousands" : huge ? ", lists of hundreds" : ""));
    x.label(direct ? "direct" : "prepared");
}

// ------------------------------------------------------------------ C10
static void p_c10(Ctx& x)
{
    Config c;
    bool order = x.s.chance(1, 2);
    auto addcap = [&]() { Attr a; a.name = "frequency_caps"; a.t = T_CAP; a.opt = x.s.chance(1, 3); c.attrs.push_back(a); };
    auto addnow = [&]() { Attr a; a.name = "now"; a.t = T_INT; a.opt = x.s.chance(1, 3); a.ipool = { 30, 1000, 10, 0, 1600000000 }; if(x.s.chance(1, 3)) for(int64_t q : { 2147483648ll, 4294967326ll, 100000000000ll }) a.ipool.push_back(q); c.attrs.push_back(a); };
    if(order) { addcap(); addnow(); } else { addnow(); addcap(); }
    if(x.s.chance(1, 2)) { Attr a; a.name = "b"; a.t = T_BOOL; a.opt = true; c.attrs.push_back(a); }
    int ca = c.find("frequency_caps"), na = c.find("now");
    std::vector<std::string> nss = { "ns", "n2", "", "ab", "NS", "z z" };
    nss.resize(1 + x.s.draw(nss.size()));
    std::vector<int64_t> ids = { 1, 2, 3, 4294967295ll, 0 };
    std::vector<int64_t> vals = { 1, 2, 0, 3, 10, 4294967295ll };
    std::vector<int64_t> lens = { 0, 20, 10, 1, 1000, 2147483647, 5 };
    if(x.s.chance(1, 3)) { // beyond what 32 bits hold
        vals.insert(vals.end(), { 4294967296ll, 4294967298ll, -1, 1099511627776ll, INT64_MAX });
        ids.insert(ids.end(), { 4294967297ll, -1, 1099511627778ll, 4294967296ll });
        lens.insert(lens.end(), { 2147483648ll, 4294967306ll, 100000000000ll, INT64_MAX });
        for(auto& a : c.attrs) if(a.name == "now") for(int64_t q : { INT64_MAX, -INT64_MAX, INT64_MIN }) a.ipool.push_back(q);
        x.label("beyond 32 bits");
    }
    Params p = gen_params(x);
    bool direct = x.s.chance(1, 2);
    x.note("config " + config_text(c) + "; " + ptext(p) + (direct ? "; direct" : "; prepared"));
    Tree t(c, p.cap, p.part, p.dflt);
    std::vector<Sub> subs;
    bool refused = false;
    int focus_type = x.s.chance(1, 3) ? (int)x.s.draw(10) : -1;
    std::function<E(int)> gen = [&](int d) -> E {
        if(d > 0 && x.s.chance(1, 4)) {
            E e = mk(x.s.chance(1, 2) ? AND : OR);
            e->l = gen(d - 1);
            e->r = gen(d - 1);
            return e;
        }
        if(x.s.chance(1, 6)) { E e = mk(NOT); e->l = gen(d - 1); return e; }
        E e = mk(FREQ);
        e->ftype = focus_type >= 0 && x.s.chance(2, 3) ? focus_type : (int)x.s.draw(10);
        e->ns = x.s.pick(nss);
        e->fval = x.s.pick(vals);
        e->flen = x.s.pick(lens);
        return e;
    };
    size_t tries = 0;
    do {
        E e = gen(2);
        Sub b;
        b.id = subs.size() + 1;
        b.e = e;
        b.text = text(c, *e);
        std::set<int> f;
        collect_ftypes(*e, f);
        for(int i = 0; i < 5; i++) if(x.s.chance(1, 4)) { b.k.has[i] = true; b.k.v[i] = x.s.pick(ids); }
        for(int q : f) if(!b.k.has[q / 2]) { b.k.has[q / 2] = true; b.k.v[q / 2] = x.s.pick(ids); }
        if(x.s.chance(1, 10)) { // leave a needed constant out
            std::vector<int> fs(f.begin(), f.end());
            b.k.has[fs[x.s.draw(fs.size())] / 2] = false;
            x.note("sub without a needed constant: " + b.text + "   [" + consts_text(b.k) + "]");
            x.require(!(x.s.chance(1, 2) ? t.insert(777, b.text, b.k) : t.prepare(777, b.text, b.k)), "accepted although a constant is missing: " + b.text);
            refused = true;
            continue;
        }
        note_sub(x, b);
        if(direct) x.require(t.insert(b.id, b.text, b.k), "refused: " + b.text);
        else x.require(t.prepare(b.id, b.text, b.k), "refused: " + b.text);
        subs.push_back(b);
    } while(x.s.more(++tries, 6, 30));
    t.commit();
    bool some = false;
    size_t k = 0;
    do {
        Event ev = gen_event(x.s, c, 25);
        bool textable = true, api_ok = true;
        if(ev.v[ca]) {
            auto v = std::make_shared<Val>();
            v->t = T_CAP;
            int64_t now = ev.v[na] ? ev.v[na]->i : 1000;
            while(x.s.more(v->cap.size(), 3, 16)) {
                Cap q;
                // often an entry some expression asks for
                if(!subs.empty() && x.s.chance(3, 4)) {
                    auto& b = subs[x.s.draw(subs.size())];
                    const Expr* e = b.e.get();
                    while(e->k != FREQ) e = e->r && x.s.chance(1, 2) ? e->r.get() : e->l.get();
                    q.type = e->ftype; q.ns = e->ns; q.id = b.k.v[e->ftype / 2];
                    __int128 ts = (__int128)now - e->flen + x.s.range(-1, 1);
                    if(e->flen <= 0) ts = now;
                    q.ts = (int64_t)(ts < 0 ? 0 : ts > 9000000000000ll ? 9000000000000ll : ts) * 1000000 + (x.s.chance(1, 2) ? 0 : (int64_t)x.s.draw(1000000));
                    int64_t dv = x.s.range(-1, 1);
                    q.value = e->fval > INT64_MAX - 2 ? e->fval - 1 : e->fval + dv;
                    if(q.value < 0 && x.s.chance(1, 2)) q.value = 0;
                    // sometimes off by one component
                    if(x.s.chance(1, 4)) switch(x.s.draw(4)) {
                        case 0: q.type = x.s.chance(1, 2) ? q.type ^ 1 : (int)x.s.draw(10); break;
                        case 1: q.ns = x.s.chance(1, 3) ? "unk" : x.s.pick(nss); break;
                        case 2: q.id = x.s.pick(ids); break;
                        default: if(x.s.chance(1, 2)) q.id = (int64_t)(uint32_t)q.id; else q.value = (int64_t)(uint32_t)q.value; // what 32 bits leave of it
                    }
                }
                else { q.type = (int)x.s.draw(10); q.ns = x.s.pick(nss); q.id = x.s.pick(ids); q.ts = (int64_t)x.s.draw(2000) * 500000; q.value = (int64_t)x.s.draw(5); }
                q.tsdef = true;
                if(x.s.chance(1, 6)) { q.tsdef = false; textable = false; }
                v->cap.push_back(q);
            }
            // an entry made by the API holds 32 bits, and only the API can leave the timestamp out
            if(!textable) for(auto& q : v->cap) { q.id = (int64_t)(uint32_t)q.id; q.value = (int64_t)(uint32_t)q.value; }
            for(auto& q : v->cap) if(q.id != (int64_t)(uint32_t)q.id || q.value != (int64_t)(uint32_t)q.value) api_ok = false;
            ev.v[ca] = v;
        }
        std::string how;
        EvStyle st;
        st.s = &x.s;
        st.nested = true;
        Result r = ask(x, t, c, ev, textable, how, &st, api_ok);
        if(!textable) { std::string u; for(auto& q : ev.v[ca]->cap) u += q.tsdef ? "y" : "n"; x.note("  timestamps defined: " + u); how += " (timestamps defined: " + u + ")"; }
        auto want = expected(c, subs, ev);
        x.require(r.ok && r.ids == want, "event " + how + "\n  " + diff_text(c, subs, want, r.ids));
        if(!want.empty() && want.size() < subs.size()) some = true;
    } while(x.s.more(++k, 6, 20));
    x.nontrivial = some;
    if(refused) x.label("missing constant refused");
}

// ------------------------------------------------------------------ C11
static void p_c11(Ctx& x)
{
    Config c;
    std::vector<std::string> names = { "segments_with_timestamp", "seg2", "other" };
    bool dflt = x.s.chance(2, 3);
    for(size_t i = dflt ? 0 : 1; i < names.size(); i++) {
        if(i > 0 && dflt && x.s.chance(1, 2)) continue;
        Attr a; a.name = names[i]; a.t = T_SEG; a.opt = x.s.chance(1, 3); c.attrs.push_back(a);
    }
    Attr n; n.name = "now"; n.t = T_INT; n.opt = x.s.chance(1, 3); n.ipool = { 30, 1000, 0, 20, 1600000000, 1 };
    if(x.s.chance(1, 3)) for(int64_t q : { 2147483648ll, 4294967326ll, 100000000000ll, 4294967296ll }) n.ipool.push_back(q);
    c.attrs.insert(c.attrs.begin() + (long)x.s.draw(c.attrs.size() + 1), n);
    std::vector<int> segs = c.of(T_SEG);
    int na = c.find("now"), da = c.find("segments_with_timestamp");
    int64_t maxid = x.s.chance(1, 3) ? 40 : 4;
    bool neg = x.s.chance(1, 5);
    auto gid = [&]() { return x.s.chance(1, 12) ? (int64_t)1099511627776ll + (int64_t)x.s.draw(3) : x.s.range(0, maxid) - (neg ? 2 : 0); };
    std::vector<int64_t> secs = { 20, 0, 10, 1, 1000, 5, 2147483647, 1600000000, -7 };
    if(x.s.chance(1, 3)) { // beyond what 32 bits hold
        secs.insert(secs.end(), { 2147483648ll, 4294967296ll, 4294967306ll, -2147483649ll, 100000000000ll, INT64_MAX - 1, -INT64_MAX, INT64_MIN });
        c.attrs[(size_t)c.find("now")].ipool.insert(c.attrs[(size_t)c.find("now")].ipool.end(), { INT64_MAX, -INT64_MAX, INT64_MIN });
        x.label("beyond 32 bits");
    }
    Params p = gen_params(x);
    bool direct = x.s.chance(1, 2);
    x.note("config " + config_text(c) + "; " + ptext(p) + (direct ? "; direct" : "; prepared"));
    std::vector<Sub> subs;
    std::vector<Expr*> leaves;
    std::function<E(int)> gen = [&](int d) -> E {
        if(d > 0 && x.s.chance(1, 3)) {
            size_t k = x.s.draw(3);
            E e = mk(k == 0 ? NOT : k == 1 ? AND : OR);
            e->l = gen(d - 1);
            if(k) e->r = gen(d - 1);
            return e;
        }
        E e = mk(SEGM);
        e->op = (int)x.s.draw(2);
        e->a = x.s.pick(segs);
        e->segvar = e->a == da ? x.s.chance(1, 2) : true;
        e->segid = gid();
        e->secs = x.s.pick(secs);
        leaves.push_back(e.get());
        if(!e->segvar) e->a = -1;
        return e;
    };
    do {
        Sub b = make_subm(x.s, c, subs.size() + 1, gen(2));
        note_sub(x, b);
        subs.push_back(b);
    } while(x.s.more(subs.size(), 6, 30));
    Tree t(c, p.cap, p.part, p.dflt);
    add_subs(x, t, subs, direct);
    bool some = false;
    size_t k = 0;
    do {
        Event ev;
        for(auto& a : c.attrs) ev.v.push_back(a.opt && x.s.chance(1, 4) ? nullptr : a.t == T_INT ? gen_val(x.s, c, a) : std::make_shared<Val>());
        int64_t now = ev.v[na] ? ev.v[na]->i : 1000;
        for(int s : segs) {
            if(!ev.v[s]) continue;
            std::map<int64_t, int64_t> m;
            while(x.s.more(m.size(), x.s.chance(1, 4) ? 20 : 3, 45)) {
                int64_t id = gid(), sec = x.s.pick(secs);
                if(x.s.chance(1, 2)) { Expr* e = leaves[x.s.draw(leaves.size())]; id = e->segid; sec = e->secs; }
                __int128 ts = (__int128)now - sec + x.s.range(-1, 1);
                m[id] = (int64_t)(ts < 0 ? 0 : ts > 9000000000000ll ? 9000000000000ll : ts) * 1000000 + (x.s.chance(1, 2) ? 0 : x.s.chance(1, 2) ? 999999 : (int64_t)x.s.draw(1000000));
            }
            for(auto& q : m) ev.v[s]->seg.push_back({ q.first, q.second });
        }
        std::string how;
        Result r = ask(x, t, c, ev, true, how);
        auto want = expected(c, subs, ev);
        x.require(r.ok && r.ids == want, "event " + how + "\n  " + diff_text(c, subs, want, r.ids));
        if(!want.empty() && want.size() < subs.size()) some = true;
    } while(x.s.more(++k, 6, 20));
    x.nontrivial = some;
}

// ------------------------------------------------------------------ C12
// great-circle distance on the unit sphere from 3-d vectors, in extended precision: shares nothing with haversine
static double sphere(double la1, double lo1, double la2, double lo2)
{
    const long double d = 3.14159265358979323846264338327950288L / 180;
    long double a[3] = { cosl(la1 * d) * cosl(lo1 * d), cosl(la1 * d) * sinl(lo1 * d), sinl(la1 * d) };
    long double b[3] = { cosl(la2 * d) * cosl(lo2 * d), cosl(la2 * d) * sinl(lo2 * d), sinl(la2 * d) };
    long double cx = a[1] * b[2] - a[2] * b[1], cy = a[2] * b[0] - a[0] * b[2], cz = a[0] * b[1] - a[1] * b[0];
    long double dot = a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
    return (double)(6372.8L * atan2l(sqrtl(cx * cx + cy * cy + cz * cz), dot));
}
static void p_c12(Ctx& x)
{
    Config c;
    for(const char* n : { "latitude", "longitude" }) {
        Attr a; a.name = n; a.t = T_FLT; a.opt = x.s.chance(1, 3);
        if(x.s.chance(1, 2)) { a.bounded = true; a.fmin = n[1] == 'a' ? -90 : -180; a.fmax = -a.fmin; }
        c.attrs.push_back(a);
    }
    if(x.s.chance(1, 2)) std::swap(c.attrs[0], c.attrs[1]);
    int la = c.find("latitude"), lo = c.find("longitude");
    Params p = gen_params(x);
    bool direct = x.s.chance(1, 2);
    x.note("config " + config_text(c) + "; " + ptext(p) + (direct ? "; direct" : "; prepared"));
    // points: decimals with many digits, integers, poles, antimeridian
    auto coord = [&](int lim, bool integer) {
        Num n;
        char b[40];
        if(integer) { int64_t v = (int64_t)x.s.draw((uint64_t)lim + 1); n.neg = v && x.s.chance(1, 2); n.txt = str(v); return n; }
        switch(x.s.weighted({ 4, 3, 1, 1 })) {
            case 0: snprintf(b, sizeof b, "%d.%02d", (int)x.s.draw((uint64_t)lim), (int)x.s.draw(100)); break;
            case 1: snprintf(b, sizeof b, "%d.%06d", (int)x.s.draw((uint64_t)lim), (int)x.s.draw(1000000)); break;
            case 2: snprintf(b, sizeof b, "%d.0", lim); break;
            default: snprintf(b, sizeof b, "0.%03d", (int)x.s.draw(1000)); break;
        }
        n.txt = b;
        n.neg = n.val() != 0 && x.s.chance(1, 2);
        return n;
    };
    struct Pt { Num la, lo; };
    std::vector<Pt> pts;
    size_t npts = 2 + x.s.draw(3);
    for(size_t i = 0; i < npts; i++) {
        Pt q { coord(90, false), coord(180, false) };
        if(i && x.s.chance(1, 3)) { // near another point
            q = pts[x.s.draw(pts.size())];
            char b[40];
            double v = fabs(q.la.val()) + (double)x.s.draw(100) / 1000;
            if(v < 90) { snprintf(b, sizeof b, "%.4f", v); q.la.txt = b; }
        }
        pts.push_back(q);
    }
    std::vector<Sub> subs;
    do {
        E e = mk(GEO);
        bool integer = x.s.chance(1, 3);
        e->geoint = integer;
        if(integer) { e->lat = coord(90, true); e->lon = coord(180, true); }
        else { auto& q = pts[x.s.draw(pts.size())]; e->lat = x.s.chance(2, 3) ? q.la : coord(90, false); e->lon = x.s.chance(2, 3) ? q.lo : coord(180, false); }
        // radius near the distance to one of the points
        auto& q = pts[x.s.draw(pts.size())];
        double d = sphere(e->lat.val(), e->lon.val(), q.la.val(), q.lo.val());
        static const std::vector<double> f = { 1.001, 0.999, 1.1, 0.9, 1.00001, 0.99999, 2, 0.5, 0 };
        double r = d * x.s.pick(f);
        if(x.s.chance(1, 8)) r = (double)x.s.draw(20100);
        char b[40];
        if(integer) snprintf(b, sizeof b, "%lld", (long long)llround(r));
        else snprintf(b, sizeof b, "%.4f", r);
        e->rad.txt = b;
        if(x.s.chance(1, 6)) { E w = mk(NOT); w->l = e; e = w; }
        Sub s = make_subm(x.s, c, subs.size() + 1, e);
        note_sub(x, s);
        subs.push_back(s);
    } while(x.s.more(subs.size(), 6, 25));
    Tree t(c, p.cap, p.part, p.dflt);
    add_subs(x, t, subs, direct);
    bool some = false;
    auto all = pts;
    all.push_back({ coord(90, false), coord(180, false) });
    for(auto& q : all) {
        Event ev;
        ev.v.resize(2);
        for(int i : { la, lo }) {
            if(c.attrs[(size_t)i].opt && x.s.chance(1, 5)) continue;
            auto v = std::make_shared<Val>();
            v->t = T_FLT;
            v->f = i == la ? q.la : q.lo;
            ev.v[(size_t)i] = v;
        }
        std::string how;
        Result r = ask(x, t, c, ev, true, how);
        x.require(r.ok, "search refused a valid event");
        std::set<uint64_t> got(r.ids.begin(), r.ids.end());
        bool hit = false, miss = false;
        for(auto& b : subs) {
            const Expr* e = b.e->k == NOT ? b.e->l.get() : b.e.get();
            bool want = false;
            if(ev.v[0] && ev.v[1]) {
                double d = sphere(e->lat.val(), e->lon.val(), ev.v[(size_t)la]->f.val(), ev.v[(size_t)lo]->f.val());
                double rad = e->rad.val();
                double tol = 1e-6 * (1 + rad) + (d > 19900 ? 0.01 : 0);
                if(fabs(d - rad) <= tol) continue; // the very edge
                want = d <= rad;
            }
            if(b.e->k == NOT) want = !want;
            (want ? hit : miss) = true;
            x.require(got.count(b.id) == (want ? 1u : 0u), "event " + how + ": " + b.text + " should be " + (want ? "true" : "false"));
        }
        if(hit && miss) some = true;
    }
    x.nontrivial = some;
}

// ------------------------------------------------------------------ C13
static void p_c13(Ctx& x)
{
    Config c;
    Attr a;
    a.name = "m"; a.t = T_STR; a.opt = x.s.chance(1, 3);
    if(x.s.chance(1, 3)) { a.cnt = 3 + x.s.draw(4); a.bounded = true; }
    c.attrs.push_back(a);
    if(x.s.chance(1, 3)) { Attr b = a; b.name = "n"; c.attrs.push_back(b); }
    bool text_safe = x.s.chance(1, 2);
    static const std::vector<std::string> alpha = { "a", "b", "ab", "A", " ", "'", "\xc3\xa9", "0", ".", "(", "\t" };
    static const std::vector<std::string> nasty = { "a", "b", "\"", "\\", "'", "\n", "\x01", "\xff", "\x80", "aa" };
    auto gs = [&](bool lit_safe, double mean) {
        std::string r;
        if(x.s.chance(1, 10)) { // around the sizes of small counters
            static const size_t lens[] = { 15, 31, 63, 64, 127, 128, 255, 256, 300, 520 };
            size_t n = lens[x.s.draw(10)];
            bool same = x.s.chance(1, 2);
            for(size_t i = 0; i < n; i++) r += same ? 'a' : (char)('a' + (i * 7 + i / 5) % 3);
        }
        while(x.s.more(r.size(), mean, 40 + r.size())) r += lit_safe ? alpha[x.s.draw(x.s.chance(1, 2) ? 2 : alpha.size())] : x.s.pick(nasty);
        return r;
    };
    Params p = gen_params(x);
    bool direct = x.s.chance(1, 2);
    x.note("config " + config_text(c) + "; " + ptext(p) + (direct ? "; direct" : "; prepared"));
    std::vector<std::string> evs;
    size_t ne = 2 + x.s.draw(4);
    for(size_t i = 0; i < ne; i++) evs.push_back(gs(text_safe, x.s.chance(1, 5) ? 15 : 4));
    auto literal_ok = [](const std::string& s) { return s.find('\\') == std::string::npos && !(s.find('"') != std::string::npos && s.find('\'') != std::string::npos); };
    std::vector<Sub> subs;
    size_t known = 0;
    do {
        E e;
        int at = (int)x.s.draw(c.attrs.size());
        if(x.s.chance(1, 6) && known < 3) {
            e = mk(EQ); e->a = at; e->iss = true; e->s = std::string("ab").substr(x.s.draw(2)); e->neg = x.s.chance(1, 3); known++;
        }
        else {
            e = mk(STRP);
            e->a = at;
            e->op = (int)x.s.draw(3);
            std::string src = evs[x.s.draw(evs.size())];
            switch(x.s.weighted({ 4, 2, 2, 1, 1 })) {
                case 0: { size_t i = x.s.draw(src.size() + 1); size_t l = x.s.draw(src.size() - i + 1); if(e->op == STARTS && x.s.chance(2, 3)) i = 0; if(e->op == ENDS && x.s.chance(2, 3)) i = src.size() - std::min(l, src.size()); e->s = src.substr(i, l); break; }
                case 1: e->s = src + "a"; break;
                case 2: e->s = gs(true, 2); break;
                case 3: e->s = src; break;
                default: e->s = ""; break;
            }
            if(!e->s.empty() && x.s.chance(1, 5)) { // one bit of one character
                std::string q = e->s;
                size_t i = x.s.pick(std::vector<size_t> { q.size() - 1, 0, q.size() / 2 });
                q[i] = (char)(q[i] ^ (1 << x.s.pick(std::vector<int> { 7, 0, 5, 6, 4 })));
                if(q[i]) e->s = q;
            }
            if(!literal_ok(e->s)) e->s = gs(true, 2);
        }
        if(x.s.chance(1, 6)) { E w = mk(NOT); w->l = e; e = w; }
        if(x.s.chance(1, 6) && !subs.empty()) { E w = mk(x.s.chance(1, 2) ? AND : OR); w->l = e; w->r = clone(subs[x.s.draw(subs.size())].e); e = w; }
        Sub s = make_subm(x.s, c, subs.size() + 1, e);
        note_sub(x, s);
        subs.push_back(s);
    } while(x.s.more(subs.size(), 8, 40));
    Tree t(c, p.cap, p.part, p.dflt);
    add_subs(x, t, subs, direct);
    bool some = false;
    for(auto& s : evs) {
        Event ev;
        bool safe = true;
        for(auto& q : c.attrs) {
            if(q.opt && x.s.chance(1, 6)) { ev.v.push_back(nullptr); continue; }
            auto v = std::make_shared<Val>();
            v->t = T_STR;
            v->s = ev.v.empty() ? s : evs[x.s.draw(evs.size())];
            if(!literal_ok(v->s)) safe = false;
            ev.v.push_back(v);
        }
        std::string how;
        Result r = ask(x, t, c, ev, safe, how);
        auto want = expected(c, subs, ev);
        x.require(r.ok && r.ids == want, "event " + how + "\n  " + diff_text(c, subs, want, r.ids));
        if(!want.empty() && want.size() < subs.size()) some = true;
    }
    x.nontrivial = some;
}

// ------------------------------------------------------------------ C17
static void p_c17(Ctx& x)
{
    bool direct = x.s.chance(1, 2);
    CfgOpt o;
    o.max = 5;
    o.bounded_strings = false;
    Config c = gen_config(x.s, o);
    // sometimes the special attributes exist with the wrong type
    if(x.s.chance(1, 8))
        for(auto& a : c.attrs)
            if(a.name == "now" && x.s.chance(1, 2)) { a.name = "now2"; Attr b; b.name = "now"; b.t = T_STR; b.spool = { "x" }; b.opt = true; c.attrs.push_back(b); break; }
    // sometimes few values fit: what a refused expression would have used must stay free
    bool few = direct && x.s.chance(1, 3);
    if(few)
        for(auto& a : c.attrs)
            if(a.t == T_STR || a.t == T_SL || a.t == T_IE) { a.bounded = true; a.cnt = 1 + x.s.draw(std::max<size_t>(1, a.t == T_IE ? a.ipool.size() : a.spool.size())); }
    Params p = gen_params(x);
    x.note("config " + config_text(c) + "; " + ptext(p) + (direct ? "; direct" : "; prepared"));
    bool wrong_now = c.find("now2") >= 0;
    GenOpt g;
    g.in_domain = direct;
    g.specials = !wrong_now;
    g.depth = (int)x.s.weighted({ 3, 3, 2 });
    Tree t(c, p.cap, p.part, p.dflt), ctl(c, p.cap, p.part, p.dflt);
    std::vector<Sub> subs;
    int refused = 0;
    size_t n = 0;
    bool some = false;
    double mean = x.s.chance(1, 3) ? 20 : 6;
    do {
        size_t op = x.s.weighted({ 4, 5, 2 });
        E e = gen_expr(x.s, c, g);
        Sub b = make_subm(x.s, c, subs.size() + 1, e);
        if(op == 0) {
            note_sub(x, b);
            if(few) {
                bool r = t.insert(b.id, b.text, b.k), q = ctl.insert(b.id, b.text, b.k);
                x.require(r == q, std::string(r ? "accepted" : "refused") + ", unlike in a tree without the attempts: " + b.text);
                if(!q) continue;
            }
            else for(Tree* q : { &t, &ctl }) {
                if(direct) x.require(q->insert(b.id, b.text, b.k), "a well-formed, well-typed expression was refused: " + b.text);
                else { x.require(q->prepare(b.id, b.text, b.k), "a well-formed, well-typed expression was refused: " + b.text); q->commit(); }
            }
            subs.push_back(b);
        }
        else if(op == 1) {
            std::string bad;
            Consts k = b.k;
            bool syn = x.s.chance(1, 3);
            if(wrong_now && x.s.chance(1, 3)) bad = c.find("frequency_caps") >= 0 && x.s.chance(1, 2) ? "within_frequency_cap(\"flight\", \"ns\", 1, 0)" : c.find("seg2") >= 0 ? "segment_within(seg2, 1, 20)" : "segment_before(1, 20)";
            else if(syn) bad = bad_text(x.s, b.text);
            else {
                // known finding of C25: ill-typed expressions inserted directly use values up
                bad = bad_leaf(x.s, c, !direct, !few);
                size_t w = x.s.draw(5);
                if(w == 1) bad = "(" + b.text + ") and " + bad;
                if(w == 2) bad = bad + " or (" + b.text + ")";
                if(w == 3) bad = "not (" + b.text + " or not (" + bad + "))";
                if(w == 4) bad = "(" + b.text + " and (" + bad + " or " + b.text + "))";
            }
            k.has[4] = false; // product_id: bad_leaf relies on it
            if(wrong_now) { k.has[3] = true; k.v[3] = 1; }
            x.note("faulty: " + bad);
            bool acc;
            if(direct) acc = t.insert(999, bad, k);
            else { acc = t.prepare(999, bad, k); }
            std::set<int> ft;
            collect_ftypes(*e, ft);
            if(acc) x.fail("accepted a faulty expression: " + bad);
            refused++;
        }
        else {
            Event ev = gen_event(x.s, c, 25);
            std::string et = event_text(c, ev);
            x.note("event " + et);
            Result r = search(t, et), q = search(ctl, et);
            x.require(r.ok && q.ok, "search refused a valid event");
            auto want = expected(c, subs, ev);
            x.require(r.ids == q.ids, "event " + et + ": after refusals " + ids_text(r.ids) + ", in a tree without the attempts " + ids_text(q.ids));
            x.require(r.ids == want, "event " + et + "\n  " + diff_text(c, subs, want, r.ids));
            if(refused && !want.empty() && want.size() < subs.size()) some = true;
        }
    } while(x.s.more(++n, mean, 80));
    x.nontrivial = some;
    if(refused) x.label("with refusals");
    if(few) x.label("few values fit");
    if(wrong_now) x.label("special attribute of the wrong type");
}

// ------------------------------------------------------------------ C19
static void p_c19(Ctx& x)
{
    bool direct = x.s.chance(1, 3);
    CfgOpt o;
    o.max = 5;
    if(direct) { o.types = { T_INT, T_FLT, T_IL, T_BOOL }; o.specials = false; }
    Config c = gen_config(x.s, o);
    if(!direct) // narrow declared domains too: announcing constants outside extends them
        for(auto& a : c.attrs) if(a.t == T_INT && a.bounded && x.s.chance(1, 2)) a.ipool.insert(a.ipool.end(), a.iout.begin(), a.iout.end());
    Params p = gen_params(x);
    x.note("config " + config_text(c) + "; " + ptext(p) + (direct ? "; direct" : "; prepared"));
    GenOpt g;
    g.in_domain = direct;
    g.depth = (int)x.s.weighted({ 4, 3, 2 });
    std::vector<E> pool;
    size_t np = 2 + x.s.draw(12);
    for(size_t i = 0; i < np; i++) pool.push_back(gen_expr(x.s, c, g));
    Tree t(c, p.cap, p.part, p.dflt);
    std::vector<Sub> subs;
    size_t n = 0, ann = 0;
    bool some = false;
    double mean = x.s.chance(1, 2) ? 10 : 40;
    // most of the time all announcements come first, as documented
    bool first = x.s.chance(1, 2);
    if(first) { size_t m = 1 + x.s.draw(np * 2); for(size_t i = 0; i < m; i++) { std::string e = text(c, *pool[x.s.draw(np)]); x.note("announce " + e); x.require(betree_change_boundaries(t.t, e.c_str()), "could not be announced: " + e); ann++; } }
    do {
        size_t op = x.s.weighted({ 5, 3, 2, 1 });
        if(op == 0) {
            Sub b = make_subm(x.s, c, subs.size() + 1, x.s.chance(1, 2) ? pool[x.s.draw(np)] : gen_expr(x.s, c, g));
            note_sub(x, b);
            if(direct) x.require(t.insert(b.id, b.text, b.k), "refused: " + b.text);
            else { x.require(t.prepare(b.id, b.text, b.k), "refused: " + b.text); if(x.s.chance(1, 2)) t.commit(); }
            subs.push_back(b);
        }
        else if(op == 1) {
            std::string e = text(c, *(x.s.chance(1, 2) ? pool[x.s.draw(np)] : gen_expr(x.s, c, g)));
            x.note("announce " + e);
            x.require(betree_change_boundaries(t.t, e.c_str()), "could not be announced: " + e);
            ann++;
        }
        else if(op == 2) {
            t.commit();
            Event ev = gen_event(x.s, c, 25);
            std::string et = event_text(c, ev);
            x.note("event " + et);
            Result r = search(t, et);
            auto want = expected(c, subs, ev);
            x.require(r.ok && r.ids == want, "event " + et + "\n  " + diff_text(c, subs, want, r.ids));
            if(ann && !want.empty() && want.size() < subs.size()) some = true;
        }
        else {
            static const std::vector<std::string> syn = { "", "a =", "zz_unknown = 1", "(", "zz_unknown and a", "1 in (1, 2)", "a @" };
            std::string bad = x.s.chance(1, 2) ? syn[x.s.draw(syn.size())] : bad_leaf(x.s, c, false);
            if(bad.compare(0, 20, "within_frequency_cap") == 0) continue; // announcing needs no constants
            x.note("announce faulty " + bad);
            x.require(!betree_change_boundaries(t.t, bad.c_str()), "a faulty expression was announced: " + bad);
        }
    } while(x.s.more(++n, mean, 150));
    t.commit();
    for(int i = 0; i < 3; i++) {
        Event ev = gen_event(x.s, c, 25);
        std::string et = event_text(c, ev);
        x.note("event " + et);
        Result r = search(t, et);
        auto want = expected(c, subs, ev);
        x.require(r.ok && r.ids == want, "event " + et + "\n  " + diff_text(c, subs, want, r.ids));
        if(ann && !want.empty() && want.size() < subs.size()) some = true;
    }
    x.nontrivial = some;
    x.label(direct ? "direct" : "prepared");
    if(first) x.label("announced first");
}

// ------------------------------------------------------------------ C25
static void vocab(const Config& c, const Expr& e, std::map<int, std::set<std::string>>& out)
{
    if(e.l) vocab(c, *e.l, out);
    if(e.r) vocab(c, *e.r, out);
    if(e.a < 0) return;
    VT t = c.attrs[(size_t)e.a].t;
    if(t == T_IE && e.k == EQ) out[e.a].insert(str(e.i));
    if((t == T_STR || t == T_SL) && e.iss && e.k != STRP) {
        if(e.k == EQ || e.k == SETL) out[e.a].insert(e.s);
        for(auto& s : e.sl) out[e.a].insert(s);
    }
}
static void p_c25(Ctx& x)
{
    Config c;
    int n = 1 + (int)x.s.draw(3);
    for(int i = 0; i < n; i++) {
        Attr a;
        a.name = std::string(1, (char)('a' + i));
        a.t = std::vector<VT> { T_STR, T_SL, T_IE }[x.s.draw(3)];
        a.opt = x.s.chance(1, 3);
        a.cnt = 1 + x.s.draw(5);
        a.bounded = true;
        size_t m = a.cnt + x.s.draw(4);
        // texts: short, alike but for the last letters, or each the start of the next
        static const size_t stems[] = { 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256 };
        size_t kind = x.s.weighted({ 4, 1, 1 });
        std::string stem = kind == 1 ? std::string(stems[x.s.draw(13)] - x.s.draw(2), 'v') : "v";
        for(size_t j = 0; j < m; j++) {
            if(a.t == T_IE) a.ipool.push_back((int64_t)j * 7 - 3);
            else if(kind == 2) a.spool.push_back(std::string(j, 'v'));
            else a.spool.push_back(j == 3 ? "" : stem + str(j));
        }
        if(a.t == T_IE && m > 1 && x.s.chance(1, 4)) a.ipool[m - 1] = a.ipool[0] + (x.s.chance(1, 2) ? 4294967296ll : 1ll << 62); // the same lower half
        if(a.t == T_IE) a.iout = { 1000, -1000 };
        c.attrs.push_back(a);
    }
    if(x.s.chance(1, 3)) { Attr a; a.name = "z"; a.t = T_BOOL; a.opt = true; c.attrs.push_back(a); }
    Params p = gen_params(x);
    x.note("config " + config_text(c) + "; " + ptext(p));
    GenOpt g;
    g.depth = (int)x.s.weighted({ 4, 3, 2 });
    g.specials = x.s.chance(1, 4);
    g.nulls = x.s.chance(1, 4);
    Tree t(c, p.cap, p.part, p.dflt);
    std::map<int, std::set<std::string>> used;
    std::vector<Sub> subs;
    bool acc = false, ref = false, some = false;
    size_t k = 0;
    Style st;
    st.s = &x.s;
    st.casing = true;
    do {
        size_t op = x.s.weighted({ 3, 1, 1 });
        if(op == 2) { // refused for another reason: uses no value
            E e = gen_expr(x.s, c, g);
            Sub b = make_subm(x.s, c, subs.size() + 1, e, &st);
            // known finding: an ill-typed one does use its values, so unknown attributes and missing constants only
            std::string bad = bad_leaf(x.s, c, false, false);
            size_t w = x.s.draw(4);
            bad = w == 0 ? bad_text(x.s, b.text) : w == 1 ? bad + " or (" + b.text + ")" : w == 2 ? "(" + b.text + ") and " + bad : "not (" + b.text + " or not (" + bad + "))";
            Consts k = b.k;
            k.has[4] = false; // product_id: bad_leaf relies on it
            x.note("faulty: " + bad);
            x.require(!t.insert(999, bad, k), "accepted a faulty expression: " + bad);
        }
        else if(op == 0) {
            E e = gen_expr(x.s, c, g);
            Sub b = make_subm(x.s, c, subs.size() + 1, e, &st);
            auto u = used;
            vocab(c, *e, u);
            bool fits = true;
            for(auto& q : u) if(q.second.size() > c.attrs[(size_t)q.first].cnt) fits = false;
            x.note(std::string(fits ? "fits: " : "does not fit: ") + b.text);
            bool r = t.insert(b.id, b.text, b.k);
            x.require(r == fits, std::string(fits ? "refused although the values fit: " : "accepted although the values do not fit: ") + b.text);
            if(fits) { used = u; subs.push_back(b); acc = true; }
            else ref = true;
        }
        else {
            Event ev = gen_event(x.s, c, 20);
            std::string how;
            Result r = ask(x, t, c, ev, true, how);
            auto want = expected(c, subs, ev);
            x.require(r.ok && r.ids == want, "event " + how + "\n  " + diff_text(c, subs, want, r.ids));
            if(!want.empty() && want.size() < subs.size()) some = true;
        }
    } while(x.s.more(++k, 15, 60));
    x.nontrivial = acc && ref;
    if(some) x.label("an event separates the expressions");
}

// ------------------------------------------------------------------ registration
static std::vector<Property> props()
{
    std::vector<Property> v;
    CfgFn il = [](betree* t) { betree_add_integer_list_variable(t, "l", false, INT64_MIN, INT64_MAX); };
    CfgFn caps = [](betree* t) { betree_add_frequency_caps_variable(t, "frequency_caps", false); betree_add_integer_variable(t, "now", false, INT64_MIN, INT64_MAX); };
    Consts fl; fl.has[3] = true; fl.v[3] = 7;
    auto refuse = [](Ctx& x, const CfgFn& cfg, const std::vector<std::string>& bad) {
        for(auto& e : bad) {
            Config none; Tree t(none, 3, 0, false);
            cfg(t.t);
            x.require(!t.insert(1, e), "direct insertion accepted " + e);
            x.require(!t.prepare(1, e), "prepared " + e);
            x.require(!betree_change_boundaries(t.t, e.c_str()), "announced " + e);
        }
    };
    v.push_back({ "C09", "one list, integer or string attribute, 1..25 membership, one/none/all of and emptiness tests with lists of 1..60, sometimes up to 700, rarely tens of thousands of values (repeats, any order, 64-bit extremes), events with as many values derived from the expressions' lists or drawn at random, also never-seen values; compared with set operations. Non-trivial: some event separates the expressions.", 200000, 3500000, p_c09,
        Regs { { "repeated value in all of", [=](Ctx& x) { for(bool d : { false, true }) reg_case(x, il, { "l all of (1, 1)", "l all of (1, 2, 1)", "l one of (3, 3)", "l none of (3, 3)" }, { { "{\"l\": [1]}", { 1, 4 } }, { "{\"l\": [1, 2, 1]}", { 1, 2, 4 } }, { "{\"l\": [3]}", { 3 } } }, d); } } }, 0.2, 40, {} });
    v.push_back({ "C10", "within_frequency_cap over 10 entity types, 1..6 namespaces, counts and lengths at boundaries, random constants (also missing: must be refused); events with 0..16 caps derived from the expressions and perturbed in one component, timestamps at the boundary or undefined; flat, nested and API events. Non-trivial: some event separates the expressions.", 130000, 3000000, p_c10,
        Regs { { "beyond 32 bits", [=](Ctx& x) { for(bool d : { false, true }) reg_case(x, caps, { "within_frequency_cap(\"flight\", \"n1\", 4294967296, 0)", "within_frequency_cap(\"flight\", \"n1\", -1, 0)", "not within_frequency_cap(\"flight\", \"n1\", 8589934593, 0)" }, { { "{\"now\": 10, \"frequency_caps\": [[\"flight\", 7, \"n1\", 1, 0]]}", { 1 } }, { "{\"now\": 10, \"frequency_caps\": [[\"flight\", 4294967303, \"n1\", 8589934594, 0]]}", { 1, 2 } }, { "{\"now\": 10, \"frequency_caps\": [[\"flight\", 7, \"n1\", 8589934594, 0]]}", { 3 } } }, d, 3, 0, fl); } }, { "two namespaces", [=](Ctx& x) { for(bool d : { false, true }) reg_case(x, caps, { "within_frequency_cap(\"flight\", \"n1\", 1, 0)", "within_frequency_cap(\"flight\", \"n2\", 1, 0)", "within_frequency_cap(\"flight\", \"n3\", 1, 0)" }, { { "{\"now\": 10, \"frequency_caps\": [[\"flight\", 7, \"n2\", 1, 0]]}", { 1, 3 } }, { "{\"now\": 10, \"frequency_caps\": [[\"flight\", 7, \"n3\", 1, 0], [\"flight\", 7, \"n1\", 1, 0]]}", { 2 } } }, d, 3, 0, fl); } } }, 0.2, 40, {} });
    v.push_back({ "C11", "segment_within / segment_before on the default and named segment attributes, ids and windows also negative and past 32 bits, events with 0..45 segments in increasing id with timestamps at the boundary in microseconds. Non-trivial: some event separates the expressions.", 150000, 3500000, p_c11, Regs { { "beyond 32 bits", [=](Ctx& x) { for(bool d : { false, true }) reg_case(x, [](betree* t) { betree_add_segments_variable(t, "seg", false); betree_add_integer_variable(t, "now", false, INT64_MIN, INT64_MAX); }, { "segment_within(seg, 1, 4294967296)", "segment_before(seg, 1, 4294967296)", "segment_within(seg, 1, 0)" }, { { "{\"now\": 100, \"seg\": [[1, 5000000]]}", { 1 } }, { "{\"now\": 4294967300, \"seg\": [[1, 3000000]]}", { 2 } }, { "{\"now\": -9223372036854775807, \"seg\": [[1, 3000000]]}", { 1, 3 } } }, d, 3, 0, Consts {}); } } }, 0.2, 40, {} });
    v.push_back({ "C12", "geo_within_radius with decimal or integer arguments of either sign, radii a little above and below the distance to some event point; compared with an extended-precision vector formula, skipping a relative margin of 1e-6 around the edge. Non-trivial: some event satisfies one expression and not another.", 220000, 3000000, p_c12,
        Regs { { "latitude and longitude not configured", [=](Ctx& x) { refuse(x, [](betree* t) { betree_add_float_variable(t, "latitude", false, -90, 90); }, { "geo_within_radius(1.0, 2.0, 3.0)" }); } } }, 0.2, 60, { "Earth radius 6372.8 km, as the code documents" } });
    v.push_back({ "C13", "contains / starts_with / ends_with with patterns cut out of, longer than, or unrelated to the event strings; strings of 0..40 pieces or up to 520 characters, patterns also with one bit of one character changed, quotes, spaces, UTF-8 and (through the API) arbitrary bytes, known and unknown to the tree. Non-trivial: some event separates the expressions.", 300000, 3500000, p_c13, Regs {}, 0.2, 40, {} });
    v.push_back({ "C17", "histories of valid expressions, faulty ones (syntax, unknown attribute, each operator on each wrong type, missing special attribute or constant, null test of a mandatory attribute when preparing; alone or inside a valid expression) and searches, against a control tree that never saw the faulty ones. Non-trivial: after a refusal some event separates the accepted expressions.", 110000, 2000000, p_c17,
        Regs { { "set without exactly one variable", [=](Ctx& x) { refuse(x, [](betree* t) { betree_add_integer_variable(t, "x", true, 0, 10); betree_add_integer_list_variable(t, "y", true, 0, 10); }, { "1 in (1, 2)", "x in y", "x not in x", "\"a\" in (\"a\")" }); } },
               { "geo without coordinates", [=](Ctx& x) { refuse(x, [](betree* t) { betree_add_boolean_variable(t, "b", true); }, { "geo_within_radius(1.0, 2.0, 3.0)", "b or geo_within_radius(1.0, 2.0, 3.0)" }); } },
               { "special attributes of the wrong type", [=](Ctx& x) { refuse(x, [](betree* t) { betree_add_string_variable(t, "now", true, SIZE_MAX); betree_add_segments_variable(t, "segments_with_timestamp", true); betree_add_boolean_variable(t, "b", true); betree_add_integer_variable(t, "latitude", true, 0, 1); betree_add_float_variable(t, "longitude", true, 0, 1); }, { "segment_within(1, 20)", "segment_within(b, 1, 20)", "contains(b, 'x')", "geo_within_radius(1.0, 2.0, 3.0)" }); } },
               { "ill-typed", [=](Ctx& x) { refuse(x, [](betree* t) { betree_add_integer_variable(t, "i", true, 0, 10); betree_add_string_variable(t, "s", true, 5); betree_add_boolean_variable(t, "b", true); }, { "i", "b = 1", "s = 1", "i = 'x'", "s < 3", "i = 1.5", "b in (1)", "i one of (1)", "unknown", "unknown = 1" }); } },
               { "a refused preparation uses no vocabulary", [=](Ctx& x) {
                   Config none; Tree t(none, 3, 0, false);
                   betree_add_string_variable(t.t, "s", true, 1); betree_add_boolean_variable(t.t, "b", true); betree_add_frequency_caps_variable(t.t, "frequency_caps", true); betree_add_integer_variable(t.t, "now", true, 0, 10);
                   x.require(!t.prepare(1, "s = 'x' and unknown"), "accepted");
                   x.require(!t.prepare(1, "s = 'y' and b = 1"), "accepted");
                   x.require(!t.prepare(1, "s = 'z' and within_frequency_cap('flight', 'ns', 1, 0)"), "accepted without its constant");
                   x.require(t.insert(1, "s = 'w'"), "the vocabulary is used up by refused expressions");
                   Result r = search(t, "{\"s\": \"w\"}");
                   x.require(r.ids == std::vector<uint64_t> { 1 }, "s = 'w' not found");
               } } }, 0.1, 40, {} });
    v.push_back({ "C19", "histories of announcements (valid, repeated, never inserted, faulty), insertions (prepared, or direct inside the declared domains) and searches, announcements first or interleaved; ids compared with the reference evaluator. Non-trivial: after an announcement some event separates the expressions.", 70000, 2500000, p_c19,
        Regs { { "largest integer announced", [=](Ctx& x) { reg_case(x, [](betree* t) { betree_add_integer_variable(t, "a", false, INT64_MIN, INT64_MAX); betree_change_boundaries(t, "a <= 9223372036854775807"); betree_change_boundaries(t, "a >= 0"); betree_change_boundaries(t, "a > 9223372036854775807"); }, { "a < 0", "a <= 1", "a >= 0", "a <= 9223372036854775807" }, { { "{\"a\": 1}", { 2, 3, 4 } } }); } },
               { "faulty announcements", [=](Ctx& x) { refuse(x, [](betree* t) { betree_add_integer_variable(t, "i", true, 0, 10); }, { "unknown = 1", "i", "i = 'x'", "(", "1 in (1, 2)" }); } } }, 0.2, 40, {} });
    v.push_back({ "C25", "1..3 bounded string, string-list or enum attributes of capacity 1..5, histories of direct insertions over slightly too many values (names in mixed case), faulty insertions (refused for another reason, so they use no value) and searches; acceptance compared with the set of values used so far, searches with the reference evaluator. Non-trivial: the history has both accepted and refused insertions.", 150000, 3000000, p_c25,
        Regs { { "one expression over the bound", [=](Ctx& x) {
                   Config none; Tree t(none, 3, 0, false);
                   betree_add_string_variable(t.t, "s", true, 2); betree_add_string_list_variable(t.t, "l", true, 1);
                   x.require(!t.insert(1, "s in ('a', 'b', 'c')"), "three values accepted");
                   x.require(!t.insert(1, "s = 'a' or s = 'b' or s = 'c'"), "three values accepted");
                   x.require(!t.insert(1, "l one of ('a', 'b')"), "two values accepted");
                   x.require(t.insert(1, "s in ('a', 'b', 'a')"), "two values refused");
                   x.require(t.insert(2, "l all of ('q', 'q')"), "one value refused");
                   x.require(!t.insert(3, "s = 'c'"), "third value accepted");
               } },
               { "a refused expression uses no value", [=](Ctx& x) {
                   Config none; Tree t(none, 3, 0, false);
                   betree_add_string_variable(t.t, "s", true, 1); betree_add_string_list_variable(t.t, "l", true, 1); betree_add_integer_enum_variable(t.t, "e", true, 1);
                   x.require(!t.insert(1, "s = 'x' and l one of ('p') and e = 1 and b"), "unknown attribute, accepted");
                   x.require(!t.insert(1, "s = 'x' and l one of ('p') and e in"), "incomplete, accepted");
                   x.require(!t.insert(1, "s = 'x' and l one of ('p') and (e = 1 or e = 2)"), "two values, accepted");
                   x.require(t.insert(1, "s = 'y'"), "refused: s = 'y'");
                   x.require(t.insert(2, "l one of ('q')"), "refused: l one of ('q')");
                   x.require(t.insert(3, "e = 2"), "refused: e = 2");
               } },
               { "cap namespaces are not a bounded vocabulary", [=](Ctx& x) {
                   Config none; Tree t(none, 3, 0, false);
                   caps(t.t);
                   for(int i = 0; i < 4; i++) x.require(t.insert((uint64_t)i, "within_frequency_cap(\"flight\", \"n" + str(i) + "\", 1, 0)", fl), "refused");
               } } }, 0.2, 40, {} });
    return v;
}

int main(int argc, char** argv) { auto p = props(); return eng::engine_main(argc, argv, p); }

// C36: diagnostic output shows the true state: the graph of a tree, printed attributes, ranges,
// variables and events.
#include "account.hpp"
#include "common.hpp"
#include "dump.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "debug.h"
struct betree_event* make_event_from_string(const struct betree* betree, const char* event_str);
}
using namespace api;

// ------------------------------------------------------------------ files
// A directory of its own for one call; the graph is always written to data/betree.dot.
struct Scratch {
    int back;
    char dir[32];
    Scratch()
    {
        strcpy(dir, "/tmp/be-diag-XXXXXX");
        back = open(".", O_RDONLY | O_DIRECTORY);
        if(back < 0 || !mkdtemp(dir) || chdir(dir) != 0 || mkdir("data", 0700) != 0) { perror("scratch"); abort(); }
    }
    ~Scratch()
    {
        std::string d = dir;
        unlink((d + "/data/betree.dot").c_str());
        rmdir((d + "/data").c_str());
        rmdir(d.c_str());
        if(fchdir(back) != 0) abort();
        close(back);
    }
    std::string read()
    {
        std::string r;
        FILE* f = fopen("data/betree.dot", "r");
        if(!f) return r;
        char b[4096];
        size_t n;
        while((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
        fclose(f);
        return r;
    }
};
static int lowest_fd() { int f = dup(2); if(f >= 0) close(f); return f; }

// What fn prints.
static std::string printed(Ctx& x, const std::function<void()>& fn)
{
    fflush(stdout);
    int save = dup(1), m = memfd_create("out", 0);
    if(save < 0 || m < 0 || dup2(m, 1) < 0) { perror("printed"); abort(); }
    Balance mem;
    fn();
    fflush(stdout);
    dup2(save, 1);
    close(save);
    std::string r;
    char b[4096];
    ssize_t n;
    lseek(m, 0, SEEK_SET);
    while((n = ::read(m, b, sizeof b)) > 0) r.append(b, (size_t)n);
    close(m);
    mem.check(x, "printing '" + r + "'");
    return r;
}

// ------------------------------------------------------------------ the DOT language
struct Dot {
    Ctx& x;
    const std::string& t;
    size_t p = 0;
    struct Tok { char k; std::string s; }; // k: i identifier, h html, or the punctuation; > is ->; 0 end
    Tok cur;
    struct Node { std::map<std::string, std::string> attrs; std::string cluster; };
    struct Edge { std::string from, port, to, lhead; };
    std::map<std::string, Node> nodes;
    std::vector<Edge> edges;
    std::map<std::string, std::vector<std::string>> clusters; // nodes declared inside, in order
    std::vector<std::string> refs;                            // named in rank groups
    std::set<std::set<std::string>> level;                    // the rank groups
    Dot(Ctx& x_, const std::string& t_) : x(x_), t(t_) { cur = Tok { 0, "" }; }
    [[noreturn]] void bad(const std::string& m) { x.fail("the graph is not in the DOT language: " + m + " near '" + t.substr(p > 60 ? p - 60 : 0, 90) + "'"); }
    void next()
    {
        while(p < t.size() && isspace((unsigned char)t[p])) p++;
        if(p >= t.size()) { cur = Tok { 0, "" }; return; }
        char c = t[p];
        if(c == '"') {
            std::string s;
            for(p++; p < t.size() && t[p] != '"'; p++) {
                if(t[p] == '\\' && p + 1 < t.size() && t[p + 1] == '"') p++;
                s += t[p];
            }
            if(p >= t.size()) bad("an unfinished string");
            p++;
            cur = Tok { 'i', s };
        }
        else if(c == '<') {
            int d = 0;
            size_t b = p;
            for(; p < t.size(); p++) {
                if(t[p] == '<') d++;
                if(t[p] == '>' && --d == 0) break;
            }
            if(p >= t.size()) bad("an unfinished label");
            p++;
            cur = Tok { 'h', t.substr(b + 1, p - b - 2) };
        }
        else if(isalpha((unsigned char)c) || c == '_' || (unsigned char)c >= 128) {
            size_t b = p;
            while(p < t.size() && (isalnum((unsigned char)t[p]) || t[p] == '_' || (unsigned char)t[p] >= 128)) p++;
            cur = Tok { 'i', t.substr(b, p - b) };
        }
        else if(c == '-' && p + 1 < t.size() && t[p + 1] == '>') { p += 2; cur = Tok { '>', "->" }; }
        else if(isdigit((unsigned char)c) || c == '.' || c == '-') {
            size_t b = p;
            if(c == '-') p++;
            bool dig = false;
            while(p < t.size() && (isdigit((unsigned char)t[p]) || t[p] == '.')) { dig |= t[p] != '.'; p++; }
            if(!dig) bad("a number");
            cur = Tok { 'i', t.substr(b, p - b) };
        }
        else if(strchr("{}[]=,;:", c)) { p++; cur = Tok { c, std::string(1, c) }; }
        else bad(std::string("unexpected '") + c + "'");
    }
    std::string id(const char* what) { if(cur.k != 'i') bad(std::string("expected ") + what + ", found '" + cur.s + "'"); std::string s = cur.s; next(); return s; }
    void expect(char k) { if(cur.k != k) bad(std::string("expected '") + k + "', found '" + cur.s + "'"); next(); }
    std::map<std::string, std::string> attrs()
    {
        std::map<std::string, std::string> m;
        while(cur.k == '[') {
            next();
            while(cur.k != ']') {
                std::string k = id("an attribute");
                expect('=');
                if(cur.k != 'i' && cur.k != 'h') bad("expected the value of " + k);
                m[k] = cur.s;
                next();
                if(cur.k == ',' || cur.k == ';') next();
            }
            next();
        }
        return m;
    }
    void stmts(const std::string& cluster, bool top)
    {
        while(cur.k != '}') {
            if(cur.k == 0) bad("the text ends in the middle");
            if(cur.k == ';' || cur.k == ',') { if(cur.k == ',' && top) bad("a comma between statements"); next(); continue; }
            if(cur.k == '{') {
                size_t first = refs.size();
                next();
                stmts(cluster, false);
                next();
                level.insert(std::set<std::string>(refs.begin() + (long)first, refs.end()));
                continue;
            }
            bool bare = t[p - 1] != '"';
            std::string n = id("a statement");
            if(bare && n == "subgraph") {
                std::string c = cur.k == 'i' ? id("a name") : "";
                if(clusters.count(c)) x.fail("two clusters of one name: " + c);
                clusters[c];
                expect('{');
                stmts(c, true);
                next();
                continue;
            }
            if(cur.k == '=') { next(); id("a value"); continue; }
            if(bare && (n == "node" || n == "edge" || n == "graph")) { attrs(); continue; }
            Edge e;
            e.from = n;
            if(cur.k == ':') { next(); e.port = id("a port"); }
            if(cur.k == '>') {
                next();
                e.to = id("a node");
                auto a = attrs();
                e.lhead = a["lhead"];
                edges.push_back(e);
                continue;
            }
            if(cur.k == '[') {
                auto a = attrs();
                if(nodes.count(n) && nodes[n].attrs != a) x.fail("two different nodes are named " + n);
                if(!cluster.empty()) { clusters[cluster].push_back(n); nodes[n].cluster = cluster; }
                nodes[n].attrs = a;
                continue;
            }
            refs.push_back(n);
        }
    }
    void parse()
    {
        next();
        if(id("digraph") != "digraph") bad("not a digraph");
        expect('{');
        stmts("", true);
        next();
        if(cur.k != 0) bad("more text after the graph");
        for(auto& e : edges)
            for(auto& n : { e.from, e.to }) if(!nodes.count(n)) x.fail("the graph has an edge " + e.from + " -> " + e.to + " but no node " + n);
        for(auto& r : refs) if(!nodes.count(r)) x.fail("the graph ranks a node " + r + " that it does not have");
        for(auto& e : edges) if(!e.lhead.empty() && !clusters.count(e.lhead)) x.fail("an edge leads to an unknown cluster " + e.lhead);
    }
};

static std::string range_text(const value_bound& b)
{
    char s[900];
    switch(b.value_type) {
        case BETREE_INTEGER: case BETREE_INTEGER_LIST: snprintf(s, sizeof s, "[%lld, %lld]", (long long)b.imin, (long long)b.imax); break;
        case BETREE_FLOAT: snprintf(s, sizeof s, "[%.0f, %.0f]", b.fmin, b.fmax); break;
        case BETREE_BOOLEAN: snprintf(s, sizeof s, "[%s, %s]", b.bmin ? "true" : "false", b.bmax ? "true" : "false"); break;
        default: snprintf(s, sizeof s, "[%zu, %zu]", b.smin, b.smax);
    }
    return s;
}

// The graph against the tree.
struct Match {
    Ctx& x;
    Dot& d;
    std::map<std::string, std::vector<const Dot::Edge*>> out;
    std::set<std::string> used;
    size_t ranges = 0, parts = 0;
    Match(Ctx& x_, Dot& d_) : x(x_), d(d_) { for(auto& e : d.edges) out[e.from].push_back(&e); }
    [[noreturn]] void bad(const std::string& m) { x.fail("graph: " + m); }
    void use(const std::string& n, const std::string& what)
    {
        x.checks++;
        if(!d.nodes.count(n)) bad("no node " + n + " for " + what);
        if(!used.insert(n).second) bad("node " + n + " stands for two things, one of them " + what);
    }
    const std::string& label(const std::string& n) { return d.nodes[n].attrs["label"]; }
    // an attribute may be called so too; its p-node is no circle
    bool is(const std::string& n, const char* what) { return label(n) == what && d.nodes[n].attrs["shape"] == "circle"; }
    void cnode_(const cnode* n, const std::string& g)
    {
        use(g, "a c-node");
        if(!is(g, "c-node")) bad(g + " should be a c-node");
        bool leaf = false, dir = false;
        bool has_dir = n->pdir && n->pdir->pnode_count > 0;
        for(auto e : out[g]) {
            if(is(e->to, "l-node")) {
                if(leaf) bad("two leaves of " + g);
                leaf = true;
                use(e->to, "a leaf");
                std::vector<std::string> want, got;
                for(size_t i = 0; i < n->lnode->sub_count; i++) want.push_back(str(n->lnode->subs[i]->id));
                if(out[e->to].size() != (want.empty() ? 0u : 1u)) bad(str(out[e->to].size()) + " lists of expressions at the leaf of " + g);
                for(auto r : out[e->to]) {
                    use(r->to, "a list of expressions");
                    const std::string& l = label(r->to);
                    for(size_t at = 0; (at = l.find("S<sub>", at)) != std::string::npos;) {
                        at += 6;
                        got.push_back(l.substr(at, l.find("</sub>", at) - at));
                    }
                }
                std::sort(want.begin(), want.end());
                std::sort(got.begin(), got.end());
                if(want != got) { std::string m; for(auto& s : got) m += s + " "; std::string w; for(auto& s : want) w += s + " "; bad("the leaf of " + g + " shows " + m + "and holds " + w); }
            }
            else {
                if(dir || !has_dir) bad("a p-directory too many at " + g);
                dir = true;
                pdir_(n->pdir, e->lhead, g);
            }
        }
        if(!leaf) bad("no leaf at " + g);
        if(dir != has_dir) bad("no p-directory at " + g);
    }
    void pdir_(const pdir* pd, const std::string& cl, const std::string& at)
    {
        if(!d.clusters.count(cl)) bad("no cluster for the p-directory of " + at);
        std::set<std::string> level;
        if(d.clusters[cl].size() != pd->pnode_count) bad(str(d.clusters[cl].size()) + " p-nodes shown at " + at + " of " + str(pd->pnode_count));
        for(size_t i = 0; i < pd->pnode_count; i++) {
            const pnode* p = pd->pnodes[i];
            std::string box;
            for(auto& b : d.clusters[cl]) if(label(b) == p->attr_var.attr) { if(!box.empty()) bad(std::string("two p-nodes for ") + p->attr_var.attr); box = b; }
            if(box.empty()) bad(std::string("no p-node for ") + p->attr_var.attr + " at " + at);
            use(box, "a p-node");
            parts++;
            if(out[box].size() != 1) bad("p-node " + box + " has " + str(out[box].size()) + " edges");
            std::string fake = out[box][0]->to;
            use(fake, "the p-node of " + box);
            if(!is(fake, "p-node")) bad(fake + " should be a p-node");
            if(out[fake].size() != 1) bad("p-node " + fake + " has " + str(out[fake].size()) + " edges");
            level.insert(fake);
            const Dot::Edge* e = out[fake][0];
            use(e->to, "a c-directory");
            if(d.nodes[e->to].cluster != e->lhead) bad("the edge of " + fake + " does not lead to its c-directory");
            cdir_(p->cdir, e->to);
        }
        level_(level, "p-nodes at " + at);
    }
    void level_(const std::set<std::string>& names, const std::string& what)
    {
        x.checks++;
        if(!names.empty() && !d.level.count(names)) bad("the " + what + " are not drawn on one level");
    }
    struct Cell { std::string port, text; size_t from, to; }; // columns
    void rows(const cdir* c, size_t depth, std::vector<std::vector<const cdir*>>& r)
    {
        if(!c) return;
        if(r.size() <= depth) r.resize(depth + 1);
        r[depth].push_back(c);
        rows(c->lchild, depth + 1, r);
        rows(c->rchild, depth + 1, r);
    }
    void cdir_(const cdir* c, const std::string& g)
    {
        const std::string& l = label(g);
        std::vector<std::vector<Cell>> got;
        size_t at = 0, column = 0;
        while((at = l.find('<', at)) != std::string::npos) {
            size_t end = l.find('>', at);
            std::string tag = l.substr(at + 1, end - at - 1);
            at = end + 1;
            if(tag == "tr") { got.emplace_back(); column = 0; }
            if(tag.compare(0, 2, "td") == 0) {
                if(got.empty()) bad("a cell outside of a row in " + g);
                std::string text = l.substr(at, l.find('<', at) - at), port;
                size_t q = tag.find("port=\"");
                if(q != std::string::npos) port = tag.substr(q + 6, tag.find('"', q + 6) - q - 6);
                q = tag.find("colspan=\"");
                size_t wide = q != std::string::npos ? strtoul(tag.c_str() + q + 9, nullptr, 10) : 1;
                if(wide < 1) bad("a cell of no width in " + g);
                if(!text.empty()) got.back().push_back({ port, text, column, column + wide });
                column += wide;
            }
        }
        std::vector<std::vector<const cdir*>> want;
        rows(c, 0, want);
        if(got.size() != want.size()) bad(str(got.size()) + " rows of ranges in " + g + ", " + str(want.size()) + " in the tree");
        std::map<std::string, const cdir*> port;
        std::map<const cdir*, Cell> place;
        for(size_t i = 0; i < want.size(); i++) {
            if(got[i].size() != want[i].size()) bad(str(got[i].size()) + " ranges in row " + str(i) + " of " + g + ", " + str(want[i].size()) + " in the tree");
            for(size_t k = 0; k < want[i].size(); k++) {
                ranges++;
                if(got[i][k].text != range_text(want[i][k]->bound)) bad("range " + got[i][k].text + " shown for " + range_text(want[i][k]->bound) + " in " + g);
                place[want[i][k]] = got[i][k];
                if(!port.emplace(got[i][k].port, want[i][k]).second) bad("two ranges of " + g + " have one name, " + got[i][k].port);
            }
        }
        for(auto& q : place) // a half is drawn below its side of what it is a half of
            for(const cdir* half : { q.first->lchild, q.first->rchild }) {
                if(!half) continue;
                const Cell &u = q.second, &v = place[half];
                size_t mid = u.from + (u.to - u.from) / 2;
                x.checks++;
                if(half == q.first->lchild ? v.from < u.from || v.to > mid : v.from < mid || v.to > u.to) bad("range " + v.text + " in columns " + str(v.from) + " to " + str(v.to) + " is not below its half of " + u.text + " in columns " + str(u.from) + " to " + str(u.to) + " of " + g);
            }
        std::set<const cdir*> linked;
        std::set<std::string> level;
        for(auto e : out[g]) {
            auto f = port.find(e->port);
            if(f == port.end()) bad("an edge of " + g + " starts at an unknown range " + e->port);
            if(!linked.insert(f->second).second) bad("two c-nodes for range " + e->port);
            level.insert(e->to);
            cnode_(f->second->cnode, e->to);
        }
        level_(level, "c-nodes of " + g);
        for(auto& q : port) {
            const cnode* n = q.second->cnode;
            bool show = n && (n->lnode->sub_count > 0 || n->pdir);
            if(show != (linked.count(q.second) > 0)) bad("the c-node of range " + q.first + " of " + g + (show ? " is not shown" : " is shown, and holds nothing"));
        }
    }
    void run(const betree* t)
    {
        // the root: the c-node nothing leads to
        std::set<std::string> to;
        for(auto& e : d.edges) to.insert(e.to);
        std::string root;
        for(auto& n : d.nodes)
            if(is(n.first, "c-node") && !to.count(n.first)) { if(!root.empty()) bad("two roots, " + root + " and " + n.first); root = n.first; }
        if(root.empty()) bad("no root");
        cnode_(t->cnode, root);
        for(auto& n : d.nodes) if(!used.count(n.first)) bad("node " + n.first + " stands for nothing");
    }
};

// ------------------------------------------------------------------ printed values
static std::string ilist(const std::vector<int64_t>& v) { std::string r; for(size_t i = 0; i < v.size(); i++) r += (i ? ", " : "") + str(v[i]); return r; }
static std::string slist(const std::vector<std::string>& v, bool q) { std::string r; for(size_t i = 0; i < v.size(); i++) r += (i ? ", " : "") + (q ? "\"" + v[i] + "\"" : v[i]); return r; }
static std::string f2(double d) { char b[400]; snprintf(b, sizeof b, "%.2f", d); return b; }
static std::string value_text(const Val& v, bool event)
{
    switch(v.t) {
        case T_BOOL: return v.b ? "true" : "false";
        case T_INT: case T_IE: return str(v.i);
        case T_FLT: return f2(v.f.val());
        case T_STR: return event ? "\"" + v.s + "\"" : v.s;
        case T_IL: return event ? "(" + ilist(v.il) + ")" : ilist(v.il);
        case T_SL: return event ? "(" + slist(v.sl, true) + ")" : slist(v.sl, true);
        case T_SEG: { std::string r; for(size_t i = 0; i < v.seg.size(); i++) r += (i ? ", [" : "[") + str(v.seg[i].id) + ", " + str(v.seg[i].ts) + "]"; return r; }
        default: {
            std::string r;
            for(size_t i = 0; i < v.cap.size(); i++) {
                auto& c = v.cap[i];
                r += std::string(i ? ", " : "") + "[[\"" + cap_types[c.type] + "\", " + str(c.id) + ", \"" + c.ns + "\"], " + str(c.value) + ", " + (c.tsdef ? str(c.ts) : "undefined") + "]";
            }
            return r;
        }
    }
}
static const char* type_word(VT t, bool printed)
{
    switch(t) {
        case T_BOOL: return printed ? "bool" : "boolean";
        case T_INT: return "integer";
        case T_FLT: return "float";
        case T_STR: return "string";
        case T_IL: return printed ? "integer list" : "integer_list";
        case T_SL: return printed ? "string list" : "string_list";
        case T_SEG: return "segments";
        case T_CAP: return printed ? "frequency caps" : "frequency_caps";
        default: return printed ? "integer enum" : "integer_enum";
    }
}
static std::string edges_text(const value_bound& b, bool smin)
{
    // the ends of what the type can hold have names, each at its own side
    auto i = [](int64_t v, bool lo) { return lo && v == INT64_MIN ? std::string("INT64_MIN") : !lo && v == INT64_MAX ? std::string("INT64_MAX") : str(v); };
    auto f = [](double v, bool lo) { return lo && v <= -DBL_MAX ? std::string("-DBL_MAX") : !lo && v >= DBL_MAX ? std::string("DBL_MAX") : f2(v); };
    auto s = [](size_t v) { return v >= SIZE_MAX - 1 ? std::string("SIZE_MAX") : str(v); };
    switch(b.value_type) {
        case BETREE_BOOLEAN: return std::string("[") + (b.bmin ? "true, " : "false, ") + (b.bmax ? "true]" : "false]");
        case BETREE_INTEGER: case BETREE_INTEGER_LIST: return "[" + i(b.imin, true) + ", " + i(b.imax, false) + "]";
        case BETREE_FLOAT: return "[" + f(b.fmin, true) + ", " + f(b.fmax, false) + "]";
        default: return (smin ? "[" + str(b.smin) + ", " : "[") + s(b.smax) + "]";
    }
}
static void walk_cdirs(const cnode* n, const std::function<void(const cdir*)>& fn);
static void walk_cdir(const cdir* d, const std::function<void(const cdir*)>& fn)
{
    if(!d) return;
    fn(d);
    walk_cdirs(d->cnode, fn);
    walk_cdir(d->lchild, fn);
    walk_cdir(d->rchild, fn);
}
static void walk_cdirs(const cnode* n, const std::function<void(const cdir*)>& fn)
{
    if(!n || !n->pdir) return;
    for(size_t i = 0; i < n->pdir->pnode_count; i++) walk_cdir(n->pdir->pnodes[i]->cdir, fn);
}

static void p_c36(Ctx& x)
{
    Ids ids(x);
    CfgOpt o;
    o.max = 5;
    Config c = gen_config(x.s, o);
    // names as the expression language has them
    if(x.s.chance(1, 3))
        for(auto& a : c.attrs) {
            if(a.name == "now" || a.name == "latitude" || a.name == "longitude" || a.name == "segments_with_timestamp" || a.name == "frequency_caps") continue;
            static const char* names[] = { "a-b", "a_b", "A-b", "x-", "x_", "node", "edge", "graph", "subgraph", "strict", "_", "-", "c-node" };
            std::string n = names[x.s.draw(13)];
            if(n == "-" || c.find(lang::lower(n)) >= 0) continue;
            bool clash = false;
            for(auto& b : c.attrs) clash |= lang::lower(b.name) == lang::lower(n);
            if(!clash) a.name = n;
        }
    // names that look like what the graph calls something else
    if(c.attrs.size() > 1 && x.s.chance(1, 3)) {
        size_t i = x.s.draw(c.attrs.size()), k = (i + 1 + x.s.draw(c.attrs.size() - 1)) % c.attrs.size();
        size_t j = x.s.draw(c.attrs.size());
        if(j == k) j = i;
        auto special = [](const std::string& n) { return n == "now" || n == "latitude" || n == "longitude" || n == "segments_with_timestamp" || n == "frequency_caps"; };
        const Attr& a = c.attrs[i];
        std::string n = a.name, sep = x.s.chance(1, 3) ? "-" : "_";
        size_t how = x.s.draw(4);
        if(how == 0) n += sep + "fake";
        else if(how == 1) n += sep + c.attrs[j].name;
        else {
            std::string lo = "0", hi = str(a.cnt - 1);
            if(a.t == T_BOOL) lo = "false", hi = "true";
            else if(a.t == T_INT || a.t == T_IL) lo = str((uint64_t)a.imin), hi = str((uint64_t)a.imax);
            n += sep + lo + sep + hi + sep + c.attrs[j].name;
        }
        if(!special(c.attrs[k].name)) c.attrs[k].name = n;
    }
    Params p = gen_params(x);
    bool direct = x.s.chance(1, 2);
    x.note("config " + config_text(c) + "; " + ptext(p) + (direct ? "; direct" : "; prepared"));
    Tree t(c, p.cap, p.part, p.dflt);
    GenOpt g;
    g.in_domain = direct;
    g.depth = (int)x.s.weighted({ 5, 3, 1 });
    size_t n = 0;
    double mean = gen_mean(x);
    std::vector<Sub> subs;
    while(x.s.more(n, mean, upmost(mean, 120))) {
        n++;
        Sub b = make_subm(x.s, c, ids(n), gen_expr(x.s, c, g));
        note_sub(x, b);
        bool ok = direct ? t.insert(b.id, b.text, b.k) : t.prepare(b.id, b.text, b.k);
        if(ok) subs.push_back(b);
    }
    t.commit();
    // attributes and ranges
    for(size_t i = 0; i < t.t->config->attr_domain_count; i++) {
        const attr_domain* d = t.t->config->attr_domains[i];
        int a = c.find(d->attr_var.attr);
        if(a < 0) for(size_t k = 0; k < c.attrs.size(); k++) if(lang::lower(c.attrs[k].name) == lang::lower(d->attr_var.attr)) a = (int)k;
        if(a < 0) x.fail(std::string("unknown attribute ") + d->attr_var.attr);
        const Attr& at = c.attrs[(size_t)a];
        std::string want = std::string(d->attr_var.attr) + " (" + type_word(at.t, true) + (at.opt ? "?)" : ")");
        if(at.t != T_SEG && at.t != T_CAP) want += " " + edges_text(d->bound, false);
        std::string got = printed(x, [&] { print_attr_domain(d); });
        x.require(got == want + "\n", "attribute printed as '" + got + "', it is '" + want + "'");
    }
    walk_cdirs(t.t->cnode, [&](const cdir* d) {
        VT ty = T_BOOL;
        for(auto& a : c.attrs) if(lang::lower(a.name) == lang::lower(d->attr_var.attr)) ty = a.t;
        std::string want = std::string(d->attr_var.attr) + " (" + type_word(ty, true) + ") " + edges_text(d->bound, true);
        std::string got = printed(x, [&] { print_cdir(d); });
        x.require(got == want + "\n", "range printed as '" + got + "', it is '" + want + "'");
    });
    // events
    Event ev = gen_event(x.s, c, 20);
    std::string et = event_text(c, ev);
    x.note("event " + et);
    Result before = search(t, et);
    bool lists = false;
    std::string all;
    betree_event* e = betree_make_event(t.t);
    size_t slot = 0, size = 64;
    bool plain = true;
    for(size_t i = 0; i < c.attrs.size(); i++) {
        if(!ev.v[i]) continue;
        const Val& v = *ev.v[i];
        betree_variable* var = make_var(c.attrs[i], c.attrs[i].name, v);
        std::string want = c.attrs[i].name + " = " + value_text(v, false);
        std::string got = printed(x, [&] { print_variable(var); });
        bool ok = got == std::string(type_word(v.t, false)) + " " + want + "\n" || (v.t == T_IE && got == "integer " + want + "\n");
        x.require(ok, "variable printed as '" + got + "', it is '" + want + "'");
        betree_set_variable(e, slot++, var);
        if(v.t == T_SEG || v.t == T_CAP) plain = false;
        all += (all.empty() ? "" : ", ") + c.attrs[i].name + " = " + value_text(v, true);
        lists |= v.t == T_IL || v.t == T_SL;
    }
    x.require(printed(x, [&] { print_variable(nullptr); }) == "undefined\n", "no variable is not printed as undefined");
    size += all.size() * 2;
    if(plain) { // not made for the others
        e->variable_count = slot;
        std::vector<char> buf(size, 'x');
        Balance mem;
        event_to_string(e, buf.data());
        mem.check(x, "printing the event");
        e->variable_count = c.attrs.size();
        std::string got = buf.data();
        x.require(got == all, "event printed as '" + got + "', it is '" + all + "'");
        // nor does it change once its values have their places in the vocabularies
        if(x.s.chance(1, 2)) {
            e->variable_count = slot;
            fill_event(t.t->config, e);
            std::fill(buf.begin(), buf.end(), 'x');
            event_to_string(e, buf.data());
            e->variable_count = c.attrs.size();
            got = buf.data();
            x.require(got == all, "event printed as '" + got + "' after it was filled in, it is '" + all + "'");
        }
    }
    betree_free_event(e);
    // the graph
    int fd = lowest_fd();
    std::string dot;
    {
        Scratch s;
        Balance mem;
        write_dot_file(t.t);
        mem.check(x, "writing the graph");
        dot = s.read();
    }
    x.require(lowest_fd() == fd, "writing the graph leaves a file open");
    if(x.verbose && x.s.replay) x.note("graph: " + str(dot.size()) + " bytes");
    Dot d(x, dot);
    d.parse();
    Match m(x, d);
    m.run(t.t);
    x.require(search(t, et) == before, "a search after writing the graph differs from one before");
    if(m.parts > 1) x.nontrivial = true;
    x.label(m.ranges > m.parts ? "ranges split" : m.parts ? "partitioned" : "flat");
    if(lists && plain) x.label("event with lists printed");
}

int main(int argc, char** argv)
{
    std::vector<eng::Property> v;
    v.push_back({ "C36", "0..60 expressions (thorough 120) over 1..5 attributes of all types (also with names holding '-', reserved in graphs or looking like a path of other names), inserted or prepared, all tuning parameters. The written graph is read by a small parser of the DOT language and matched with the real structure node by node: every c-node that holds something, leaf with its ids, p-directory, p-node and range is shown once under a name of its own, with its links, and nothing else; the file is complete and closed, searches are unchanged. Attributes, ranges, variables and an event are printed and compared with their exact text. Non-trivial: several partitions.", 25000, 300000, p_c36,
        Regs { { "negative, empty and halves", [](Ctx& x) {
            Config none;
            Tree t(none, 1, 0, false);
            betree_add_float_variable(t.t, "f", true, -10.5, 9.5);
            for(int i = 0; i < 20; i++) t.insert((uint64_t)i + 1, "f = " + str(i - 10) + ".5");
            Dot* d;
            std::string dot;
            { Scratch s; write_dot_file(t.t); dot = s.read(); }
            Dot dd(x, dot);
            d = &dd;
            d->parse();
            Match m(x, *d);
            m.run(t.t);
            betree_variable* var = betree_make_integer_list_variable("l", betree_make_integer_list(0));
            std::string got = printed(x, [&] { print_variable(var); });
            betree_free_variable(var);
            x.require(got == "integer_list l = \n", "an empty list is printed as " + got);
        } } }, 0.1, 120, {} });
    return eng::engine_main(argc, argv, v);
}

#include "engine.hpp"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace eng {

uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

uint64_t Src::raw()
{
    state += 0x9e3779b97f4a7c15ull;
    uint64_t x = state;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

uint64_t Src::draw(uint64_t n)
{
    uint64_t v;
    if(replay) {
        v = pos < nin ? in[pos] : 0;
        pos++;
        if(n != 0 && v >= n) v = n - 1;
    }
    else if(fz != nullptr) {
        size_t w = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2 : 8;
        v = 0;
        for(size_t k = 0; k < w && pfz < nfz; k++) v |= (uint64_t)fz[pfz++] << (8 * k);
        if(n != 0) v %= n;
    }
    else {
        v = raw();
        if(n != 0) v %= n;
    }
    if(rec != nullptr && *nrec < caprec) rec[(*nrec)++] = v;
    if(enc != nullptr && enc->size() < 65536) {
        size_t w = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2 : 8;
        for(size_t k = 0; k < w; k++) enc->push_back((char)(v >> (8 * k)));
    }
    return v;
}

size_t Src::weighted(const std::vector<unsigned>& w)
{
    uint64_t t = 0;
    for(auto x : w) t += x;
    uint64_t v = draw(t);
    for(size_t i = 0; i < w.size(); i++) {
        if(v < w[i]) return i;
        v -= w[i];
    }
    return w.size() - 1;
}

bool Src::more(size_t have, double mean, size_t max)
{
    if(have >= max) return false;
    // continue with probability mean/(mean+1)
    uint64_t den = 1000;
    uint64_t num = (uint64_t)(den * mean / (mean + 1.0));
    return chance(num, den);
}

void Ctx::note(const std::string& line)
{
    for(unsigned char c : line) { hash ^= c; hash *= 1099511628211ull; }
    hash ^= '\n'; hash *= 1099511628211ull;
    if(verbose) {
        // write(2): survives a crash later in the case
        std::string l = line + "\n";
        ssize_t r = write(3, l.data(), l.size());
        (void)r;
    }
}

enum { ST_PASS = 0, ST_FAIL = 42, ST_DISCARD = 43 };

struct WorkerShm {
    volatile int64_t cur;       // current case
    volatile int64_t done;      // cases done
    volatile int64_t fail_idx;  // -1 or failing case
    volatile int64_t discards;
    volatile int64_t checks;
    char msg[4096];
    int nlabels;
    struct { char name[56]; uint64_t n; } labels[160];
};

struct RunShm {
    size_t nrec;
    char msg[4096];
    uint64_t rec[1 << 21];
};

static const size_t CAPREC = 1 << 21;

static void* shm(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if(p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return p;
}

static double now_s()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define ENG_TSAN 1
#endif
#endif
static const long MAX_RSS_MB = 3000;
static volatile int g_ticks, g_max_ticks;
// every quarter of a second of CPU: has the case used up its time or its memory?
[[maybe_unused]] static void tick(int)
{
    int sg = 0, err = errno;
    if(++g_ticks >= g_max_ticks) sg = SIGPROF;
    char b[64];
    int fd = open("/proc/self/statm", O_RDONLY);
    if(fd >= 0) {
        ssize_t n = read(fd, b, sizeof b - 1);
        close(fd);
        if(n > 0) {
            b[n] = 0;
            const char* c = b;
            while(*c && *c != ' ') c++;
            long pages = 0;
            for(c++; *c >= '0' && *c <= '9'; c++) pages = pages * 10 + (*c - '0');
            if(pages / 256 > MAX_RSS_MB) sg = SIGXCPU;
        }
    }
    if(sg) { signal(sg, SIG_DFL); raise(sg); }
    errno = err;
}
static void arm(int secs) // CPU time of this process
{
    struct itimerval it = {};
#ifdef ENG_TSAN // handlers only run between instructions of its choice there
    it.it_value.tv_sec = secs;
#else
    g_ticks = 0;
    g_max_ticks = secs * 4;
    static bool once = false;
    if(!once) {
        once = true;
        struct sigaction sa = {};
        sa.sa_handler = tick;
        sa.sa_flags = SA_RESTART;
        sigaction(SIGPROF, &sa, nullptr);
    }
    it.it_value.tv_usec = it.it_interval.tv_usec = 250000;
#endif
    setitimer(ITIMER_PROF, &it, nullptr);
}

static uint64_t case_seed(const std::string& id, uint64_t seed, uint64_t idx)
{
    uint64_t h = mix(seed ^ 0x5bd1e995u);
    for(char c : id) h = mix(h ^ (unsigned char)c);
    return mix(h ^ mix(idx));
}

static void quiet(const char* path)
{
    int fd = open(path, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if(fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
    int z = open("/dev/null", O_RDONLY);
    if(z >= 0) { dup2(z, 0); close(z); }
}

static int run_one(Property& p, int64_t idx, Ctx& c, std::string& msg)
{
    try {
        if(idx < 0) p.regress[(size_t)(-idx - 1)].second(c);
        else p.run(c);
        return ST_PASS;
    }
    catch(Fail& f) { msg = f.msg; return ST_FAIL; }
    catch(Discard&) { return ST_DISCARD; }
    catch(std::exception& e) { msg = std::string("harness exception: ") + e.what(); return 3; }
}

struct Options {
    std::string prop, tier = "quick", out, replays = "replays", replay, known;
    uint64_t seed = 1;
    int workers = 8;
    uint64_t cases = 0;
    int64_t only = -1;
    bool shrink = true;
    int fuzz = 0; // seconds of coverage-guided search after the random cases
};

// Runs one case in a child. choices==nullptr: random mode for idx; otherwise replay of the choices.
struct Seq { int64_t from, step; }; // cases from, from+step, .. are run first in the same process
static int child_case(Property& p, const Options& o, int64_t idx, const std::vector<uint64_t>* choices,
    RunShm* rs, const std::string& logfile, int notefd, std::string& msg, const Seq* seq = nullptr)
{
    rs->nrec = 0;
    rs->msg[0] = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if(pid == 0) {
        quiet(logfile.empty() ? "/dev/null" : logfile.c_str());
        if(notefd >= 0) dup2(notefd, 3);
        if(seq)
            for(int64_t i = seq->from; i < idx; i += seq->step) {
                Src s0;
                s0.state = case_seed(p.id, o.seed, (uint64_t)i);
                Ctx c0(s0, false, o.tier == "thorough");
                std::string m0;
                arm(p.cpu_limit);
                (void)run_one(p, i, c0, m0);
            }
        Src s;
        s.rec = rs->rec;
        s.nrec = &rs->nrec;
        s.caprec = CAPREC;
        if(choices) { s.replay = true; s.in = choices->data(); s.nin = choices->size(); }
        else s.state = case_seed(p.id, o.seed, (uint64_t)idx);
        Ctx c(s, notefd >= 0, o.tier == "thorough");
        std::string m;
        arm(p.cpu_limit);
        int st = run_one(p, idx, c, m);
        strncpy(rs->msg, m.c_str(), sizeof(rs->msg) - 1);
        _exit(st);
    }
    int ws = 0;
    waitpid(pid, &ws, 0);
    msg = rs->msg;
    if(WIFEXITED(ws)) {
        int e = WEXITSTATUS(ws);
        if(e == ST_PASS || e == ST_DISCARD) return 0;
        if(e == ST_FAIL) return 1;
        if(e == 3) return 3;
        if(msg.empty()) msg = "abnormal exit (sanitizer report or exit call), status " + str(e);
        return 1;
    }
    if(WIFSIGNALED(ws)) {
        int sg = WTERMSIG(ws);
        if(sg == SIGKILL) return 4; // killed from outside (memory guard): inconclusive
        msg = sg == SIGPROF ? "no answer within the CPU limit (hang)" : sg == SIGXCPU ? "more than 3 GB of memory in use" : std::string("crash: signal ") + strsignal(sg);
        return 1;
    }
    return 4;
}

// readable on any terminal: bytes outside ASCII as \xNN
static std::string plain(const std::string& s)
{
    std::string r;
    for(unsigned char ch : s) {
        if((ch < 32 && ch != '\n' && ch != '\t') || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
        else r += (char)ch;
    }
    return r;
}
static std::string jesc(const std::string& s)
{
    std::string r;
    for(unsigned char ch : s) {
        if(ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
        else if(ch == '\n') r += "\\n";
        else if(ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += (char)ch;
    }
    return r;
}

static std::string slurp(const std::string& f, size_t max = 200000)
{
    std::string r;
    FILE* fp = fopen(f.c_str(), "r");
    if(!fp) return r;
    char b[4096];
    size_t n;
    while((n = fread(b, 1, sizeof b, fp)) > 0 && r.size() < max) r.append(b, n);
    fclose(fp);
    return r;
}

// Shrinks the choice sequence; every attempt runs in its own child.
static std::vector<uint64_t> shrink(Property& p, const Options& o, std::vector<uint64_t> best, RunShm* rs, std::string& msg)
{
    double t0 = now_s();
    int tries = 0;
    const int MAXT = 4000;
    const double MAXS = 90;
    auto ok = [&]() { return tries < MAXT && now_s() - t0 < MAXS; };
    auto attempt = [&](const std::vector<uint64_t>& c) {
        tries++;
        std::string m;
        int r = child_case(p, o, 0, &c, rs, "", -1, m);
        if(r == 1) {
            // keep only what was consumed
            std::vector<uint64_t> used(rs->rec, rs->rec + rs->nrec);
            if(used.size() < c.size() || used < c || used == c) {
                best = used.size() <= c.size() ? used : c;
            }
            else best = c;
            msg = m;
            return true;
        }
        return false;
    };
    bool improved = true;
    while(improved && ok()) {
        improved = false;
        // delete chunks
        for(size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1 && ok(); len = len == 1 ? 0 : len / 2) {
            for(size_t i = best.size(); i > 0 && ok();) {
                size_t start = i > len ? i - len : 0;
                if(start + len <= best.size()) {
                    std::vector<uint64_t> c(best);
                    c.erase(c.begin() + (long)start, c.begin() + (long)(start + len));
                    if(attempt(c)) { improved = true; i = std::min(i, best.size()); continue; }
                }
                i = start;
                if(len > 8 && i > best.size()) i = best.size();
            }
            if(len == 1) break;
        }
        // zero runs, then minimise single values
        for(size_t len : { (size_t)16, (size_t)4 }) {
            for(size_t i = 0; i + len <= best.size() && ok(); i += len) {
                bool nz = false;
                for(size_t k = i; k < i + len; k++) nz |= best[k] != 0;
                if(!nz) continue;
                std::vector<uint64_t> c(best);
                for(size_t k = i; k < i + len; k++) c[k] = 0;
                if(attempt(c)) improved = true;
            }
        }
        for(size_t i = 0; i < best.size() && ok(); i++) {
            if(best[i] == 0) continue;
            std::vector<uint64_t> c(best);
            c[i] = 0;
            if(attempt(c)) { improved = true; continue; }
            uint64_t lo = 0, hi = best[i];
            int guard = 0;
            while(hi - lo > 1 && ok() && guard++ < 12) {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best;
                if(i >= c.size()) break;
                c[i] = mid;
                if(attempt(c)) { hi = mid; improved = true; }
                else lo = mid;
            }
        }
    }
    return best;
}


// smallest run-up (powers of two of the worker's earlier cases) after which the case fails
static bool find_seq(Property& p, const Options& o, int64_t idx, int64_t first, int64_t step, RunShm* rs, Seq& seq)
{
    double t0 = now_s();
    for(int64_t n = 1; now_s() - t0 < 200; n *= 4) {
        int64_t from = idx - n * step;
        bool all = from <= first;
        if(all) from = first;
        seq = Seq { from, step };
        std::string m;
        if(child_case(p, o, idx, nullptr, rs, "", -1, m, &seq) == 1) return true;
        if(all) return false;
    }
    return false;
}

static int report_violation(Property& p, const Options& o, int64_t idx, RunShm* rs, std::string msg, const Seq* seq = nullptr,
    const std::vector<uint64_t>* given = nullptr)
{
    mkdir(o.replays.c_str(), 0755);
    std::vector<uint64_t> choices;
    if(idx >= 0 && !seq) {
        std::string m;
        int r = child_case(p, o, idx, given, rs, "", -1, m);
        if(r != 1) {
            // state from earlier cases of the worker may have mattered: not reproducible alone
            fprintf(stderr, "case %lld of %s failed in its worker (%s) but not when re-run alone\n", (long long)idx, p.id.c_str(), msg.c_str());
            return -1;
        }
        msg = m;
        choices.assign(rs->rec, rs->rec + rs->nrec);
        std::vector<uint64_t> orig = choices;
        std::string omsg = msg;
        if(o.shrink) choices = shrink(p, o, choices, rs, msg);
        for(int k = 0; k < 3; k++)
            if(child_case(p, o, 0, &choices, rs, "", -1, m) != 1) { choices = orig; msg = omsg; break; } // keep the case as found
    }
    auto again = [&](const std::string& log, int nfd, std::string& m) {
        if(seq) return child_case(p, o, idx, nullptr, rs, log, nfd, m, seq);
        return child_case(p, o, idx >= 0 ? 0 : idx, idx >= 0 ? &choices : nullptr, rs, log, nfd, m);
    };
    int fails = 0;
    for(int k = 0; k < 3; k++) {
        std::string m;
        if(again("", -1, m) == 1) { fails++; msg = m; }
    }
    if(fails == 0) {
        fprintf(stderr, "failure of %s does not replay: %s\n", p.id.c_str(), msg.c_str());
        return -1;
    }
    if(fails < 3) msg += " (the replay failed " + str(fails) + " times out of 3)";
    std::string base = o.replays + "/" + p.id;
    std::string log = base + ".log", notes = base + ".case";
    unlink(log.c_str());
    unlink(notes.c_str());
    int nfd = open(notes.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    std::string m;
    again(log, nfd, m);
    close(nfd);
    std::string rp = base + ".replay";
    FILE* f = fopen(rp.c_str(), "w");
    if(f) {
        fprintf(f, "property %s\nseed %llu\ntier %s\n", p.id.c_str(), (unsigned long long)o.seed, o.tier.c_str());
        if(seq) fprintf(f, "sequence %lld %lld %lld\n", (long long)seq->from, (long long)seq->step, (long long)idx);
        else if(idx < 0) fprintf(f, "regress %s\n", p.regress[(size_t)(-idx - 1)].first.c_str());
        else {
            fprintf(f, "case %lld\nchoices %zu", (long long)idx, choices.size());
            for(auto v : choices) fprintf(f, " %llu", (unsigned long long)v);
            fprintf(f, "\n");
        }
        fprintf(f, "# message: %s\n# case:\n", msg.c_str());
        std::istringstream in(slurp(notes));
        std::string l;
        while(std::getline(in, l)) fprintf(f, "#   %s\n", l.c_str());
        fclose(f);
    }
    printf("failure: %s\n", plain(msg).c_str());
    printf("--- minimal case ---\n%s", plain(slurp(notes, 6000)).c_str());
    std::string lg = slurp(log, 3000);
    if(!lg.empty()) printf("--- output of the code under test ---\n%s\n", plain(lg).c_str());
    printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), rp.c_str());
    fflush(stdout);
    return 1;
}

static int do_replay(std::vector<Property>& props, Options o)
{
    std::istringstream in(slurp(o.replay, 1 << 26));
    std::string line, prop, reg;
    std::vector<uint64_t> ch;
    Seq sq { -1, 1 };
    int64_t sidx = 0;
    while(std::getline(in, line)) {
        std::istringstream ls(line);
        std::string k;
        ls >> k;
        if(k == "property") ls >> prop;
        else if(k == "tier") ls >> o.tier;
        else if(k == "seed") ls >> o.seed;
        else if(k == "sequence") { long long a, b, c; ls >> a >> b >> c; sq = Seq { a, b }; sidx = c; }
        else if(k == "regress") { std::getline(ls, reg); reg = reg.substr(1); }
        else if(k == "choices") {
            size_t n;
            ls >> n;
            ch.resize(n);
            for(auto& v : ch) ls >> v;
        }
    }
    for(auto& p : props) {
        if(p.id != prop) continue;
        int64_t idx = 0;
        if(!reg.empty())
            for(size_t k = 0; k < p.regress.size(); k++)
                if(p.regress[k].first == reg) idx = -(int64_t)k - 1;
        RunShm* rs = (RunShm*)shm(sizeof(RunShm));
        std::string m;
        int r = sq.from >= 0 ? child_case(p, o, sidx, nullptr, rs, "/dev/stderr", 1, m, &sq) : child_case(p, o, idx, idx < 0 ? nullptr : &ch, rs, "/dev/stderr", 1, m);
        if(r == 1) {
            printf("failure: %s\nVIOLATION property=%s replay=%s\n", plain(m).c_str(), p.id.c_str(), o.replay.c_str());
            return 1;
        }
        printf("property=%s: the replayed case passes\n", p.id.c_str());
        return r == 0 ? 0 : 2;
    }
    fprintf(stderr, "unknown property in replay file\n");
    return 2;
}

// Coverage-guided stage: libFuzzer makes byte strings, the generator reads its choices from
// them. The choices are recorded as in a random case, so a failure is shrunk and replayed alike.
struct FuzzShm {
    volatile uint64_t evals, nontrivial, discards, checks;
    volatile int running, failed;
    char msg[4096];
    size_t nrec;
    uint64_t rec[1 << 18];
    volatile uint64_t nhash;
    uint64_t hash[1 << 20];
};
struct FuzzSum {
    uint64_t evals = 0, distinct = 0, discards = 0, checks = 0, edges = 0, edges_start = 0, corpus = 0;
    int secs = 0, lost = 0;
};
#ifdef ENG_FUZZ
extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*cb)(const uint8_t* data, size_t size));
static FuzzShm* g_fs;
static Property* g_fp;
static bool g_thorough;
static int fuzz_cb(const uint8_t* data, size_t size)
{
    FuzzShm* f = g_fs;
    f->nrec = 0;
    f->running = 1;
    Src s;
    s.fz = data;
    s.nfz = size;
    static const uint8_t none = 0;
    if(size == 0) s.fz = &none;
    s.rec = f->rec;
    s.nrec = &f->nrec;
    s.caprec = 1 << 18;
    Ctx c(s, false, g_thorough);
    std::string m;
    arm(g_fp->cpu_limit);
    int st = run_one(*g_fp, 0, c, m);
    struct itimerval off = {};
    setitimer(ITIMER_PROF, &off, nullptr);
    if(st == ST_FAIL || st == 3) {
        strncpy(f->msg, m.c_str(), sizeof(f->msg) - 1);
        f->failed = st;
        _exit(st);
    }
    f->evals = f->evals + 1;
    f->checks = f->checks + c.checks;
    if(st == ST_DISCARD) f->discards = f->discards + 1;
    else if(c.nontrivial) {
        f->nontrivial = f->nontrivial + 1;
        if(f->nhash < (1 << 20)) f->hash[f->nhash] = c.hash | 1, f->nhash = f->nhash + 1;
    }
    f->running = 0;
    return st == ST_DISCARD ? -1 : 0;
}
#endif
// 0: quiet, 1: violation reported, 2: error
static int fuzz_stage(Property& p, const Options& o, RunShm* rs, FuzzSum& sum)
{
#ifndef ENG_FUZZ
    (void)p; (void)o; (void)rs; (void)sum;
    return 0;
#else
    char tmpl[] = "/tmp/be-fuzz-XXXXXX";
    if(!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    std::string dir = tmpl, corpus = dir + "/corpus";
    mkdir(corpus.c_str(), 0700);
    sum.secs = o.fuzz;
    // starting corpus: random cases, as the bytes that give them
    for(int k = 0; k < 160; k++) {
        std::string f = corpus + "/seed" + str(k);
        fflush(stdout);
        pid_t pid = fork();
        if(pid == 0) {
            quiet("/dev/null");
            Src s;
            std::string enc;
            s.enc = &enc;
            s.state = case_seed(p.id, o.seed + 77, (uint64_t)k);
            Ctx c(s, false, o.tier == "thorough");
            std::string m;
            arm(p.cpu_limit);
            if(run_one(p, 0, c, m) == ST_PASS && enc.size() <= 6000) {
                FILE* fp = fopen(f.c_str(), "w");
                if(fp) { fwrite(enc.data(), 1, enc.size(), fp); fclose(fp); }
            }
            _exit(0);
        }
        waitpid(pid, nullptr, 0);
    }
    int W = o.workers, rc = 0;
    double end = now_s() + o.fuzz;
    std::vector<FuzzShm*> fs;
    std::vector<pid_t> pids((size_t)W, 0);
    auto spawn = [&](int w) {
        FuzzShm* f = fs[(size_t)w];
        f->running = f->failed = 0;
        f->msg[0] = 0;
        fflush(stdout);
        pid_t pid = fork();
        if(pid != 0) return pid;
        quiet((dir + "/log" + str(w)).c_str());
        g_fs = f;
        g_fp = &p;
        g_thorough = o.tier == "thorough";
        std::vector<std::string> a = { "fuzz", corpus, "-max_total_time=" + str(std::max(1, (int)(end - now_s()))), "-seed=" + str(o.seed * 1000 + (uint64_t)w + 1), "-max_len=6000",
            "-timeout=0", "-rss_limit_mb=0", "-malloc_limit_mb=0", "-detect_leaks=0", "-reload=5", "-print_final_stats=1", "-artifact_prefix=" + dir + "/", "-handle_segv=0", "-handle_bus=0",
            "-handle_abrt=0", "-handle_ill=0", "-handle_fpe=0", "-handle_int=0", "-handle_term=0", "-handle_xfsz=0", "-handle_usr1=0", "-handle_usr2=0", std::string("-use_value_profile=") + (w % 2 ? "1" : "0"),
            std::string("-len_control=") + (w % 4 < 2 ? "0" : "100"), "-verbosity=1" };
        std::vector<char*> av;
        for(auto& x : a) av.push_back(&x[0]);
        av.push_back(nullptr);
        int ac = (int)a.size();
        char** avp = av.data();
        LLVMFuzzerRunDriver(&ac, &avp, fuzz_cb);
        _exit(0);
    };
    for(int w = 0; w < W; w++) {
        fs.push_back((FuzzShm*)shm(sizeof(FuzzShm)));
        pids[(size_t)w] = spawn(w);
    }
    int alive = W;
    while(alive > 0) {
        int st = 0;
        pid_t pid = wait(&st);
        if(pid < 0) break;
        int w = -1;
        for(int k = 0; k < W; k++) if(pids[(size_t)k] == pid) w = k;
        if(w < 0) continue;
        alive--;
        FuzzShm* f = fs[(size_t)w];
        if(WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        std::string why = f->msg[0] ? f->msg : WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "abnormal exit";
        bool outside = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
        if(f->failed == 3) { fprintf(stderr, "%s\n", why.c_str()); rc = 2; break; }
        if(!outside && f->running) {
            std::vector<uint64_t> ch(f->rec, f->rec + f->nrec);
            std::string m;
            if(WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF && p.cpu_limit > 15) p.cpu_limit = 15;
            if(child_case(p, o, 0, &ch, rs, "", -1, m) == 1) {
                for(int k = 0; k < W; k++) if(k != w) kill(pids[(size_t)k], SIGKILL);
                while(wait(nullptr) > 0) {}
                printf("found by the coverage-guided stage\n");
                rc = report_violation(p, o, 0, rs, m, nullptr, &ch) == 1 ? 1 : 2;
                alive = 0;
                break;
            }
            fprintf(stderr, "a coverage-guided case of %s failed in its worker (%s) but not alone; skipped\n", p.id.c_str(), why.c_str());
        }
        if(++sum.lost < 20 && now_s() + 2 < end) { pids[(size_t)w] = spawn(w); alive++; }
    }
    if(rc) {
        for(int w = 0; w < W; w++) kill(pids[(size_t)w], SIGKILL);
        while(wait(nullptr) > 0) {}
    }
    std::unordered_set<uint64_t> distinct;
    for(auto f : fs) {
        sum.evals += f->evals;
        sum.discards += f->discards;
        sum.checks += f->checks;
        for(uint64_t k = 0; k < f->nhash; k++) distinct.insert(f->hash[k]);
    }
    sum.distinct = distinct.size();
    for(int w = 0; w < W; w++) { // "... cov: N ft: ..."
        std::string t = slurp(dir + "/log" + str(w), 1 << 26);
        size_t at = 0, k;
        while((k = t.find(" cov: ", at)) != std::string::npos) {
            uint64_t v = strtoull(t.c_str() + k + 6, nullptr, 10);
            sum.edges = std::max(sum.edges, v);
            if(t.compare(k > 8 ? k - 8 : 0, 8, "  INITED") == 0 || t.rfind("INITED", k) != std::string::npos)
                if(sum.edges_start == 0) sum.edges_start = v;
            at = k + 6;
        }
    }
    FILE* ls = popen(("ls " + corpus + " | wc -l").c_str(), "r");
    if(ls) { unsigned long long n = 0; if(fscanf(ls, "%llu", &n) == 1) sum.corpus = n; pclose(ls); }
    if(dir.compare(0, 13, "/tmp/be-fuzz-") == 0) { if(system(("rm -rf " + dir).c_str()) != 0) perror("rm"); }
    if(rc == 0 && sum.lost >= 5) { fprintf(stderr, "too many inconclusive coverage-guided runs (%d)\n", sum.lost); rc = 2; }
    return rc;
#endif
}

int engine_main(int argc, char** argv, std::vector<Property>& props)
{
    Options o;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if(a == "--prop") o.prop = next();
        else if(a == "--tier") o.tier = next();
        else if(a == "--seed") o.seed = strtoull(next().c_str(), nullptr, 10);
        else if(a == "--out") o.out = next();
        else if(a == "--replays") o.replays = next();
        else if(a == "--replay") o.replay = next();
        else if(a == "--workers") o.workers = atoi(next().c_str());
        else if(a == "--cases") o.cases = strtoull(next().c_str(), nullptr, 10);
        else if(a == "--no-shrink") o.shrink = false;
        else if(a == "--fuzz") o.fuzz = atoi(next().c_str());
        else if(a == "--show") o.only = atoll(next().c_str());
        else if(a == "--list") { for(auto& p : props) printf("%s\n", p.id.c_str()); return 0; }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if(!o.replay.empty()) return do_replay(props, o);
    Property* pp = nullptr;
    for(auto& p : props) if(p.id == o.prop) pp = &p;
    if(!pp) { fprintf(stderr, "no property %s in this binary\n", o.prop.c_str()); return 2; }
    Property& p = *pp;
    double t0 = now_s();
    RunShm* rs = (RunShm*)shm(sizeof(RunShm));
    if(o.only >= 0) {
        std::string m;
        int r = child_case(p, o, o.only, nullptr, rs, "/dev/stderr", 1, m);
        printf("result %d %s (%zu choices)\n", r, m.c_str(), rs->nrec);
        return r;
    }
    uint64_t N = o.cases ? o.cases : (o.tier == "thorough" ? p.thorough : p.quick);

    // regression cases first
    for(size_t k = 0; k < p.regress.size(); k++) {
        std::string m;
        int r = child_case(p, o, -(int64_t)k - 1, nullptr, rs, "", -1, m);
        if(r == 1) {
            printf("regression case '%s' fails\n", p.regress[k].first.c_str());
            int v = report_violation(p, o, -(int64_t)k - 1, rs, m);
            if(v == 1) return 1;
            return 2;
        }
        if(r > 1) { fprintf(stderr, "regression case '%s': %d %s\n", p.regress[k].first.c_str(), r, m.c_str()); return 2; }
    }

    uint64_t* hashes = (uint64_t*)shm(N * sizeof(uint64_t) + 8);
    int W = o.workers;
    std::vector<WorkerShm*> ws;
    std::vector<pid_t> pids;
    auto spawn = [&](int w, int64_t from) {
        WorkerShm* sh = ws[(size_t)w];
        fflush(stdout);
        pid_t pid = fork();
        if(pid != 0) return pid;
        quiet("/dev/null");
        for(uint64_t i = (uint64_t)from; i < N; i += (uint64_t)W) {
            sh->cur = (int64_t)i;
            Src s;
            s.state = case_seed(p.id, o.seed, i);
            Ctx c(s, false, o.tier == "thorough");
            std::string m;
            arm(p.cpu_limit);
            int st = run_one(p, (int64_t)i, c, m);
            if(st == ST_FAIL || st == 3) {
                strncpy(sh->msg, m.c_str(), sizeof(sh->msg) - 1);
                sh->fail_idx = (int64_t)i;
                _exit(st);
            }
            if(st == ST_DISCARD) sh->discards = sh->discards + 1;
            else if(c.nontrivial) hashes[i] = c.hash | 1;
            sh->checks = sh->checks + (int64_t)c.checks;
            for(auto& l : c.labels) {
                int k = 0;
                for(; k < sh->nlabels; k++) if(l == sh->labels[k].name) break;
                if(k == sh->nlabels) {
                    if(k >= 160) continue;
                    strncpy(sh->labels[k].name, l.c_str(), 55);
                    sh->nlabels++;
                }
                sh->labels[k].n++;
            }
            sh->done = sh->done + 1;
        }
        sh->cur = -1;
        _exit(0);
    };
    for(int w = 0; w < W; w++) {
        WorkerShm* sh = (WorkerShm*)shm(sizeof(WorkerShm));
        sh->fail_idx = -1;
        ws.push_back(sh);
        pids.push_back(0);
    }
    for(int w = 0; w < W; w++) pids[(size_t)w] = spawn(w, w);
    int alive = W;
    int64_t failing = -1;
    std::string fmsg;
    Seq fseq { -1, 1 };
    std::vector<int64_t> first;
    for(int w = 0; w < W; w++) first.push_back(w);
    int inconclusive = 0;
    bool harness_error = false;
    while(alive > 0) {
        int st = 0;
        pid_t pid = wait(&st);
        if(pid < 0) break;
        int w = -1;
        for(int k = 0; k < W; k++) if(pids[(size_t)k] == pid) w = k;
        if(w < 0) continue;
        alive--;
        WorkerShm* sh = ws[(size_t)w];
        if(WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if(WIFEXITED(st) && WEXITSTATUS(st) == 3) { harness_error = true; fmsg = sh->msg; fprintf(stderr, "%s\n", fmsg.c_str()); failing = -2; break; }
        if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
            // ended from outside: skip the case, carry on, count it
            inconclusive++;
            int64_t nx = sh->cur + W;
            if(inconclusive < 20 && (uint64_t)nx < N) { first[(size_t)w] = nx; pids[(size_t)w] = spawn(w, nx); alive++; }
            continue;
        }
        failing = sh->fail_idx >= 0 ? (int64_t)sh->fail_idx : (int64_t)sh->cur;
        fmsg = sh->msg;
        if(fmsg.empty()) fmsg = WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "abnormal exit";
        if(WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF && p.cpu_limit > 15) p.cpu_limit = 15; // do not wait as long again
        // does it fail on its own?
        std::string m;
        int r = child_case(p, o, failing, nullptr, rs, "", -1, m);
        if(r == 1) break;
        // after the cases that ran before it in the same process?
        if(find_seq(p, o, failing, first[(size_t)w], W, rs, fseq)) break;
        fseq.from = -1;
        inconclusive++;
        fprintf(stderr, "case %lld failed in its worker (%s) but not alone; skipped\n", (long long)failing, fmsg.c_str());
        int64_t nx = failing + W;
        failing = -1;
        sh->fail_idx = -1;
        sh->msg[0] = 0;
        if(inconclusive < 20 && (uint64_t)nx < N) { first[(size_t)w] = nx; pids[(size_t)w] = spawn(w, nx); alive++; }
    }
    if(failing != -1) {
        for(int w = 0; w < W; w++) kill(pids[(size_t)w], SIGKILL);
        while(wait(nullptr) > 0) {}
    }
    uint64_t done = 0, discards = 0, checks = 0;
    std::map<std::string, uint64_t> labels;
    for(auto sh : ws) {
        done += (uint64_t)sh->done;
        discards += (uint64_t)sh->discards;
        checks += (uint64_t)sh->checks;
        for(int k = 0; k < sh->nlabels; k++) labels[sh->labels[k].name] += sh->labels[k].n;
    }
    std::unordered_set<uint64_t> distinct;
    for(uint64_t i = 0; i < N; i++) if(hashes[i]) distinct.insert(hashes[i]);
    int rc = 0;
    if(failing >= 0) {
        int v = report_violation(p, o, failing, rs, fmsg, fseq.from >= 0 ? &fseq : nullptr);
        rc = v == 1 ? 1 : 2;
    }
    else if(harness_error) rc = 2;
    else if(inconclusive >= 5) { fprintf(stderr, "too many inconclusive cases (%d)\n", inconclusive); rc = 2; }
    else if((double)distinct.size() < p.min_nontrivial * (double)N || distinct.empty()) {
        fprintf(stderr, "only %zu distinct non-trivial cases of %llu: the generator does not exercise the property\n", distinct.size(), (unsigned long long)N);
        rc = 2;
    }
    FuzzSum fsum;
    if(rc == 0 && o.fuzz > 0) rc = fuzz_stage(p, o, rs, fsum);
    // samples: re-run a few non-trivial cases and write them out
    std::string samples;
    int ns = 0;
    for(uint64_t k = 0; k < N && ns < 3; k++) {
        uint64_t i = mix(k + o.seed) % N;
        if(!hashes[i]) continue;
        std::string tmp = o.replays + "/.sample-" + p.id;
        mkdir(o.replays.c_str(), 0755);
        int fd = open(tmp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        std::string m;
        child_case(p, o, (int64_t)i, nullptr, rs, "", fd, m);
        close(fd);
        std::string t = slurp(tmp);
        unlink(tmp.c_str());
        if(t.size() > 2500) t = t.substr(0, 2500) + " ...[cut]";
        if(ns) samples += ",\n   ";
        samples += "{\"case\": " + str(i) + ", \"text\": \"" + jesc(t) + "\"}";
        ns++;
    }
    if(!o.out.empty()) {
        FILE* f = fopen(o.out.c_str(), "w");
        if(!f) { perror("evidence"); return 2; }
        fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n", p.id.c_str(), o.tier.c_str(), (unsigned long long)o.seed);
        fprintf(f, " \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n  \"rule\": \"%s\",\n", (unsigned long long)(done + p.regress.size() + fsum.evals), distinct.size(), jesc(p.rule).c_str());
        fprintf(f, "  \"comparisons\": %llu,\n  \"discarded\": %llu,\n  \"regression_cases\": %zu,\n  \"inconclusive\": %d,\n", (unsigned long long)checks, (unsigned long long)discards, p.regress.size(), inconclusive);
        if(fsum.secs)
            fprintf(f, "  \"coverage_guided\": {\"seconds\": %d, \"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"comparisons\": %llu, \"corpus\": %llu, \"edges_of_start_corpus\": %llu, \"edges\": %llu},\n",
                fsum.secs, (unsigned long long)fsum.evals, (unsigned long long)fsum.distinct, (unsigned long long)fsum.checks, (unsigned long long)fsum.corpus, (unsigned long long)fsum.edges_start, (unsigned long long)fsum.edges);
        fprintf(f, "  \"labels\": {");
        bool first = true;
        for(auto& l : labels) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(l.first).c_str(), (unsigned long long)l.second); first = false; }
        fprintf(f, "},\n  \"samples\": [%s]\n },\n", samples.c_str());
        fprintf(f, " \"assumptions\": [");
        for(size_t k = 0; k < p.assumptions.size(); k++) fprintf(f, "%s\"%s\"", k ? ", " : "", jesc(p.assumptions[k]).c_str());
        fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", now_s() - t0, rc == 1 ? 1 : 0);
        fclose(f);
    }
    printf("%s %s seed=%llu: %llu cases, %zu distinct non-trivial, %llu comparisons, %llu discarded, %.1f s -> exit %d\n", p.id.c_str(), o.tier.c_str(), (unsigned long long)o.seed,
        (unsigned long long)done, distinct.size(), (unsigned long long)checks, (unsigned long long)discards, now_s() - t0, rc);
    if(fsum.secs)
        printf("  coverage-guided: %d s, %llu cases, %llu distinct non-trivial, %llu -> %llu edges\n", fsum.secs, (unsigned long long)fsum.evals, (unsigned long long)fsum.distinct,
            (unsigned long long)fsum.edges_start, (unsigned long long)fsum.edges);
    if(getenv("VP_LABELS")) for(auto& l : labels) printf("  %-40s %llu\n", l.first.c_str(), (unsigned long long)l.second);
    return rc;
}
} // namespace eng

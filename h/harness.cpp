#define HX_IMPL
#include "harness.hpp"
#include <stdarg.h>
#include <algorithm>
#include <set>

namespace hx {
bool replaying;
static std::unordered_set< uint64_t > hashes;
static uint64_t runs, nontriv;
static bool this_nontrivial;
uint64_t case_hash;
static std::vector< std::string > samples;
std::map< std::string, uint64_t >& counters() { static std::map< std::string, uint64_t > m; return m; }
void nontrivial() { this_nontrivial = true; }
void sample(std::string const& s) { vrt::Quiet q; if (samples.size() < 3) samples.push_back(s); }
std::string fmt(const char* f, ...)
{
    vrt::Quiet q;
    char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof(b), f, ap); va_end(ap);
    return b;
}
vrt::Options options(Rng& r)
{
    vrt::Options o;
    o.seed = r.u();
    static const int strat[] = { 0, 1, 1, 1, 2, 2, 2, 3 };
    o.strategy = strat[r.n(8)];
    o.p_switch = r.pick({ 0.03, 0.1, 0.3 });
    o.pct_depth = (int)r.in(1, 5);
    o.p_jump = r.pick({ 0.0, 0.0, 0.01, 0.05 });
    o.p_spurious = r.pick({ 0.0, 0.0, 0.0, 0.02, 0.1 });
    o.p_eintr = r.pick({ 0.0, 0.0, 0.02, 0.1 });
    o.p_weak = r.pick({ 0.0, 0.1, 0.3 });
#ifdef BOOST_SYNC_HAS_PTHREAD_EINTR_BUG
    o.p_eintr_pthread = r.pick({ 0.0, 0.05, 0.2 });
#endif
    if (r.p(0.05))
    {
        int n = (int)r.pick({ 10, 30, 100, 300 });
        if (r.p(0.1)) n = 1200;
        switch (r.n(5))
        {
        case 0: o.storm_spurious = n; break;
        case 1: o.storm_eintr = n; break;
        case 2: o.storm_weak = n; break;
        default: o.storm_spurious = o.storm_eintr = n; break;
        }
#ifdef BOOST_SYNC_HAS_PTHREAD_EINTR_BUG
        if (r.p(0.4)) o.storm_eintr_pthread = n;
#endif
    }
    o.races = false;
    return o;
}
static void finish(std::string const& what, uint64_t h, bool nt)
{
    ++runs;
    if (nt) { ++nontriv; hashes.insert(h ^ case_hash); sample(what); }
    case_hash = 0;
}
void execute(vrt::Options const& o, std::string const& what, std::function< void() > body)
{
    this_nontrivial = false;
    vrt::set_case(what);
    vrt::run(o, std::move(body));
    finish(what, vrt::trace_hash() ^ std::hash< std::string >()(what), this_nontrivial);
}
struct Shared { uint64_t hash; int nt; vrt::Stats st; int ncnt; struct { char name[40]; uint64_t v; } cnt[60]; };
void execute_forked(vrt::Options const& o, std::string const& what, std::function< void() > body)
{
    static Shared* sh;
    if (!sh) sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(sh, 0, sizeof(*sh));
    vrt::set_case(what);
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { printf("UNSUPPORTED\tfork\n"); fflush(stdout); _exit(12); }
    if (pid == 0)
    {
        counters().clear(); vrt::stats = vrt::Stats(); this_nontrivial = false;
        alarm(120);
        vrt::run(o, std::move(body));
        sh->hash = vrt::trace_hash(); sh->nt = this_nontrivial; sh->st = vrt::stats;
        int n = 0;
        for (auto& c : counters()) if (n < 60) { snprintf(sh->cnt[n].name, 40, "%s", c.first.c_str()); sh->cnt[n++].v = c.second; }
        sh->ncnt = n;
        _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) { printf("VIOL\tcrash\tterminated by signal %d\nCASE\t%s\n", WTERMSIG(st), what.c_str()); fflush(stdout); _exit(WTERMSIG(st) == SIGALRM ? 13 : 10); }
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    for (int i = 0; i < sh->ncnt; ++i) counters()[sh->cnt[i].name] += sh->cnt[i].v;
    vrt::Stats& a = vrt::stats; vrt::Stats& b = sh->st;
    a.runs += b.runs; a.steps += b.steps; a.switches += b.switches; a.atomics += b.atomics; a.plain += b.plain; a.os_calls += b.os_calls; a.blocks += b.blocks; a.timeouts += b.timeouts;
    a.spurious += b.spurious; a.eintr += b.eintr; a.weak_fail += b.weak_fail; a.stale += b.stale; a.hb_pairs += b.hb_pairs; a.faults_fired += b.faults_fired; a.max_threads = std::max(a.max_threads, b.max_threads);
    finish(what, sh->hash ^ std::hash< std::string >()(what), sh->nt);
}
}

namespace lin {
struct Search
{
    History const& h; Model const& m;
    int n;
    std::vector< int > nsteps;
    std::set< std::vector< int > > seen; // phase of each op, state, quiet index
    Search(History const& hh, Model const& mm) : h(hh), m(mm), n((int)hh.ops.size()) { for (Op const& o : h.ops) nsteps.push_back(m.steps(o)); }
    bool done(int i, std::vector< int > const& ph) const { return ph[i] == nsteps[i]; }
    bool go(std::vector< int >& ph, int state, int qi)
    {
        std::vector< int > key = ph; key.push_back(state); key.push_back(qi);
        if (!seen.insert(key).second) return false;
        // earliest event that has to come next: the smallest return of an operation that isn't complete, or the next quiescent instant
        uint64_t q = qi < (int)h.quiet.size() ? h.quiet[qi] : ~0ull, lim = q;
        bool all = true;
        for (int i = 0; i < n; ++i) if (!done(i, ph) && h.ops[i].ret) { all = false; lim = std::min(lim, h.ops[i].ret); }
        if (all && q == ~0ull) return true;
        for (int i = 0; i < n; ++i)
        {
            if (done(i, ph) || h.ops[i].inv > lim) continue;
            // a pending operation can't have its last step (it hasn't returned): it may only start
            if (!h.ops[i].ret && ph[i] + 1 >= nsteps[i]) continue;
            int s = m.step(state, h.ops[i], ph[i]);
            if (s < 0) continue;
            ++ph[i];
            if (go(ph, s, qi)) return true;
            --ph[i];
        }
        if (q != ~0ull && lim == q)
        {
            // pass the quiescent instant: all operations that returned before are complete, all in flight have made their first step
            int pend = 0;
            for (int i = 0; i < n; ++i)
            {
                if (h.ops[i].inv > q) continue;
                if (h.ops[i].ret && h.ops[i].ret < q) { if (!done(i, ph)) return false; continue; }
                ++pend;
                if (nsteps[i] > 1 && ph[i] == 0) return false;
                if (done(i, ph)) return false; // still blocked, so it can't have been completed
            }
            if (!m.quiescent_ok(state, pend)) return false;
            return go(ph, state, qi + 1);
        }
        return false;
    }
};
bool check(History const& h, Model const& m, int init)
{
    vrt::Quiet q;
    Search s(h, m);
    std::vector< int > ph(h.ops.size(), 0);
    return s.go(ph, init, 0);
}
std::string show(History const& h, const char* const* kinds)
{
    vrt::Quiet q;
    std::string s;
    for (size_t i = 0; i < h.ops.size(); ++i)
        s += hx::fmt("%s[%llu,%llu] T%d %s=%d", i ? "; " : "", (unsigned long long)h.ops[i].inv, (unsigned long long)h.ops[i].ret, h.ops[i].tid, kinds[h.ops[i].kind], h.ops[i].result);
    for (uint64_t x : h.quiet) s += hx::fmt("; Q@%llu", (unsigned long long)x);
    return s;
}
}

int main(int argc, char** argv)
{
    if (argc < 6) { fprintf(stderr, "usage: %s mode seed from to hashfile|-\n", argv[0]); return 2; }
    vrt::init();
    std::string mode = argv[1];
    uint64_t seed = strtoull(argv[2], 0, 0), from = strtoull(argv[3], 0, 0), to = strtoull(argv[4], 0, 0);
    hx::replaying = to == from + 1;
    FILE* prog = nullptr;
    if (strcmp(argv[5], "-") != 0) prog = fopen((std::string(argv[5]) + ".pos").c_str(), "w");
    for (uint64_t i = from; i < to; ++i)
    {
        vrt::set_replay(hx::fmt("%s %s %llu %llu %llu -", argv[0], argv[1], (unsigned long long)seed, (unsigned long long)i, (unsigned long long)i + 1));
        if (prog) { rewind(prog); fprintf(prog, "%llu          ", (unsigned long long)i); fflush(prog); }
        hx::Rng r(seed * 0x9e3779b97f4a7c15ull ^ (i + 1) * 0xd1b54a32d192ed03ull ^ std::hash< std::string >()(mode));
        one_case(r, mode, i);
    }
    if (strcmp(argv[5], "-") != 0)
    {
        FILE* f = fopen(argv[5], "wb");
        for (uint64_t h : hx::hashes) fwrite(&h, 8, 1, f);
        fclose(f);
    }
    vrt::Stats& s = vrt::stats;
    printf("STAT\t{\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"switches\":%llu,\"atomics\":%llu,\"plain_accesses\":%llu,\"os_calls\":%llu,\"blocks\":%llu,\"timeouts\":%llu,\"spurious_wakeups\":%llu,\"eintr\":%llu,\"weak_cas_failures\":%llu,\"stale_reads\":%llu,\"hb_pairs\":%llu,\"faults\":%llu,\"max_threads\":%llu",
        (unsigned long long)hx::runs, (unsigned long long)hx::nontriv, (unsigned long long)s.steps, (unsigned long long)s.switches, (unsigned long long)s.atomics, (unsigned long long)s.plain, (unsigned long long)s.os_calls, (unsigned long long)s.blocks,
        (unsigned long long)s.timeouts, (unsigned long long)s.spurious, (unsigned long long)s.eintr, (unsigned long long)s.weak_fail, (unsigned long long)s.stale, (unsigned long long)s.hb_pairs, (unsigned long long)s.faults_fired, (unsigned long long)s.max_threads);
    printf(",\"counts\":{");
    bool first = true;
    for (auto& c : hx::counters()) { printf("%s\"%s\":%llu", first ? "" : ",", c.first.c_str(), (unsigned long long)c.second); first = false; }
    printf("}}\n");
    for (auto& x : hx::samples) printf("SAMPLE\t%s\n", x.c_str());
    fflush(stdout);
    return 0;
}

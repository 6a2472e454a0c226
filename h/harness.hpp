// Common part of the workload drivers that run under vrt. Public API of Boost.Sync only.
#ifndef VERIF_HARNESS_HPP_
#define VERIF_HARNESS_HPP_
#include "../vrt/vrt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <errno.h>
#include <limits.h>
#include <functional>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

namespace hx {

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t x) : s(x) { u(); }
    uint64_t u() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t n(uint64_t k) { return k ? u() % k : 0; }
    int64_t in(int64_t a, int64_t b) { return a + (int64_t)n((uint64_t)(b - a + 1)); }
    bool p(double x) { return (u() >> 11) * (1.0 / 9007199254740992.0) < x; }
    template< typename T > T pick(std::initializer_list< T > l) { return *(l.begin() + n(l.size())); }
};

extern std::map< std::string, uint64_t >& counters();
// Count something the monitors observed
inline void count(const char* name, uint64_t k = 1) { vrt::Quiet q; counters()[name] += k; }
void nontrivial();                     // the current run exercised what the property is about
void sample(std::string const& s);
extern bool replaying;
extern uint64_t case_hash;             // of what the current run did, beyond its description and interleaving

// Random schedule / injection settings. lossy: allow spurious wake-ups (they can mask lost wake-ups, so only in a part of the runs)
vrt::Options options(Rng& r);
// Run body under vrt, record the interleaving
void execute(vrt::Options const& o, std::string const& what, std::function< void() > body);
// The same in a forked child (for code with process-global state)
void execute_forked(vrt::Options const& o, std::string const& what, std::function< void() > body);

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// Provided by the driver: one case, derived from r only
}
void one_case(hx::Rng& r, std::string const& mode, uint64_t index);

#if defined(VCFG_WIN) && !defined(HX_IMPL)
#include <boost/sync/detail/waitable_timer.hpp>
namespace hx {
static struct ResetLibrary
{
    static void reset() { typedef boost::sync::detail::windows::waitable_timer_state S; memset(&boost::sync::detail::weak_linkage< S >::value, 0, sizeof(S)); }
    ResetLibrary() { vrt::w32_reset_library = &reset; }
} reset_library;
}
#endif

// Linearizability: histories with one- and two-step operations checked against a small nondeterministic model
namespace lin {
struct Op
{
    int kind;            // model specific
    int result;          // model specific
    uint64_t inv, ret;   // event numbers; ret == 0: pending
    int tid;
};
// A model: states are ints. step(state, op, phase) -> next state or -1. phase 0: first step, 1: second step.
struct Model
{
    virtual ~Model() {}
    virtual int steps(Op const& op) const = 0;
    virtual int step(int state, Op const& op, int phase) const = 0;
    // At an instant when nothing could run; pending: number of operations still blocked
    virtual bool quiescent_ok(int state, int pending) const = 0;
};
struct History
{
    std::vector< Op > ops;
    std::vector< uint64_t > quiet;   // event numbers of quiescent instants
    uint64_t now = 0;
    int begin(int kind) { vrt::Quiet q; ops.push_back(Op{ kind, 0, ++now, 0, vrt::self() }); vrt::log("call op%d kind %d", (int)ops.size() - 1, kind); return (int)ops.size() - 1; }
    void end(int i, int result) { vrt::Quiet q; ops[i].result = result; ops[i].ret = ++now; vrt::log("return op%d = %d", i, result); }
    void quiescent() { vrt::Quiet q; quiet.push_back(++now); vrt::log("quiescent"); }
};
// True if the history is explained by the model
bool check(History const& h, Model const& m, int init);
std::string show(History const& h, const char* const* kinds);
}
#endif

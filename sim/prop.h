// Scenarios, judging helpers, statistics and the interface of the property modules.
#pragma once
#include "scen.h"

namespace sim {

// ------------------------------------------------------------------ statistics of a check
struct Stats {
    std::map<std::string, uint64_t> c;
    std::set<uint64_t> execs;        // distinct executions (hash of the full operation / fault / schedule history)
    std::set<uint64_t> nontrivial;   // ... in which something was injected or perturbed
    std::set<uint64_t> scheds;       // distinct interleavings
    void add(const std::string& k, uint64_t n = 1) { c[k] += n; }
    void merge(const Stats& o);
    void save(std::string& out) const;
    void load(const char*& p, const char* e);
};
extern Stats* g_st;

// ------------------------------------------------------------------ scenarios
struct Scenario {
    std::string name, app, test;
    std::vector<FsEdit> inputs;
    std::vector<std::string> args;
    std::string codeDir;             // absolute, or empty
    bool nsOverride = false;
    std::string outArg = "out", out = "/work/out";
    Task task() const { Task t; t.app = app; t.args = args; return t; }
};
Vfs worldBase();
// variant 0: as the repository's own tests run it; others: seeded choice of options, custom code and input forms.
Scenario makeScenario(const std::string& app, const std::string& test, uint64_t variant);
bool scenarioDisabled(const std::string& app, const std::string& test);
// Custom code for every fragment the generator looks for (a seeded subset) plus extra source files.
void addFragments(Scenario& s, Rng& g, double prob, bool big);
void addExtraFiles(Scenario& s, Rng& g, int n);
std::vector<std::string> schemaMessages(const std::vector<std::string>& xmls);
std::string randomCode(Rng& g, size_t n);
void addStale(Scenario& s, Rng& g, double prob);   // old, different content at the paths the generator writes
std::vector<std::string> schemaFilesOf(const Scenario& s);
struct ScenSet { std::vector<Scenario> v; };
// All generators x all tests x nVariants
void standardScenarios(std::vector<Scenario>& out, int nVariants, uint64_t seed, bool frag);

// ------------------------------------------------------------------ executing and judging
RunResult exec(Vfs& fs, const Step& st, bool wantFs = false, bool trace = false, bool trail = false);   // applies st.edits, runs, updates fs when wantFs
struct Ref { RunResult rr; TreeMap out; bool ok = false; };   // out: relative paths below the output directory
std::shared_ptr<Ref> reference(const Task& t, const std::vector<FsEdit>& inputs, const std::string& out);
TreeMap below(const TreeMap& t, const std::string& top);      // relative paths
// Empty when every file of ref is under out as ref has it and (strict) everything else is as it was before.
std::string overlayDiff(const TreeMap& ref, const TreeMap& now, const TreeMap& pre, bool strict);
std::string diffClass(const std::string& d);
std::string describeEnd(const RunResult& r);
bool badEnd(const RunResult& r);                 // crash, hang, heap corruption, deadlock
std::string endSig(const RunResult& r);          // short and stable
bool hasErrorMessage(const std::string& err);
std::string crashSite(const RunResult& r);

struct Verdict {
    bool bad = false; std::string sig, msg;
    static Verdict ok() { return {}; }
    static Verdict fail(const std::string& s, const std::string& m) { Verdict v; v.bad = true; v.sig = s; v.msg = m; return v; }
};

struct Job { uint32_t group; std::function<Case()> make; };
struct PlanCtx {
    uint64_t seed; bool thorough; int scale;     // scale: 1 quick, larger thorough
    std::vector<Job> jobs;
    std::vector<std::string> notes;
    void add(uint32_t group, std::function<Case()> f) { jobs.push_back({group, std::move(f)}); }
};
struct Prop {
    const char* id;
    void (*plan)(PlanCtx&);
    Verdict (*judge)(const Case&);
    const char* rule;
    const char* level;
};
extern const Prop faultProps[], histProps[], libProps[];
extern const size_t nFaultProps, nHistProps, nLibProps;

// ------------------------------------------------------------------ traces (operation sites)
struct TraceOp { uint32_t n; OpKind kind; uint8_t exists, wr; uint32_t len; uint64_t site; std::string path; };
struct Trace { bool ok = false; int end = 0; int code = 0; uint32_t ops = 0; uint64_t steps = 0, allocs = 0; std::vector<TraceOp> t; std::vector<std::string> probed, readOk; uint64_t outBytes = 0; uint32_t outNodes = 0; uint32_t sinkLines[2] = {0, 0}; std::string text; };
std::vector<Trace> traceAll(const std::vector<Scenario>& s);    // in parallel
Trace traceOne(const Scenario& s);
struct Pick { uint32_t scen; TraceOp op; bool first = false; };   // first: the guaranteed attack of its site
// Chooses operations to attack: every distinct site first (up to perSite instances), then random ones.
std::vector<Pick> pickOps(const std::vector<Trace>& tr, const std::function<bool(const TraceOp&)>& want, int perSite, size_t extra, Rng& g, size_t* sites = nullptr, size_t cap = 0);   // cap: at most that many, write-side ones first

// ------------------------------------------------------------------ parallel execution
void parallelFor(size_t n, const std::function<void(size_t, std::string&)>& work, const std::function<void(size_t, const std::string&)>& merge, double deadline = 0);
double nowSec();
int errnoFor(OpKind k, Rng& g);
std::vector<Scenario> buildScenarios(const std::vector<std::function<Scenario()>>& f);
std::vector<Scenario> faultScenarios(PlanCtx& cx, int variants, double fragProb, double staleProb);
void dropRejected(std::vector<Scenario>& s, std::vector<Trace>& t, PlanCtx& cx);
Verdict precheck(const Case& c, const RunResult& r);
std::string damage(const std::string& in, Rng& g, const std::vector<std::string>& others);   // storage damage or structured damage of one file
Case caseOf(const char* prop, const Scenario& s, const std::string& variant = "");

} // namespace sim

// Cases (what is simulated), results (what was observed), and the machinery to execute them.
#pragma once
#include "core.h"
#include "world.h"

namespace sim {

struct FsEdit {
    enum Kind : int { PUT = 1, MKDIR, LINK, REMOVE, CHMOD, MTIME, APPEND, RENAME, TWEAK };
    int kind = PUT;
    std::string path, data;      // data: content, link target, new name, seed and per cent (TWEAK: files below path become almost, but not quite, what they were); "@corpus:<rel>" for unmodified corpus files
    uint32_t mode = 0644;
    int64_t mtime = 0;           // for PUT: 0 = current simulated time
};
void applyEdit(Vfs& v, const FsEdit& e);
inline FsEdit put(const std::string& p, const std::string& d, uint32_t mode = 0644) { FsEdit e; e.path = p; e.data = d; e.mode = mode; return e; }

struct Task {
    std::string app;                 // generator name, or "lib" for a parser workload
    std::vector<std::string> args;   // command line without argv[0]; for "lib": the workload script
    Plan plan;
    Knobs knobs;
};
struct Step {
    std::vector<FsEdit> edits;       // applied before the step
    std::vector<Task> tasks;         // run one after another, or interleaved, in one process
    bool threaded = false;
    ThreadPlan tp;
    uint64_t powerLoss = 0;          // seed of the power loss that follows the (crashed) step
    uint64_t damage = 0;             // unused by default; property specific
    std::string note;
};
struct Case {
    std::string prop, variant;
    std::vector<Step> steps;
    std::string out = "/work/out";
    std::map<std::string, std::string> meta;
};
std::string caseToText(const Case& c);
bool caseFromText(const std::string& s, Case& c);

struct TaskResult {
    bool done = false; int exitCode = 0;
    uint32_t ops = 0, maxOpen = 0, fdsLeft = 0;
    uint64_t steps = 0, allocs = 0, allocsFailed = 0, logHash = 0, transfers = 0, sinkFails = 0;
    uint64_t liveBlocks = 0, liveBytes = 0;      // still allocated after the task since the start of the incarnation
    uint64_t grownBlocks = 0, grownBytes = 0;    // ... by this task
    std::string leakText, text;
    std::vector<Fired> fired;
    std::map<std::pair<std::string, uint8_t>, uint32_t> muts;
    std::set<std::string> created, readOk, probed;
    std::vector<std::string> escapes, trail;
    std::vector<OpRec> opRecs; std::vector<std::string> paths;
    uint64_t opCount[OP_NKINDS] = {};
    std::vector<uint64_t> hot;
};
struct RunResult {
    int end = END_NONE; int sig = 0; std::string endText;
    std::vector<TaskResult> tasks;
    std::string out, err;
    std::string heapErr;
    uint64_t steps = 0, switches = 0, schedHash = 0; int64_t simNs = 0;
    TreeMap tree;                 // whole file system after the run
    bool hasFs = false; Vfs fs;
    uint64_t hash() const;        // everything observable
    bool ok() const { return end == END_EXIT && !tasks.empty() && tasks.back().done && tasks.back().exitCode == 0; }
    bool exited() const { return end == END_EXIT; }
    int code() const { return tasks.empty() ? -999 : tasks.back().exitCode; }
};

struct RunOpts { bool trace = false, trail = false, wantFs = false, wantTree = true; uint64_t hotEvery = 0; uint64_t stepLimit = 3000000000ULL; };
// Executes one step in a forked child on (a copy-on-write image of) fs.
RunResult runStep(Vfs& fs, const Step& st, const RunOpts& o);
void runnerInit();           // once per worker process
const char* const* appNames();
extern unsigned long long g_runsDone;   // incarnations executed by this process
extern unsigned long long g_simNsDone;

// lib workloads (lib_workload.cpp)
void libMain(const std::vector<std::string>& script, std::string& log);

// Corpus
struct Corpus {
    std::map<std::string, std::string> files;    // relative path -> content
    std::vector<std::string> tests;              // gen/testN
    std::vector<std::string> libFiles;           // lib/...
    void load(const std::string& dir);
};
extern Corpus g_corpus;

} // namespace sim

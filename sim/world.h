// The simulated world inside one incarnation (a forked child): processes, descriptors, faults, schedule.
#pragma once
#include "core.h"
#include <cstdio>
#include <pthread.h>

namespace sim {

struct FdEnt { NodeP node; int64_t pos = 0; int flags = 0; std::string path; };
struct DirStream;   // fake DIR

struct Fired { uint32_t op; OpKind kind; FaultAct act; int err; std::string path; uint8_t exists; };
enum MutKind : uint8_t { MU_CREATE, MU_TRUNC, MU_WRITE, MU_MKDIR, MU_UNLINK, MU_RMDIR, MU_RENAME_FROM, MU_RENAME_TO, MU_CHMOD, MU_UTIME, MU_LINK };
extern const char* const mutNames[];

struct Proc {
    int id = 0;
    std::string cwd = "/work";
    std::vector<std::unique_ptr<FdEnt>> fds;
    const Plan* plan = nullptr;
    const Knobs* knobs = nullptr;
    Rng miscRng{1}, shortRng{1};
    uint32_t opn = 0;
    uint64_t logHash = 0x1234567;
    uint64_t allocs = 0, allocsFailed = 0;
    uint64_t failC = 0; bool failCSticky = false;      // n-th allocation from now by a C library fails
    uint64_t steps = 0;
    int eintrRun = 0;
    struct Sticky { uint32_t mask; int err; int64_t left; std::string path; };     // left: -1 for ever; path: empty = any, else this path and below
    std::vector<Sticky> sticky;
    std::vector<Fired> fired;
    uint64_t firedTransfers = 0;       // random short / interrupted transfers
    std::map<std::pair<std::string, uint8_t>, uint32_t> muts;
    std::set<std::string> created;     // paths created by this process
    std::vector<std::string> escapes;  // forbidden effects (system(), fork(), sockets, ...)
    bool trace = false;
    std::vector<OpRec> ops;
    std::vector<std::string> paths;
    std::map<std::string, uint32_t> pathIdx;
    std::set<std::string> readOk;      // existing files opened for reading
    std::set<std::string> probed;      // missing files a read was attempted on
    std::vector<uint64_t> hot;
    int openNow = 0, maxOpen = 0;
    int sinkCalls[2] = {0, 0};
    uint64_t sinkFails = 0;
    uint64_t opCount[OP_NKINDS] = {};
    std::string exitText;
    int exitCode = 0;
    bool finished = false;
    std::vector<std::string> trail;    // human readable op trail (only when requested)
    bool wantTrail = false;
};

enum EndKind : int { END_NONE = 0, END_EXIT = 1, END_CRASH = 2 /* simulated crash point */, END_SIGNAL = 3, END_HANG = 4, END_HEAP = 5, END_DEADLOCK = 6, END_INTERNAL = 7 };

// Global state of the incarnation
extern volatile bool g_active;
extern thread_local int t_inSim;
extern thread_local Proc* t_proc;
extern Vfs* g_vfs;
extern uint64_t g_stepLimit;
uint64_t stepsNow();
extern unsigned char* g_cov;       // shared coverage map (one byte per code byte / 4)
extern size_t g_covSize;
extern uintptr_t g_textLo, g_textHi;

struct InSim { InSim() { ++t_inSim; } ~InSim() { --t_inSim; } };
inline bool simOn() { return g_active && t_inSim == 0 && t_proc != nullptr; }

[[noreturn]] void endRun(int kind, int code, const std::string& text);   // report and leave the child

// heap.cpp
void heapStart(uint64_t seed, bool junk);
void heapStop();
struct HeapStats { uint64_t liveBlocks, liveBytes, totalAllocs, peakBytes; };
HeapStats heapStats();
std::string heapCheckAll();        // empty, or a description of the corruption found
extern uint64_t g_heapMark;        // allocation serial number, for "allocated since"
std::vector<std::pair<const char*, size_t>> heapBlocks();     // live blocks: header address, bytes with header
std::string heapLeaks(uint64_t sinceSerial, size_t max, uint64_t* blocks, uint64_t* bytes);
uint64_t heapSerial();

// sched.cpp
struct SwitchPt { uint64_t at; int to; };
struct ThreadPlan { std::vector<SwitchPt> switches; };
void schedRun(std::vector<std::function<void()>>& bodies, std::vector<Proc*>& procs, const ThreadPlan& plan);
void schedPoint(uint64_t weight);   // called at operations and API boundaries
extern bool g_threaded;
extern uint64_t g_switchesTaken, g_schedHash;
extern thread_local int t_noPreempt;

// Where (in steps) the static data of the code under test, and what it keeps on the heap between runs, changes.
void hotStart(uint64_t every);
std::vector<uint64_t> hotStop();    // ends of the windows of that many steps, from the start of the sampling

uint64_t stackHash(bool full);
std::string stackText();

} // namespace sim

// Core types of the simulator: PRNG, virtual file system, simulated process, fault plans.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <sys/stat.h>

namespace sim {

// ---------------------------------------------------------------- PRNG / hashing
inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) {
    const unsigned char* b = (const unsigned char*)p;
    while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; b += 8; n -= 8; }
    while (n--) { h = (h ^ *b++) * 0x100000001b3ULL; h ^= h >> 31; }
    return h;
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 0xcbf29ce484222325ULL) { return hashBytes(s.data(), s.size(), h); }
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(mix64(seed ^ 0x5bd1e995u)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool chance(double p) { return (double)(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class C> auto& pick(C& c) { return c[below(c.size())]; }
    template <class C> const auto& pick(const C& c) { return c[below(c.size())]; }
    template <class C> void shuffle(C& c) { for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[below(i)]); }
};
inline uint64_t subSeed(uint64_t seed, uint64_t a, uint64_t b = 0, uint64_t c = 0) {
    return mix64(mix64(mix64(mix64(seed) ^ a) ^ b) ^ c);
}

// ---------------------------------------------------------------- virtual file system
enum NodeType : uint8_t { NT_FILE = 1, NT_DIR = 2, NT_LINK = 3 };
struct Node {
    NodeType type = NT_FILE;
    uint32_t mode = 0644;
    int64_t mtime = 0;
    uint64_t ino = 0;
    uint32_t nlink = 1;
    std::string data;                                   // file content or link target
    std::map<std::string, std::shared_ptr<Node>> ents;  // directories
    // Durability: state that would survive a power loss (absent = same as current).
    bool dirty = false;          // changed since the last sync
    bool bornDirty = false;      // created since the last sync of its directory
    std::string durData;         // content at the last sync, when dirty and !bornDirty
    std::unique_ptr<std::map<std::string, std::shared_ptr<Node>>> durEnts;
};
using NodeP = std::shared_ptr<Node>;

struct TreeEntry { NodeType type; uint32_t mode; uint64_t hash; uint64_t size; int64_t mtime; };
using TreeMap = std::map<std::string, TreeEntry>;

struct Vfs {
    NodeP root;
    uint64_t nextIno = 1;
    int64_t now = 1700000000LL * 1000000000LL;   // simulated wall clock, ns
    int64_t startNow = 0;
    int64_t byteQuota = -1;      // bytes that may still be allocated; -1 unlimited
    int64_t inodeQuota = -1;

    Vfs();
    NodeP mk(NodeType t, uint32_t mode);
    // Lookup relative to cwd; returns 0 or errno. If the last component is missing: node null, parent/name set, ENOENT.
    struct Res { NodeP node, parent; std::string name; bool trailingSlash = false; std::string canon; };
    int resolve(const std::string& cwd, const std::string& path, bool followLast, Res& r, bool wantParent = false) const;
    std::string canonical(const std::string& cwd, const std::string& path) const;   // lexical
    // Direct (non-simulated) manipulation used to set up scenarios.
    NodeP get(const std::string& abs) const;
    void mkdirs(const std::string& abs);
    void put(const std::string& abs, const std::string& content, uint32_t mode = 0644);
    void putLink(const std::string& abs, const std::string& target);
    void remove(const std::string& abs);
    void tree(TreeMap& out, const std::string& top = "/") const;
    void walk(const std::function<void(const std::string&, const NodeP&)>& f, const std::string& top = "/") const;
    void touchDir(const NodeP& d);     // before modifying entries of d
    void touchData(const NodeP& f);    // before modifying content of f
    void syncAll();
    void powerLoss(uint64_t seed, std::vector<std::string>* log);
    Vfs clone() const;
    void serialise(std::string& out) const;
    static Vfs deserialise(const char* p, size_t n);
};

// ---------------------------------------------------------------- operations and faults
enum OpKind : uint8_t {
    OP_OPEN_R, OP_OPEN_W, OP_READ, OP_WRITE, OP_CLOSE, OP_STAT, OP_MKDIR, OP_OPENDIR, OP_READDIR, OP_COPY, OP_LSEEK,
    OP_RENAME, OP_UNLINK, OP_LINK, OP_CHMOD, OP_UTIME, OP_TRUNC, OP_FSYNC, OP_READLINK, OP_CWD, OP_MISC, OP_NKINDS
};
extern const char* const opNames[OP_NKINDS];
inline uint32_t kbit(OpKind k) { return 1u << k; }

const uint32_t SamePath = 1u << 31;      // sticky only for the same path and what is below it
enum FaultAct : uint8_t { FA_ERR = 1, FA_SHORT = 2, FA_CRASH = 3, FA_CRASH_MID = 4, FA_PARTIAL_ERR = 5 };
struct Fault {
    uint32_t op = 0;         // fires at this operation number of the simulated process (1-based)
    FaultAct act = FA_ERR;
    int err = 0;
    int64_t arg = 0;         // SHORT / PARTIAL_ERR / CRASH_MID: bytes transferred
    uint32_t sticky = 0;     // kinds that keep failing afterwards (mask); 0 = one-shot
    uint32_t count = 0;      // how many later operations keep failing when sticky (0 = for ever)
};
struct Plan {
    std::vector<Fault> faults;
    uint64_t shortSeed = 0;  // non-zero: random short transfers / interruptions everywhere
    double shortProb = 0, eintrProb = 0;
    int shortMax = 0;        // transfers are cut to 1..shortMax bytes
    bool xferReads = true, xferWrites = true;
    int64_t byteQuota = -1, inodeQuota = -1;
    int fdLimit = 1024;
    uint64_t failAllocAt = 0;     // n-th allocation fails (1-based)
    bool failAllocSticky = false;
    uint64_t failAllocMax = 0;    // with sticky: number of allocations that fail (0 = for ever)
    // stdout / stderr
    int sinkFrom[2] = {-1, -1};   // from this write call on the stream fails
    int sinkCount[2] = {0, 0};    // how many calls fail (0 = for ever)
    int sinkErr[2] = {0, 0};
    bool empty() const { return faults.empty() && !shortSeed && byteQuota < 0 && inodeQuota < 0 && fdLimit == 1024 && !failAllocAt && sinkFrom[0] < 0 && sinkFrom[1] < 0; }
};
struct Knobs {
    uint64_t heapSeed = 1, dirSeed = 0, inoSeed = 0, miscSeed = 1;
    int64_t clockBase = 0;       // ns, 0 = keep the file system's clock
    int64_t opCost = 20000;      // ns of simulated time per operation
    int64_t clockJump = 0;       // max size of random clock jumps per read of the clock
    bool dtUnknown = false;      // directory entries without type information
    bool junk = true;            // fill new allocations with junk
    std::string cwd = "/work";
    std::vector<std::string> env;
    int pid = 4242;
};

struct OpRec {                   // one operation of a traced run
    uint32_t n; OpKind kind; uint8_t exists; uint8_t wr; uint8_t failed;
    uint32_t len; uint32_t pathIdx; uint64_t stack;
};

} // namespace sim

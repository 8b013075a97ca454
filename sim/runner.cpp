#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "scen.h"
#include <cerrno>
#include <csignal>
#include <dlfcn.h>
#include <fcntl.h>
#include <ftw.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <dirent.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <libxml/parser.h>
#include <libxml/xmlerror.h>

extern char __executable_start, etext;

int commsdsl2comms_main(int, const char**);
int commsdsl2c_main(int, const char**);
int commsdsl2swig_main(int, const char**);
int commsdsl2emscripten_main(int, const char**);
int commsdsl2latex_main(int, const char**);
int commsdsl2test_main(int, const char**);
int commsdsl2tools_qt_main(int, const char**);

namespace sim {
void schedReset(); void schedCharge(Proc*);
Corpus g_corpus;
unsigned long long g_runsDone = 0, g_simNsDone = 0;

namespace {
const size_t ShmSize = 256ULL << 20;
struct Shm { volatile uint32_t done; uint64_t len; char data[1]; };
Shm* shm = nullptr;
int outFd = -1, errFd = -1;

// ------------------------------------------------------------------ result marshalling
void p64(std::string& o, uint64_t v) { o.append((const char*)&v, 8); }
void pstr(std::string& o, const std::string& s) { p64(o, s.size()); o += s; }
struct Rd {
    const char* p; const char* e;
    uint64_t u64() { if (e - p < 8) abort(); uint64_t v; memcpy(&v, p, 8); p += 8; return v; }
    std::string str() { uint64_t n = u64(); if ((uint64_t)(e - p) < n) abort(); std::string s(p, n); p += n; return s; }
};

// child-side state
std::vector<Proc*> procs;
std::vector<HeapStats> statAfter;
std::vector<std::pair<uint64_t, uint64_t>> grown;
std::vector<std::string> leakTexts;
RunOpts copts;
int64_t startNow;

void putTask(std::string& o, Proc& p, size_t i) {
    p64(o, p.finished); p64(o, (uint64_t)(int64_t)p.exitCode); p64(o, p.opn); p64(o, (uint64_t)p.maxOpen); p64(o, (uint64_t)p.openNow);
    p64(o, p.steps); p64(o, p.allocs); p64(o, p.allocsFailed); p64(o, p.logHash); p64(o, p.firedTransfers); p64(o, p.sinkFails);
    bool h = i < statAfter.size();
    p64(o, h ? statAfter[i].liveBlocks : 0); p64(o, h ? statAfter[i].liveBytes : 0);
    p64(o, i < grown.size() ? grown[i].first : 0); p64(o, i < grown.size() ? grown[i].second : 0); pstr(o, i < leakTexts.size() ? leakTexts[i] : "");
    pstr(o, p.exitText);
    p64(o, p.fired.size()); for (auto& f : p.fired) { p64(o, f.op); p64(o, f.kind | (uint64_t)f.act << 8 | (uint64_t)f.exists << 16); p64(o, (uint64_t)f.err); pstr(o, f.path); }
    p64(o, p.muts.size()); for (auto& m : p.muts) { pstr(o, m.first.first); p64(o, m.first.second); p64(o, m.second); }
    for (auto* s : {&p.created, &p.readOk, &p.probed}) { p64(o, s->size()); for (auto& x : *s) pstr(o, x); }
    for (auto* s : {&p.escapes, &p.trail, &p.paths}) { p64(o, s->size()); for (auto& x : *s) pstr(o, x); }
    p64(o, p.ops.size()); o.append((const char*)p.ops.data(), p.ops.size() * sizeof(OpRec));
    o.append((const char*)p.opCount, sizeof p.opCount);
    p64(o, p.hot.size()); o.append((const char*)p.hot.data(), p.hot.size() * 8);
}
void getTask(Rd& r, TaskResult& t) {
    t.done = r.u64(); t.exitCode = (int)(int64_t)r.u64(); t.ops = (uint32_t)r.u64(); t.maxOpen = (uint32_t)r.u64(); t.fdsLeft = (uint32_t)r.u64();
    t.steps = r.u64(); t.allocs = r.u64(); t.allocsFailed = r.u64(); t.logHash = r.u64(); t.transfers = r.u64(); t.sinkFails = r.u64();
    t.liveBlocks = r.u64(); t.liveBytes = r.u64(); t.grownBlocks = r.u64(); t.grownBytes = r.u64(); t.leakText = r.str();
    t.text = r.str();
    for (uint64_t n = r.u64(); n--;) { Fired f; f.op = (uint32_t)r.u64(); uint64_t k = r.u64(); f.kind = (OpKind)(k & 255); f.act = (FaultAct)(k >> 8 & 255); f.exists = (uint8_t)(k >> 16); f.err = (int)r.u64(); f.path = r.str(); t.fired.push_back(f); }
    for (uint64_t n = r.u64(); n--;) { std::string a = r.str(); uint64_t k = r.u64(); t.muts[{a, (uint8_t)k}] = (uint32_t)r.u64(); }
    for (auto* s : {&t.created, &t.readOk, &t.probed}) for (uint64_t n = r.u64(); n--;) s->insert(r.str());
    for (auto* s : {&t.escapes, &t.trail, &t.paths}) for (uint64_t n = r.u64(); n--;) s->push_back(r.str());
    uint64_t n = r.u64(); t.opRecs.resize(n); memcpy((void*)t.opRecs.data(), r.p, n * sizeof(OpRec)); r.p += n * sizeof(OpRec);
    memcpy(t.opCount, r.p, sizeof t.opCount); r.p += sizeof t.opCount;
    n = r.u64(); t.hot.resize(n); memcpy((void*)t.hot.data(), r.p, n * 8); r.p += n * 8;
}

std::string sigText;
void onSignal(int sig, siginfo_t* si, void* uc) {
    // Describe the place on the real standard error, then die from the signal.
    g_active = false; t_inSim = 1000;
    char b[256];
    int n = snprintf(b, sizeof b, "\n[sim] signal %d address %p stack:\n", sig, si->si_addr);
    (void)!syscall(SYS_write, 2, b, n);
    auto* ctx = (ucontext_t*)uc;
    uintptr_t pc = (uintptr_t)ctx->uc_mcontext.gregs[REG_RIP], fp = (uintptr_t)ctx->uc_mcontext.gregs[REG_RBP], sp = (uintptr_t)ctx->uc_mcontext.gregs[REG_RSP];
    Dl_info di;
    auto show = [&](uintptr_t a) { if (dladdr((void*)a, &di) && di.dli_sname) { int m = snprintf(b, sizeof b, "  %s\n", di.dli_sname); (void)!syscall(SYS_write, 2, b, m < 255 ? m : 255); } };
    show(pc);
    for (int i = 0; i < 24; ++i) {
        if (fp < sp || fp > sp + (8 << 20) || (fp & 7)) break;
        uintptr_t ret = ((uintptr_t*)fp)[1], nfp = ((uintptr_t*)fp)[0];
        show(ret);
        if (nfp <= fp) break;
        fp = nfp;
    }
    signal(sig, SIG_DFL);
    syscall(SYS_tgkill, syscall(SYS_getpid), syscall(SYS_gettid), sig);
    syscall(SYS_exit_group, 99);
}

typedef int (*AppMain)(int, const char**);
struct AppEnt { const char* name; AppMain fn; };
const AppEnt apps[] = {
    {"commsdsl2comms", ::commsdsl2comms_main}, {"commsdsl2c", ::commsdsl2c_main}, {"commsdsl2swig", ::commsdsl2swig_main}, {"commsdsl2emscripten", ::commsdsl2emscripten_main},
    {"commsdsl2latex", ::commsdsl2latex_main}, {"commsdsl2test", ::commsdsl2test_main}, {"commsdsl2tools_qt", ::commsdsl2tools_qt_main}};

// Runs in simulated context, except for setup.
void taskBody(const Task& t, Proc* p) {
    if (t.app == "lib") {
        std::string* log; const std::vector<std::string>* sc;
        { InSim g; log = new std::string(); sc = &t.args; }
        { std::string l; libMain(*sc, l); InSim g; *log = std::string(l.data(), l.size()); }
        InSim g; p->exitText = *log; delete log; p->exitCode = 0; p->finished = true;
        return;
    }
    std::vector<const char*>* argv; AppMain fn = nullptr;
    {
        InSim g;
        argv = new std::vector<const char*>();
        auto* name = new std::string(t.app);
        argv->push_back(name->c_str());
        for (auto& a : t.args) argv->push_back(a.c_str());
        argv->push_back(nullptr);
        for (auto& a : apps) if (t.app == a.name) fn = a.fn;
        if (!fn) endRun(END_INTERNAL, 0, "unknown app " + t.app);
    }
    int rc = fn((int)argv->size() - 1, argv->data());
    InSim g;
    p->exitCode = rc & 0xff;   // as the shell sees it
    p->finished = true;
}

// What earlier calls left on the stack.
__attribute__((noinline)) void stackJunk(uint64_t seed) {
    unsigned char b[192 * 1024];
    memset(b, (int)(mix64(seed * 31) & 0xff) | 1, sizeof b);
    asm volatile("" : : "r"(b) : "memory");
}
[[noreturn]] void childMain(Vfs& fs, const Step& st, const RunOpts& o) {
    copts = o;
    t_inSim = 1;
    g_vfs = &fs;
    startNow = fs.now;
    dup2(outFd, 1); dup2(errFd, 2);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
    alarm(120);    // safety net against loops outside the instrumented code
    g_stepLimit = o.stepLimit;
    schedReset();
    const Knobs& k0 = st.tasks.at(0).knobs;
    if (k0.clockBase) fs.now = k0.clockBase;
    startNow = fs.now;
    for (auto& t : st.tasks) {
        auto* p = new Proc();
        p->id = (int)procs.size(); p->cwd = t.knobs.cwd; p->plan = &t.plan; p->knobs = &t.knobs; p->miscRng = Rng(t.knobs.miscSeed); p->shortRng = Rng(t.plan.shortSeed);
        p->trace = o.trace; p->wantTrail = o.trail;
        procs.push_back(p);
    }
    clearenv();
    for (auto& e : k0.env) putenv(strdup(e.c_str()));
    heapStart(k0.heapSeed, k0.junk);
    stackJunk(k0.heapSeed);
    std::cout.clear(); std::cerr.clear();
    g_active = true;
    if (!st.threaded) {
        for (size_t i = 0; i < st.tasks.size(); ++i) {
            Proc* p = procs[i];
            fs.byteQuota = p->plan->byteQuota; fs.inodeQuota = p->plan->inodeQuota;
            std::cout.clear(); std::cerr.clear();
            uint64_t ser = heapSerial(); HeapStats before = heapStats();
            t_proc = p;
            if (o.hotEvery) hotStart(o.hotEvery);
            t_inSim = 0;
            taskBody(st.tasks[i], p); schedCharge(p);
            t_inSim = 1;
            if (o.hotEvery) p->hot = hotStop();
            HeapStats hs = heapStats();
            statAfter.push_back(hs);
            uint64_t nb, by; leakTexts.push_back(heapLeaks(ser, 4, &nb, &by)); grown.push_back({hs.liveBlocks - before.liveBlocks, hs.liveBytes - before.liveBytes});
        }
    } else {
        std::vector<std::function<void()>> bodies;
        for (size_t i = 0; i < st.tasks.size(); ++i) { Proc* p = procs[i]; const Task* t = &st.tasks[i]; bodies.push_back([t, p] { taskBody(*t, p); }); }
        schedRun(bodies, procs, st.tp);
        t_inSim = 1;
    }
    t_proc = procs.back();
    endRun(END_EXIT, procs.back()->exitCode, "");
}
} // namespace

const char* const* appNames() { static const char* n[] = {"commsdsl2comms", "commsdsl2c", "commsdsl2swig", "commsdsl2emscripten", "commsdsl2latex", "commsdsl2test", "commsdsl2tools_qt", nullptr}; return n; }

void endRun(int kind, int code, const std::string& text) {
    g_active = false; if (t_proc) schedCharge(t_proc);
    t_inSim = 1000;
    alarm(60);
    if (kind == END_EXIT && t_proc && !t_proc->finished) { t_proc->finished = true; t_proc->exitCode = code & 0xff; }
    fflush(stdout); fflush(stderr);
    std::string o;
    std::string he = heapCheckAll();
    p64(o, (uint64_t)(he.empty() || kind == END_INTERNAL ? kind : END_HEAP)); pstr(o, text); pstr(o, he);
    p64(o, stepsNow()); p64(o, g_switchesTaken); p64(o, g_schedHash); p64(o, (uint64_t)(g_vfs->now - startNow));
    p64(o, procs.size());
    for (size_t i = 0; i < procs.size(); ++i) putTask(o, *procs[i], i);
    p64(o, copts.wantTree);
    if (copts.wantTree) {
        TreeMap tm; g_vfs->tree(tm);
        p64(o, tm.size());
        for (auto& e : tm) { pstr(o, e.first); p64(o, e.second.type | (uint64_t)e.second.mode << 8); p64(o, e.second.hash); p64(o, e.second.size); p64(o, (uint64_t)e.second.mtime); }
    }
    p64(o, copts.wantFs);
    if (copts.wantFs) { std::string f; g_vfs->serialise(f); pstr(o, f); }
    if (o.size() + sizeof(Shm) > ShmSize) { (void)!write(2, "shm overflow\n", 13); syscall(SYS_exit_group, 98); }
    memcpy(shm->data, o.data(), o.size());
    shm->len = o.size();
    __sync_synchronize();
    shm->done = 1;
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}

void runnerInit() {
    shm = (Shm*)mmap(nullptr, ShmSize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    outFd = memfd_create("out", MFD_CLOEXEC); errFd = memfd_create("err", MFD_CLOEXEC);
    g_textLo = (uintptr_t)&__executable_start; g_textHi = (uintptr_t)&etext;
    static bool once = false;
    if (!once) {
        once = true;
        xmlInitParser();
        // Warm everything that initialises itself lazily so that children start from the same state.
        xmlDocPtr d = xmlReadMemory("<a b='c'/>", 10, "x", nullptr, 0); xmlFreeDoc(d);
        try { throw 1; } catch (int) {}
        std::ostringstream s; s << std::hex << 12 << 1.5 << std::endl;
        std::istringstream is("1 2.5"); int a; double b; is >> a >> b;
        std::cout.flush(); std::cerr.flush();
    }
}

static std::string slurpFd(int fd) {
    std::string s; char b[65536]; off_t o = 0;
    while (true) { ssize_t n = syscall(SYS_pread64, fd, b, sizeof b, o); if (n <= 0) break; s.append(b, (size_t)n); o += n; if (s.size() > (8u << 20)) break; }
    return s;
}

RunResult runStep(Vfs& fs, const Step& st, const RunOpts& o) {
    ++g_runsDone;
    (void)!ftruncate(outFd, 0); (void)!ftruncate(errFd, 0);
    lseek(outFd, 0, SEEK_SET); lseek(errFd, 0, SEEK_SET);
    shm->done = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); syscall(SYS_exit_group, 97); }
    if (pid == 0) childMain(fs, st, o);
    int ws = 0;
    while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
    RunResult r;
    r.out = slurpFd(outFd); r.err = slurpFd(errFd);
    if (shm->done) {
        Rd d{shm->data, shm->data + shm->len};
        r.end = (int)d.u64(); r.endText = d.str(); r.heapErr = d.str();
        r.steps = d.u64(); r.switches = d.u64(); r.schedHash = d.u64(); r.simNs = (int64_t)d.u64();
        uint64_t n = d.u64();
        for (uint64_t i = 0; i < n; ++i) { r.tasks.emplace_back(); getTask(d, r.tasks.back()); }
        if (d.u64()) for (uint64_t m = d.u64(); m--;) { std::string p = d.str(); TreeEntry e; uint64_t a = d.u64(); e.type = (NodeType)(a & 255); e.mode = (uint32_t)(a >> 8); e.hash = d.u64(); e.size = d.u64(); e.mtime = (int64_t)d.u64(); r.tree[p] = e; }
        if (d.u64()) { uint64_t l = d.u64(); r.fs = Vfs::deserialise(d.p, l); r.hasFs = true; }
        g_simNsDone += (unsigned long long)r.simNs;
    } else if (WIFSIGNALED(ws)) {
        r.end = WTERMSIG(ws) == SIGALRM ? END_HANG : END_SIGNAL; r.sig = WTERMSIG(ws); r.endText = "signal " + std::to_string(r.sig);
    } else { r.end = END_INTERNAL; r.endText = "child ended with status " + std::to_string(ws) + "\n" + r.err; }
    return r;
}

static std::string dropAddr(const std::string& s) {   // "address 0x..." of a fault differs between shared library loads
    std::string o; size_t i = 0;
    while (i < s.size()) { if (s.compare(i, 2, "0x") == 0) { o += "0x"; i += 2; while (i < s.size() && isxdigit((unsigned char)s[i])) ++i; } else o += s[i++]; }
    return o;
}
uint64_t RunResult::hash() const {
    uint64_t h = mix64((uint64_t)end * 31 + (uint64_t)sig);
    h = hashStr(out, h);
    h = hashStr(end == END_SIGNAL ? dropAddr(err) : err, h);
    h = hashStr(heapErr, h);
    h = mix64(h ^ steps) ^ mix64(switches) ^ mix64(schedHash * 3);
    for (auto& t : tasks) {
        h = mix64(h ^ t.logHash); h = mix64(h ^ (uint64_t)t.exitCode ^ ((uint64_t)t.ops << 20)); h = mix64(h ^ t.allocs ^ (t.steps << 24)); h = hashStr(t.text, h);
        h = mix64(h ^ t.liveBytes); h = mix64(h ^ t.fired.size());
        for (auto& m : t.muts) h = hashStr(m.first.first, h ^ m.second ^ ((uint64_t)m.first.second << 40));
    }
    for (auto& e : tree) { h = hashStr(e.first, h); h = mix64(h ^ e.second.hash ^ ((uint64_t)e.second.mode << 40)); h = mix64(h ^ (uint64_t)e.second.mtime); }
    return h;
}

void applyEdit(Vfs& v, const FsEdit& e) {
    switch (e.kind) {
    case FsEdit::PUT: {
        std::string d = e.data;
        if (d.compare(0, 8, "@corpus:") == 0) { auto it = g_corpus.files.find(d.substr(8)); if (it == g_corpus.files.end()) { fprintf(stderr, "no corpus file %s\n", d.c_str()); abort(); } d = it->second; }
        v.put(e.path, d, e.mode);
        if (e.mtime) v.get(e.path)->mtime = e.mtime;
        break;
    }
    case FsEdit::MKDIR: v.mkdirs(e.path); if (auto n = v.get(e.path)) n->mode = e.mode; break;
    case FsEdit::LINK: v.putLink(e.path, e.data); break;
    case FsEdit::REMOVE: v.remove(e.path); break;
    case FsEdit::CHMOD: if (auto n = v.get(e.path)) n->mode = e.mode; break;
    case FsEdit::MTIME: if (auto n = v.get(e.path)) n->mtime = e.mtime; break;
    case FsEdit::APPEND: if (auto n = v.get(e.path)) n->data += e.data; break;
    case FsEdit::TWEAK: {
        uint64_t seed = strtoull(e.data.c_str(), nullptr, 10); auto sp = e.data.find(' ');
        double prob = sp == std::string::npos ? 1 : atof(e.data.c_str() + sp) / 100;
        std::vector<std::pair<std::string, NodeP>> l; v.walk([&](const std::string& p, const NodeP& n) { if (n->type == NT_FILE) l.push_back({p, n}); }, e.path);
        for (auto& x : l) {
            Rng g(mix64(seed ^ hashStr(x.first)));
            if (!g.chance(prob)) continue;
            auto& d = x.second->data; size_t z = d.size();
            int64_t mt = x.second->mtime;
            switch (g.below(9)) {
            case 0: if (z) d[z - 1] ^= 1; break;
            case 1: case 2: if (z) d[g.below(z)] ^= 2; break;
            case 3: d += "\n"; break;
            case 4: d += d.substr(0, g.below(z + 1)); break;
            case 5: if (z) d.resize(z - 1); break;
            case 6: d.resize(g.below(z + 1)); break;
            case 7: { size_t q = d.find('\n', g.below(z + 1)); if (q != std::string::npos) d.insert(q, 1 + g.below(3), ' '); else if (z) d[0] ^= 4; break; }
            default: if (z > 2) std::reverse(d.begin() + (long)(z / 2), d.end()); break;
            }
            switch (g.below(4)) { case 0: x.second->mtime = mt; break; case 1: x.second->mtime = 4102444800LL * 1000000000LL; break; case 2: x.second->mtime = 1000000000LL; break; default: x.second->mtime = v.now; }
        }
        break;
    }
    case FsEdit::RENAME: if (auto n = v.get(e.path)) { v.remove(e.path); auto k = e.data.find_last_of('/'); v.mkdirs(e.data.substr(0, k)); v.get(e.data.substr(0, k))->ents[e.data.substr(k + 1)] = n; } break;
    }
}

void Corpus::load(const std::string& dir) {
    std::function<void(const std::string&, const std::string&)> rec = [&](const std::string& d, const std::string& rel) {
        DIR* h = opendir(d.c_str());
        if (!h) return;
        std::vector<std::string> names;
        while (auto* e = readdir(h)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
        closedir(h);
        std::sort(names.begin(), names.end());
        for (auto& n : names) {
            std::string p = d + "/" + n, r = rel.empty() ? n : rel + "/" + n;
            struct stat st; if (stat(p.c_str(), &st) != 0) continue;
            if (S_ISDIR(st.st_mode)) rec(p, r);
            else { std::ifstream f(p, std::ios::binary); std::string c((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); files[r] = c; }
        }
    };
    rec(dir, "");
    std::set<std::string> t;
    for (auto& f : files) {
        if (f.first.compare(0, 4, "gen/") == 0 && f.first.find("/Schema") != std::string::npos) t.insert(f.first.substr(0, f.first.find('/', 4)));
        if (f.first.compare(0, 4, "lib/") == 0) libFiles.push_back(f.first);
    }
    tests.assign(t.begin(), t.end());
    std::sort(tests.begin(), tests.end(), [](const std::string& a, const std::string& b) { return atoi(a.c_str() + 8) < atoi(b.c_str() + 8); });
}

// ------------------------------------------------------------------ textual form of a case (replay files)
namespace {
std::string esc(const std::string& s) {
    static const char* hx = "0123456789abcdef"; std::string o;
    for (unsigned char c : s) { if (c > 32 && c < 127 && c != '%') o += (char)c; else { o += '%'; o += hx[c >> 4]; o += hx[c & 15]; } }
    return o.empty() ? "%" : o;
}
std::string unesc(const std::string& s) {
    std::string o; if (s == "%") return o;
    for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '%' && i + 2 < s.size() + 0 && isxdigit((unsigned char)s[i + 1])) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else o += s[i]; }
    return o;
}
}
std::string caseToText(const Case& c) {
    std::ostringstream o;
    o << "case " << esc(c.prop) << " " << esc(c.variant) << " " << esc(c.out) << "\n";
    for (auto& m : c.meta) o << "meta " << esc(m.first) << " " << esc(m.second) << "\n";
    for (auto& s : c.steps) {
        o << "step threaded=" << s.threaded << " powerloss=" << s.powerLoss << " damage=" << s.damage << " note=" << esc(s.note) << "\n";
        for (auto& e : s.edits) o << "edit " << e.kind << " " << esc(e.path) << " " << e.mode << " " << e.mtime << " " << esc(e.data) << "\n";
        for (auto& w : s.tp.switches) o << "switch " << w.at << " " << w.to << "\n";
        for (auto& t : s.tasks) {
            o << "task " << esc(t.app) << "\n";
            for (auto& a : t.args) o << "arg " << esc(a) << "\n";
            const Knobs& k = t.knobs;
            o << "knobs " << k.heapSeed << " " << k.dirSeed << " " << k.inoSeed << " " << k.miscSeed << " " << k.clockBase << " " << k.opCost << " " << k.clockJump << " " << k.dtUnknown << " " << k.junk << " " << k.pid << " " << esc(k.cwd) << "\n";
            for (auto& e : k.env) o << "env " << esc(e) << "\n";
            const Plan& p = t.plan;
            o.precision(17);
            o << "plan " << p.shortSeed << " " << p.shortProb << " " << p.eintrProb << " " << p.shortMax << " " << p.xferReads << " " << p.xferWrites << " " << p.byteQuota << " " << p.inodeQuota << " " << p.fdLimit << " " << p.failAllocAt << " " << p.failAllocSticky << " " << p.failAllocMax
              << " " << p.sinkFrom[0] << " " << p.sinkFrom[1] << " " << p.sinkCount[0] << " " << p.sinkCount[1] << " " << p.sinkErr[0] << " " << p.sinkErr[1] << "\n";
            for (auto& f : p.faults) o << "fault " << f.op << " " << (int)f.act << " " << f.err << " " << f.arg << " " << f.sticky << " " << f.count << "\n";
        }
    }
    o << "end\n";
    return o.str();
}
bool caseFromText(const std::string& s, Case& c) {
    std::istringstream in(s); std::string line; c = Case();
    while (std::getline(in, line)) {
        std::istringstream l(line); std::string w; l >> w;
        auto str = [&] { std::string x; l >> x; return unesc(x); };
        if (w == "case") { c.prop = str(); c.variant = str(); c.out = str(); }
        else if (w == "meta") { std::string k = str(); c.meta[k] = str(); }
        else if (w == "step") { c.steps.emplace_back(); std::string x; while (l >> x) { auto q = x.find('='); std::string k = x.substr(0, q), v = x.substr(q + 1); auto& st = c.steps.back(); if (k == "threaded") st.threaded = v == "1"; else if (k == "powerloss") st.powerLoss = strtoull(v.c_str(), 0, 10); else if (k == "damage") st.damage = strtoull(v.c_str(), 0, 10); else if (k == "note") st.note = unesc(v); } }
        else if (w == "edit") { FsEdit e; l >> e.kind; e.path = str(); l >> e.mode >> e.mtime; e.data = str(); c.steps.back().edits.push_back(e); }
        else if (w == "switch") { SwitchPt p; l >> p.at >> p.to; c.steps.back().tp.switches.push_back(p); }
        else if (w == "task") { c.steps.back().tasks.emplace_back(); c.steps.back().tasks.back().app = str(); }
        else if (w == "arg") c.steps.back().tasks.back().args.push_back(str());
        else if (w == "knobs") { Knobs& k = c.steps.back().tasks.back().knobs; l >> k.heapSeed >> k.dirSeed >> k.inoSeed >> k.miscSeed >> k.clockBase >> k.opCost >> k.clockJump >> k.dtUnknown >> k.junk >> k.pid; k.cwd = str(); }
        else if (w == "env") c.steps.back().tasks.back().knobs.env.push_back(str());
        else if (w == "plan") { Plan& p = c.steps.back().tasks.back().plan; l >> p.shortSeed >> p.shortProb >> p.eintrProb >> p.shortMax >> p.xferReads >> p.xferWrites >> p.byteQuota >> p.inodeQuota >> p.fdLimit >> p.failAllocAt >> p.failAllocSticky >> p.failAllocMax >> p.sinkFrom[0] >> p.sinkFrom[1] >> p.sinkCount[0] >> p.sinkCount[1] >> p.sinkErr[0] >> p.sinkErr[1]; }
        else if (w == "fault") { Fault f; int a; l >> f.op >> a >> f.err >> f.arg >> f.sticky >> f.count; f.act = (FaultAct)a; c.steps.back().tasks.back().plan.faults.push_back(f); }
        else if (w == "end") return true;
    }
    return false;
}

} // namespace sim

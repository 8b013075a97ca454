// Scheduling of simulated threads: real threads, exactly one of which runs at a time; every switch is decided
// by the plan at a counted execution step (basic block of the code under test, file operation, API boundary).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <unwind.h>
#include "world.h"
#include <dlfcn.h>
#include <semaphore.h>
#include <cerrno>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/mman.h>
extern "C" char etext;
extern "C" void* __libc_stack_end;
extern "C" char sim_data_lo[16], sim_data_hi[16], sim_bss_lo[16], sim_bss_hi[16];

namespace sim {
volatile bool g_active = false;
thread_local int t_inSim = 0;
thread_local Proc* t_proc = nullptr;
Vfs* g_vfs = nullptr;
uint64_t g_stepLimit = 1ULL << 62;
unsigned char* g_cov = nullptr; size_t g_covSize = 0; uintptr_t g_textLo = 0, g_textHi = 0;
bool g_threaded = false;
uint64_t g_switchesTaken = 0, g_schedHash = 0;
thread_local int t_noPreempt = 0;

} extern "C" { int64_t sim_left = 1LL << 62; } namespace sim {
static uint64_t g_next = 1ULL << 62;          // next step at which something must be decided; sim_left counts down to it
uint64_t stepsNow() { return g_next - (uint64_t)sim_left; }
static void setNext(uint64_t n) { uint64_t s = stepsNow(); g_next = n; sim_left = (int64_t)(n - s); }
void setStackEnd(uintptr_t);
namespace {
struct Thr { sem_t sem; bool done = false; bool blocked = false; Proc* proc = nullptr; std::function<void()>* body = nullptr; pthread_t h; };
std::vector<Thr*> thr;
int curT = -1;
const ThreadPlan* tplan = nullptr; size_t tpos = 0;
sem_t allDone;

uint64_t charged = 0;             // steps already attributed to a process
void chargeSteps(Proc* p) { if (p) p->steps += stepsNow() - charged; charged = stepsNow(); }
uint64_t hotEvery = 0, hotFrom = 0;
struct Watch { const char* p; size_t n; std::string was; };
std::vector<Watch> watched; std::vector<uint64_t> hot;
void hotSample(int64_t left) {
    bool diff = false;
    for (auto& w : watched) if (memcmp(w.p, w.was.data(), w.n) != 0) { diff = true; memcpy(&w.was[0], w.p, w.n); }
    if (diff && hot.size() < 20000) hot.push_back(g_next - (uint64_t)left - hotFrom);
}
void computeNext() {
    uint64_t n = g_stepLimit;
    if (hotEvery) n = std::min(n, stepsNow() + hotEvery);
    if (tplan && tpos < tplan->switches.size() && tplan->switches[tpos].at < n) n = tplan->switches[tpos].at;
    setNext(n);
}
int firstRunnable(int from) {
    for (size_t k = 0; k < thr.size(); ++k) { int i = (int)((size_t)from + k) % (int)thr.size(); if (!thr[i]->done) return i; }
    return -1;
}
void switchTo(int to) {
    int me = curT;
    if (to == me) return;
    chargeSteps(thr[me]->proc);
    ++g_switchesTaken;
    g_schedHash = mix64(g_schedHash ^ stepsNow() ^ ((uint64_t)to << 56));
    curT = to;
    sem_post(&thr[to]->sem);
    while (sem_wait(&thr[me]->sem) != 0) {}
}
void slow() {
    if (stepsNow() >= g_stepLimit) { InSim g; g_active = false; endRun(END_HANG, 0, "step bound exceeded\n" + stackText()); }
    if (hotEvery) { InSim g; int64_t keep = sim_left; sim_left = 1LL << 40; hotSample(keep); sim_left = keep; }
    if (!g_threaded || !tplan || curT < 0) { computeNext(); return; }
    if (t_noPreempt || t_inSim || !t_proc) { setNext(stepsNow() + 1); return; }
    while (tpos < tplan->switches.size() && tplan->switches[tpos].at <= stepsNow()) {
        int to = tplan->switches[tpos].to; ++tpos;
        computeNext();
        if (to < (int)thr.size() && !thr[to]->done && to != curT) { ++t_inSim; switchTo(to); --t_inSim; return; }
    }
    computeNext();
}
void* threadMain(void* a) {
    Thr* t = (Thr*)a;
    setStackEnd((uintptr_t)__builtin_frame_address(0) + 16);
    while (sem_wait(&t->sem) != 0) {}
    t_proc = t->proc;
    t_inSim = 0;
    (*t->body)();
    t_inSim = 1;
    t->done = true;
    chargeSteps(t->proc);
    int nx = firstRunnable(curT + 1);
    if (nx < 0) sem_post(&allDone);
    else { curT = nx; ++g_switchesTaken; g_schedHash = mix64(g_schedHash ^ stepsNow() ^ ((uint64_t)nx << 48)); sem_post(&thr[nx]->sem); }
    // Park for ever: thread exit would free thread-local memory concurrently with the others.
    sem_t never; sem_init(&never, 0, 0);
    while (true) sem_wait(&never);
    return nullptr;
}
} // namespace

void hotStart(uint64_t every) {
    InSim g;
    watched.clear(); hot.clear();
    auto add = [&](const char* p, size_t n) { watched.push_back({p, n, std::string(p, n)}); };
    add(sim_data_lo, (size_t)(sim_data_hi - sim_data_lo)); add(sim_bss_lo, (size_t)(sim_bss_hi - sim_bss_lo));
    for (auto& b : heapBlocks())     // 4096: buffer of stdout
        if (b.second < 1 << 20 && b.second != 4096) add(b.first, b.second);
    hotFrom = stepsNow(); hotEvery = every; computeNext();
}
std::vector<uint64_t> hotStop() { InSim g; hotEvery = 0; computeNext(); return hot; }
void schedReset() { g_next = g_stepLimit; sim_left = (int64_t)g_next; charged = 0; computeNext(); }
void schedCharge(Proc* p) { chargeSteps(p); }

void schedPoint(uint64_t w) {
    if (!g_active) return;
    sim_left -= (int64_t)w;
    if (sim_left <= 0) { int s = t_inSim; t_inSim = 0; slow(); t_inSim = s; }
}

void schedRun(std::vector<std::function<void()>>& bodies, std::vector<Proc*>& procs, const ThreadPlan& plan) {
    InSim g;
    sem_init(&allDone, 0, 0);
    typedef int (*PC)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    PC pc = (PC)dlsym(RTLD_NEXT, "pthread_create");
    for (size_t i = 0; i < bodies.size(); ++i) { auto* t = new Thr(); sem_init(&t->sem, 0, 0); t->proc = procs[i]; t->body = &bodies[i]; thr.push_back(t); }
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
    for (auto* t : thr) if (pc(&t->h, &at, threadMain, t) != 0) endRun(END_INTERNAL, 0, "pthread_create failed");
    tplan = &plan; tpos = 0; g_threaded = true;
    curT = 0;
    computeNext();
    sem_post(&thr[0]->sem);
    while (sem_wait(&allDone) != 0) {}
    g_threaded = false; curT = -1; tplan = nullptr;
}

static thread_local uintptr_t t_stackEnd = 0;
uintptr_t stackEnd() {
    if (!t_stackEnd) t_stackEnd = (uintptr_t)__libc_stack_end;   // main thread
    return t_stackEnd;
}
void setStackEnd(uintptr_t e) { t_stackEnd = e; }
// Call stack by the unwind tables: the libraries in between (iostreams, filesystem) keep no frame pointers.
namespace { struct UwCtx { uint64_t h = 1; uintptr_t prev = 0; int n = 0; std::vector<uintptr_t>* list = nullptr; }; }
static _Unwind_Reason_Code uwStep(struct _Unwind_Context* c, void* a) {
    auto* u = (UwCtx*)a; uintptr_t ret = _Unwind_GetIP(c);
    if (ret >= g_textLo && ret < g_textHi && ret != u->prev) { u->h = mix64(u->h ^ ret); u->prev = ret; if (u->list) u->list->push_back(ret); }
    return ++u->n > 400 ? _URC_END_OF_STACK : _URC_NO_REASON;
}
uint64_t stackHash(bool) { InSim g; UwCtx u; _Unwind_Backtrace(uwStep, &u); return u.h; }
std::string stackText() {
    uintptr_t fp = (uintptr_t)__builtin_frame_address(0), lo = fp, hi = stackEnd();
    std::string s; char b[512];
    for (int i = 0; i < 60; ++i) {
        if (fp < lo || fp + 16 > hi || (fp & 7)) break;
        uintptr_t ret = ((uintptr_t*)fp)[1], nfp = ((uintptr_t*)fp)[0];
        Dl_info di;
        if (ret >= g_textLo && ret < g_textHi && dladdr((void*)ret, &di) && di.dli_sname) { snprintf(b, sizeof b, "  %s\n", di.dli_sname); s += b; }
        if (nfp <= fp) break;
        fp = nfp;
    }
    return s;
}
} // namespace sim

using namespace sim;
extern "C" {
// Called by the instrumented code under test at every basic block.
void sim_slow(void) { if (g_active && t_proc) sim::slow(); else sim_left = sim_left <= 0 ? 1 << 20 : sim_left; }
// Coverage bytes live at a fixed address (pc / 4 above it), so that the callback is a handful of instructions.
__attribute__((constructor(101))) static void covInit(void) {
    size_t n = ((uintptr_t)&etext >> 2) + 1;
    void* p = mmap((void*)0x60000000, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)0x60000000) { (void)!write(2, "coverage map\n", 13); syscall(SYS_exit_group, 2); }
    g_cov = (unsigned char*)p; g_covSize = n;
}
__asm__(".text\n.globl __sanitizer_cov_trace_pc\n.type __sanitizer_cov_trace_pc,@function\n__sanitizer_cov_trace_pc:\n"
        " movq (%rsp), %rax\n shrq $2, %rax\n cmpb $0, 0x60000000(%rax)\n je 2f\n"
        "1: decq sim_left(%rip)\n jle 3f\n ret\n"
        "2: movb $1, 0x60000000(%rax)\n jmp 1b\n"
        "3: jmp sim_slow\n"
        ".size __sanitizer_cov_trace_pc,.-__sanitizer_cov_trace_pc\n");

// Blocking primitives: a simulated thread never blocks while it holds the token.
typedef int (*MF)(pthread_mutex_t*);
int pthread_mutex_lock(pthread_mutex_t* m) {
    static MF f; if (!f) f = (MF)dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (!g_threaded || !t_proc) return f(m);
    static MF tr; if (!tr) tr = (MF)dlsym(RTLD_NEXT, "pthread_mutex_trylock");
    int spins = 0;
    while (true) {
        int r = tr(m);
        if (r != EBUSY) return r;
        if (++spins > 10000) { InSim g; endRun(END_DEADLOCK, 0, "mutex never released\n" + stackText()); }
        int nx = sim::firstRunnable(sim::curT + 1);
        if (nx == sim::curT) { InSim g; endRun(END_DEADLOCK, 0, "mutex held by nobody runnable\n" + stackText()); }
        ++t_inSim; sim::switchTo(nx); --t_inSim;
    }
}
// A wait on a condition gives the token away and comes back as a wakeup that may be spurious.
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    typedef int (*CF)(pthread_cond_t*, pthread_mutex_t*);
    static CF f; if (!f) f = (CF)dlsym(RTLD_NEXT, "pthread_cond_wait");
    if (!g_threaded || !t_proc) return f(c, m);
    static int waits = 0;
    if (++waits > 1000000) { InSim g; endRun(END_DEADLOCK, 0, "condition never signalled\n" + stackText()); }
    pthread_mutex_unlock(m);
    int nx = sim::firstRunnable(sim::curT + 1);
    if (nx == sim::curT) { InSim g; endRun(END_DEADLOCK, 0, "condition signalled by nobody runnable\n" + stackText()); }
    ++t_inSim; sim::switchTo(nx); --t_inSim;
    return pthread_mutex_lock(m);
}
typedef int (*OF)(pthread_once_t*, void (*)());
int pthread_once(pthread_once_t* o, void (*fn)()) {
    static OF f; if (!f) f = (OF)dlsym(RTLD_NEXT, "pthread_once");
    ++t_noPreempt; int r = f(o, fn); --t_noPreempt; return r;
}
typedef int (*GA)(void*); typedef void (*GR)(void*);
int __cxa_guard_acquire(void* g) { static GA f; if (!f) f = (GA)dlsym(RTLD_NEXT, "__cxa_guard_acquire"); int r = f(g); if (r) ++t_noPreempt; return r; }
void __cxa_guard_release(void* g) { static GR f; if (!f) f = (GR)dlsym(RTLD_NEXT, "__cxa_guard_release"); f(g); --t_noPreempt; }
void __cxa_guard_abort(void* g) { static GR f; if (!f) f = (GR)dlsym(RTLD_NEXT, "__cxa_guard_abort"); f(g); --t_noPreempt; }
typedef int (*PCF)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*s)(void*), void* arg) {
    static PCF f; if (!f) f = (PCF)dlsym(RTLD_NEXT, "pthread_create");
    if (simOn()) { { InSim g; t_proc->escapes.push_back("pthread_create"); } return EAGAIN; }
    return f(t, a, s, arg);
}
pid_t fork(void) {
    typedef pid_t (*FF)(); static FF f; if (!f) f = (FF)dlsym(RTLD_NEXT, "fork");
    if (simOn()) { { InSim g; t_proc->escapes.push_back("fork"); } errno = EAGAIN; return -1; }
    return f();
}
}

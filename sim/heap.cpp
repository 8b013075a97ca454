// The heap of the system under test: seeded placement, junk contents, canaries, quarantine, accounting and
// injected allocation failures. Allocations made by the simulator itself go to the C library.
#include "world.h"
#include <cerrno>
#include <malloc.h>
#include <sys/mman.h>
#include <cstdlib>

extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
}

namespace sim {
namespace {
const uintptr_t ArenaBase = 0x300000000000ULL;
const size_t RegionSize = 512ULL << 20;
const int Regions = 8;
const uintptr_t ArenaEnd = ArenaBase + RegionSize * Regions;
const uint64_t LiveMagic = 0xA110C8ED5AFE0001ULL, FreeMagic = 0xF4EEDF4EEDF40002ULL;
const uint64_t Canary = 0xC0DEC0FFEEBADA55ULL;

struct Hdr { uint64_t magic; uint32_t cls; uint32_t off; uint64_t size; uint64_t serial; Hdr *next, *prev; uint64_t site; uint64_t canary; };
static_assert(sizeof(Hdr) == 64, "");
const int NCls = 96;

volatile int heapOn = 0;
volatile int heapLock = 0;
uint64_t hseed = 1; bool hjunk = true;
Rng* hr; alignas(Rng) char hrBuf[sizeof(Rng)];
uintptr_t bump[Regions];
Hdr* freeList[NCls][Regions];
Hdr* quarHead; Hdr* quarTail; size_t quarCount;
Hdr live;   // circular list of live blocks
HeapStats hs; uint64_t serialNo;
bool mapped = false;
char heapErr[512]; bool heapErrSet = false;

struct Lock { Lock() { while (__sync_lock_test_and_set(&heapLock, 1)) {} } ~Lock() { __sync_lock_release(&heapLock); } };

void setErr(const char* what, Hdr* h) {
    if (heapErrSet) return;
    heapErrSet = true;
    snprintf(heapErr, sizeof heapErr, "%s (block of %llu bytes, allocation #%llu)", what, (unsigned long long)h->size, (unsigned long long)h->serial);
}
size_t clsSize(int c) { return c < 64 ? (size_t)(c + 1) * 16 : (size_t)1024 << (c - 63); }
int clsOf(size_t n) { if (n <= 1024) return n == 0 ? 0 : (int)((n - 1) / 16); int c = 64; while (clsSize(c) < n) ++c; return c; }
inline bool inArena(const void* p) { auto a = (uintptr_t)p; return a >= ArenaBase && a < ArenaEnd; }

void* place(size_t n, size_t align) {
    size_t need = n + 8 + (align > 16 ? align : 0);
    int c = clsOf(need);
    if (clsSize(c) > RegionSize / 4) return nullptr;
    uint64_t rnd = hr->next();
    int r = (int)(rnd % Regions);
    Hdr* h = nullptr;
    if ((rnd >> 8) % 4 != 0) {
        for (int k = 0; k < Regions && !h; ++k) { int q = (r + k) % Regions; if (freeList[c][q]) { h = freeList[c][q]; freeList[c][q] = h->next; } }
        if (h) {   // a recycled block must still carry the poison
            auto* b = (unsigned char*)(h + 1);
            size_t lim = clsSize(c) < 256 ? clsSize(c) : 256;
            if (h->magic != FreeMagic) setErr("header of a freed block overwritten", h);
            for (size_t i = 0; i < lim; ++i) if (b[i] != 0xDD) { setErr("write to freed memory", h); break; }
        }
    }
    if (!h) {
        size_t total = sizeof(Hdr) + clsSize(c) + 16;
        total = (total + 15) & ~(size_t)15;
        if (c < 80) total += ((rnd >> 16) % 8) * 16;      // random gaps
        if (bump[r] + total > ArenaBase + RegionSize * (r + 1)) { bool ok = false; for (int k = 0; k < Regions; ++k) { r = (r + 1) % Regions; if (bump[r] + total <= ArenaBase + RegionSize * (r + 1)) { ok = true; break; } } if (!ok) return nullptr; }
        h = (Hdr*)bump[r]; bump[r] += total;
    }
    auto* p = (char*)(h + 1);
    size_t off = 0;
    if (align > 16) { uintptr_t a = ((uintptr_t)p + align - 1) & ~(uintptr_t)(align - 1); off = a - (uintptr_t)p; }
    h->magic = LiveMagic; h->cls = (uint32_t)c; h->off = (uint32_t)off; h->size = n; h->serial = ++serialNo; h->canary = Canary ^ (uintptr_t)h; h->site = 0;
    h->next = &live; h->prev = live.prev; live.prev->next = h; live.prev = h;
    if (off) { ((uint64_t*)(p + off))[-1] = LiveMagic ^ 0x55; ((uint64_t*)(p + off))[-2] = (uint64_t)(uintptr_t)h; }
    else h->site = 0;
    p += off;
    if (hjunk) { unsigned char v = (unsigned char)(mix64(hseed ^ serialNo) | 1); memset(p, v, n); }
    uint64_t can = Canary ^ (uintptr_t)p; memcpy(p + n, &can, 8);
    ++hs.liveBlocks; hs.liveBytes += n; ++hs.totalAllocs; if (hs.liveBytes > hs.peakBytes) hs.peakBytes = hs.liveBytes;
    return p;
}
Hdr* hdrOf(void* p) {
    Hdr* h = (Hdr*)p - 1;
    if (h->magic == LiveMagic && h->off == 0) return h;
    if (((uint64_t*)p)[-1] == (LiveMagic ^ 0x55)) { Hdr* g = (Hdr*)(uintptr_t)((uint64_t*)p)[-2]; if (inArena(g) && g->magic == LiveMagic) return g; }
    return h;
}
bool checkBlock(Hdr* h) {
    if (h->canary != (Canary ^ (uintptr_t)h)) { setErr("memory before a block overwritten", h); return false; }
    char* p = (char*)(h + 1) + h->off; uint64_t can; memcpy(&can, p + h->size, 8);
    if (can != (Canary ^ (uintptr_t)p)) { setErr("memory after the end of a block overwritten", h); return false; }
    return true;
}
void recycle(Hdr* h) { int q = (int)(((uintptr_t)h - ArenaBase) / RegionSize); h->next = freeList[h->cls][q]; freeList[h->cls][q] = h; }
void release(void* p) {
    Hdr* h = hdrOf(p);
    if (h->magic != LiveMagic) { setErr(h->magic == FreeMagic ? "double free" : "free of a pointer that was not allocated", h); return; }
    checkBlock(h);
    h->prev->next = h->next; h->next->prev = h->prev;
    --hs.liveBlocks; hs.liveBytes -= h->size;
    h->magic = FreeMagic;
    size_t lim = clsSize(h->cls);
    if (lim > 65536) lim = 65536;
    memset((char*)(h + 1), 0xDD, lim);
    h->next = nullptr;
    if (quarTail) quarTail->next = h; else quarHead = h;
    quarTail = h;
    if (++quarCount > 256) { Hdr* o = quarHead; quarHead = o->next; if (!quarHead) quarTail = nullptr; --quarCount; recycle(o); }
}
thread_local int t_inNew = 0;
bool allocFails() {
    Proc* p = t_proc;
    if (p->failC && !t_inNew) { if (p->failC == 1) { ++p->allocsFailed; if (!p->failCSticky) p->failC = 0; return true; } --p->failC; }
    uint64_t n = ++p->allocs;
    const Plan& pl = *p->plan;
    if (!pl.failAllocAt || n < pl.failAllocAt) return false;
    if (n > pl.failAllocAt && !pl.failAllocSticky) return false;
    if (pl.failAllocMax && p->allocsFailed >= pl.failAllocMax) return false;
    ++p->allocsFailed;
    return true;
}
inline bool mine() { return heapOn && t_inSim == 0 && t_proc != nullptr && g_active; }
} // namespace

void heapStart(uint64_t seed, bool junk) {
    if (!mapped) {
        void* m = mmap((void*)ArenaBase, ArenaEnd - ArenaBase, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (m != (void*)ArenaBase) { perror("arena"); abort(); }
        mapped = true;
    }
    hseed = mix64(seed); hjunk = junk;
    hr = new (hrBuf) Rng(seed);
    for (int i = 0; i < Regions; ++i) bump[i] = ArenaBase + RegionSize * i + 64 + (hr->next() % 4096) * 16;
    live.next = live.prev = &live;
    memset(&hs, 0, sizeof hs);
    heapOn = 1;
}
void heapStop() { heapOn = 0; }
HeapStats heapStats() { return hs; }
uint64_t heapSerial() { return serialNo; }
std::string heapCheckAll() {
    InSim g;
    if (mapped) for (Hdr* h = live.next; h != &live; h = h->next) { if (h->magic != LiveMagic) { if (!heapErrSet) { heapErrSet = true; snprintf(heapErr, sizeof heapErr, "block header overwritten"); } break; } if (!checkBlock(h)) break; }
    for (Hdr* h = quarHead; h && !heapErrSet; h = h->next) { auto* b = (unsigned char*)(h + 1); size_t lim = clsSize(h->cls) < 256 ? clsSize(h->cls) : 256; for (size_t i = 0; i < lim; ++i) if (b[i] != 0xDD) { setErr("write to freed memory", h); break; } }
    return heapErrSet ? heapErr : "";
}
std::vector<std::pair<const char*, size_t>> heapBlocks() {
    InSim g;
    std::vector<std::pair<const char*, size_t>> r;
    for (Hdr* h = live.next; h != &live; h = h->next) r.push_back({(const char*)(h + 1) + h->off, h->size});
    return r;
}
std::string heapLeaks(uint64_t since, size_t max, uint64_t* blocks, uint64_t* bytes) {
    InSim g;
    std::string r; *blocks = *bytes = 0;
    for (Hdr* h = live.next; h != &live; h = h->next)
        if (h->serial > since) {
            ++*blocks; *bytes += h->size;
            if (*blocks <= max) { char b[128]; snprintf(b, sizeof b, "#%llu %llu bytes \"", (unsigned long long)h->serial, (unsigned long long)h->size); r += b; const char* p = (const char*)(h + 1) + h->off; for (size_t i = 0; i < h->size && i < 24; ++i) r += p[i] >= 32 && p[i] < 127 ? p[i] : '.'; r += "\"; "; }
        }
    return r;
}
} // namespace sim

using namespace sim;
extern "C" {
}
// C++ allocations are told apart from those of the C libraries (libxml2).
void* operator new(size_t n) {
    ++sim::t_inNew; void* p = malloc(n ? n : 1); --sim::t_inNew;
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
extern "C" {
void* malloc(size_t n) {
    if (!mine()) return __libc_malloc(n);
    if (allocFails()) { errno = ENOMEM; return nullptr; }
    Lock l; void* p = place(n, 16); if (!p) errno = ENOMEM; return p;
}
void free(void* p) {
    if (!p) return;
    if (inArena(p)) { Lock l; release(p); return; }
    __libc_free(p);
}
void* calloc(size_t a, size_t b) {
    if (!mine()) return __libc_calloc(a, b);
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    if (allocFails()) { errno = ENOMEM; return nullptr; }
    Lock l; void* p = place(n, 16); if (p) memset(p, 0, n); else errno = ENOMEM; return p;
}
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (!inArena(p)) return __libc_realloc(p, n);
    if (n == 0) { free(p); return nullptr; }
    size_t old; { Lock l; Hdr* h = hdrOf(p); if (h->magic != LiveMagic) { setErr("realloc of an invalid pointer", h); errno = ENOMEM; return nullptr; } old = h->size; }
    void* q;
    if (mine()) q = malloc(n);
    else { Lock l; q = place(n, 16); }
    if (!q) return nullptr;
    memcpy(q, p, old < n ? old : n);
    free(p);
    return q;
}
void* reallocarray(void* p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return realloc(p, n); }
void* memalign(size_t al, size_t n) {
    if (!mine()) return __libc_memalign(al, n);
    if (allocFails()) { errno = ENOMEM; return nullptr; }
    Lock l; void* p = place(n, al < 16 ? 16 : al); if (!p) errno = ENOMEM; return p;
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** o, size_t al, size_t n) { void* p = memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }
size_t malloc_usable_size(void* p) { if (inArena(p)) { Lock l; return hdrOf(p)->size; } return p ? *((size_t*)p - 1) & ~(size_t)7 : 0; }
}

// Executing cases, fault-free references, comparison of output trees.
#include "prop.h"
#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <list>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {
static Stats g_defaultStats;
Stats* g_st = &g_defaultStats;

// ------------------------------------------------------------------ statistics
void Stats::merge(const Stats& o) { for (auto& x : o.c) { if (x.first.compare(0, 4, "max:") == 0) c[x.first] = std::max(c[x.first], x.second); else c[x.first] += x.second; } execs.insert(o.execs.begin(), o.execs.end()); nontrivial.insert(o.nontrivial.begin(), o.nontrivial.end()); scheds.insert(o.scheds.begin(), o.scheds.end()); }
void Stats::save(std::string& o) const {
    auto p64 = [&](uint64_t v) { o.append((const char*)&v, 8); };
    p64(c.size()); for (auto& x : c) { p64(x.first.size()); o += x.first; p64(x.second); }
    for (auto* s : {&execs, &nontrivial, &scheds}) { p64(s->size()); for (auto h : *s) p64(h); }
}
void Stats::load(const char*& p, const char* e) {
    auto u64 = [&]() -> uint64_t { if (e - p < 8) abort(); uint64_t v; memcpy(&v, p, 8); p += 8; return v; };
    for (uint64_t n = u64(); n--;) { uint64_t l = u64(); std::string k(p, l); p += l; c[k] = u64(); }
    for (auto* s : {&execs, &nontrivial, &scheds}) for (uint64_t n = u64(); n--;) s->insert(u64());
}

double nowSec() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ executing
static const char* const actNames[] = {"", "error", "short", "crash", "crash-mid-write", "partial-then-error"};
RunResult exec(Vfs& fs, const Step& st, bool wantFs, bool trace, bool trail) {
    for (auto& e : st.edits) applyEdit(fs, e);
    if (!st.edits.empty()) fs.syncAll();
    RunOpts o; o.wantFs = wantFs; o.trace = trace; o.trail = trail;
    RunResult r = runStep(fs, st, o);
    auto& s = *g_st;
    s.add("runs"); s.add("simulated_ns", (uint64_t)r.simNs); s.add("steps", r.steps);
    uint64_t h = r.schedHash; bool inj = false;
    for (auto& t : r.tasks) {
        h = mix64(h ^ t.logHash ^ t.allocsFailed * 31 ^ t.sinkFails * 37); s.add("operations", t.ops);
        for (auto& f : t.fired) { inj = true; s.add(std::string("fault:") + opNames[f.kind] + ":" + actNames[f.act] + (f.err ? std::string(":") + strerrorname_np(f.err) : "")); }
        if (t.transfers) { inj = true; s.add("fault:short-or-interrupted-transfer", t.transfers); }
        if (t.allocsFailed) { inj = true; s.add("fault:allocation-failure", t.allocsFailed); }
        if (t.sinkFails) { inj = true; s.add("fault:diagnostic-stream-write-error", t.sinkFails); }
    }
    if (r.switches) { s.add("context-switches", r.switches); s.scheds.insert(r.schedHash); inj = true; }
    if (wantFs && r.hasFs) fs = std::move(r.fs);
    if (st.powerLoss && wantFs && (r.end == END_CRASH || r.end == END_EXIT)) { fs.powerLoss(st.powerLoss, nullptr); s.add("fault:power-loss"); inj = true; h = mix64(h ^ st.powerLoss); }
    s.execs.insert(h);
    if (inj) s.nontrivial.insert(h);
    return r;
}

TreeMap below(const TreeMap& t, const std::string& top) {
    TreeMap r; std::string pre = top + "/";
    for (auto it = t.lower_bound(pre); it != t.end() && it->first.compare(0, pre.size(), pre) == 0; ++it) r[it->first.substr(pre.size())] = it->second;
    return r;
}

static uint64_t refKey(const Task& t, const std::vector<FsEdit>& in, const std::string& out) {
    uint64_t h = hashStr(t.app + "|" + out + "|" + t.knobs.cwd);
    for (auto& a : t.args) h = hashStr(a, h ^ 1);
    for (auto& e : in) { h = hashStr(e.path, h ^ (uint64_t)e.kind); h = hashStr(e.data, h ^ e.mode); h = mix64(h ^ (uint64_t)e.mtime); }
    return h;
}
std::shared_ptr<Ref> reference(const Task& t0, const std::vector<FsEdit>& inputs, const std::string& out) {
    static std::list<std::pair<uint64_t, std::shared_ptr<Ref>>> cache;
    std::vector<FsEdit> in;
    for (auto& e : inputs) if (e.path != out && e.path.compare(0, out.size() + 1, out + "/") != 0) in.push_back(e);
    Task t; t.app = t0.app; t.args = t0.args; t.knobs.cwd = t0.knobs.cwd;
    uint64_t k = refKey(t, in, out);
    for (auto it = cache.begin(); it != cache.end(); ++it) if (it->first == k) { auto r = it->second; cache.splice(cache.begin(), cache, it); return r; }
    Vfs fs = worldBase();
    Step st; st.edits = in; st.tasks.push_back(t);
    auto r = std::make_shared<Ref>();
    for (auto& e : st.edits) applyEdit(fs, e);
    RunOpts o; r->rr = runStep(fs, st, RunOpts());
    g_st->add("reference_runs");
    r->out = below(r->rr.tree, out);
    r->ok = r->rr.ok();
    cache.emplace_front(k, r);
    if (cache.size() > 48) cache.pop_back();
    return r;
}

std::string overlayDiff(const TreeMap& ref, const TreeMap& now, const TreeMap& pre, bool strict) {
    for (auto& e : ref) {
        auto n = now.find(e.first);
        if (n == now.end()) return "missing " + e.first;
        if (n->second.type != e.second.type) return "wrong type " + e.first;
        if (e.second.type == NT_FILE && (n->second.hash != e.second.hash || n->second.size != e.second.size))
            return "wrong content " + e.first + " (" + std::to_string(n->second.size) + " bytes, expected " + std::to_string(e.second.size) + ")";
    }
    if (strict) {
        for (auto& e : now) {
            if (ref.count(e.first)) continue;
            auto p = pre.find(e.first);
            if (p == pre.end()) return "unexpected " + e.first;
            if (p->second.type != e.second.type || (e.second.type != NT_DIR && (p->second.hash != e.second.hash || p->second.size != e.second.size))) return "altered foreign file " + e.first;
            if (p->second.type != NT_DIR && p->second.mode != e.second.mode) return "altered mode of foreign file " + e.first;
        }
        for (auto& p : pre) if (!now.count(p.first)) return "removed " + p.first;
    }
    return "";
}

// Class of a difference: what happened and to which kind of file (used to group violations, not to judge).
std::string diffClass(const std::string& d) {
    static const char* const heads[] = {"missing ", "wrong type ", "wrong content ", "unexpected ", "altered foreign file ", "altered mode of foreign file ", "removed "};
    for (auto* h : heads) {
        size_t n = strlen(h);
        if (d.compare(0, n, h) != 0) continue;
        std::string p = d.substr(n, d.find(' ', n) - n), top = p.substr(0, p.find('/')), base = p.substr(p.find_last_of('/') + 1);
        if (top == p) { std::string b; for (char c : base) if (!isdigit((unsigned char)c)) b += c; return h + b; }
        size_t e = base.find('.');
        return h + top + "/*" + (e == std::string::npos ? "" : base.substr(e));
    }
    return d;
}
bool badEnd(const RunResult& r) { return r.end != END_EXIT && r.end != END_CRASH; }
std::string crashSite(const RunResult& r) {
    // first function of the program itself on the stack of the crash / hang
    std::string t = r.end == END_SIGNAL ? r.err : r.endText;
    size_t p = r.end == END_SIGNAL ? t.rfind("[sim] signal") : 0;
    if (p == std::string::npos) return "?";
    std::string best;
    while (p < t.size()) {
        size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size();
        std::string l = t.substr(p, e - p); p = e + 1;
        size_t k = l.find("commsdsl");
        if (k != std::string::npos) { size_t b = l.find_first_not_of(" "); return l.substr(b, 120); }
    }
    return "?";
}
std::string endSig(const RunResult& r) {
    switch (r.end) {
    case END_EXIT: return "exit";
    case END_SIGNAL: return "signal " + std::to_string(r.sig) + " in " + crashSite(r);
    case END_HANG: return "hang in " + crashSite(r);
    case END_HEAP: { auto k = r.heapErr.find(" ("); return "heap: " + r.heapErr.substr(0, k); }
    case END_DEADLOCK: return "deadlock";
    default: return "end " + std::to_string(r.end);
    }
}
std::string describeEnd(const RunResult& r) {
    std::string e = r.err.size() > 600 ? "..." + r.err.substr(r.err.size() - 600) : r.err;
    for (auto& c : e) if (c == '\n') c = '|';
    std::string as; size_t ap = r.err.find(": Assertion `"); if (ap != std::string::npos) { size_t b = r.err.rfind('\n', ap); b = b == std::string::npos ? 0 : b + 1; size_t q = r.err.find('\n', ap); as = r.err.substr(b, std::min(q == std::string::npos ? r.err.size() : q, ap + 200) - b); size_t f = as.find(": ", 10); (void)f; std::string file = as.substr(0, as.find(": ", as.find(".cpp:"))); as = file.substr(file.find_last_of('/') + 1) + as.substr(as.find(": Assertion")); }
    return endSig(r) + " code " + std::to_string(r.code()) + (r.heapErr.empty() ? "" : " " + r.heapErr) + (as.empty() ? "" : " [" + as + "]") + " stderr: " + e;
}
bool hasErrorMessage(const std::string& err) {
    std::string low = err; for (auto& c : low) c = (char)tolower((unsigned char)c);
    size_t p = 0;
    while (p < low.size()) {
        size_t e = low.find('\n', p); if (e == std::string::npos) e = low.size();
        std::string l = low.substr(p, e - p); p = e + 1;
        if (l.find("[warning]") != std::string::npos) continue;
        if (l.find("error") != std::string::npos || l.find("exception") != std::string::npos || l.find("fail") != std::string::npos) return true;
    }
    return false;
}
int errnoFor(OpKind k, Rng& g) {
    static const std::vector<int> w = {ENOSPC, EIO, EDQUOT, EFBIG}, ow = {EACCES, ENOSPC, EMFILE, EROFS, EIO, EDQUOT, ENFILE}, md = {EACCES, ENOSPC, EROFS, EIO, EMLINK, EDQUOT}, orr = {EACCES, EIO, EMFILE, ENFILE, ENOMEM}, rd = {EIO}, st = {EIO, EACCES, ENOMEM}, od = {EACCES, EMFILE, EIO}, cp = {EIO, ENOSPC, EDQUOT}, other = {EIO, EPERM, EACCES, ENOSPC};
    switch (k) {
    case OP_WRITE: return g.pick(w); case OP_OPEN_W: return g.pick(ow); case OP_MKDIR: return g.pick(md); case OP_OPEN_R: return g.pick(orr); case OP_READ: case OP_READDIR: return g.pick(rd);
    case OP_STAT: return g.pick(st); case OP_OPENDIR: return g.pick(od); case OP_COPY: return g.pick(cp); default: return g.pick(other);
    }
}

// ------------------------------------------------------------------ traces
Trace traceOne(const Scenario& s) {
    Vfs fs = worldBase();
    Step st; st.edits = s.inputs; st.tasks.push_back(s.task());
    RunResult r = exec(fs, st, false, true);
    Trace t; t.end = r.end; t.code = r.code(); t.ok = r.ok();
    if (r.tasks.empty()) { t.text = describeEnd(r); return t; }
    auto& k = r.tasks[0];
    t.ops = k.ops; t.steps = k.steps; t.allocs = k.allocs;
    for (auto& o : k.opRecs) t.t.push_back({o.n, o.kind, o.exists, o.wr, o.len, o.stack, k.paths[o.pathIdx]});
    t.probed.assign(k.probed.begin(), k.probed.end()); t.readOk.assign(k.readOk.begin(), k.readOk.end());
    for (auto& e : below(r.tree, s.out)) { ++t.outNodes; t.outBytes += e.second.size; }
    for (char c : r.out) t.sinkLines[0] += c == '\n';
    for (char c : r.err) t.sinkLines[1] += c == '\n';
    if (!t.ok) t.text = describeEnd(r);
    return t;
}
std::vector<Trace> traceAll(const std::vector<Scenario>& s) {
    std::vector<Trace> r(s.size());
    auto ps = [](std::string& o, const std::string& x) { uint64_t n = x.size(); o.append((const char*)&n, 8); o += x; };
    parallelFor(s.size(), [&](size_t i, std::string& b) {
        Trace t = traceOne(s[i]);
        uint64_t hdr[] = {t.ok, (uint64_t)t.end, (uint64_t)(int64_t)t.code, t.ops, t.steps, t.allocs, t.outBytes, t.outNodes, t.sinkLines[0], t.sinkLines[1], t.t.size(), t.probed.size(), t.readOk.size()};
        b.append((const char*)hdr, sizeof hdr);
        for (auto& x : t.t) { uint64_t v[] = {x.n, (uint64_t)x.kind | (uint64_t)x.exists << 8 | (uint64_t)x.wr << 16, x.len, x.site}; b.append((const char*)v, sizeof v); ps(b, x.path); }
        for (auto& x : t.probed) ps(b, x);
        for (auto& x : t.readOk) ps(b, x);
        ps(b, t.text);
    }, [&](size_t i, const std::string& b) {
        const char* p = b.data(); uint64_t hdr[13]; memcpy(hdr, p, sizeof hdr); p += sizeof hdr;
        auto gs = [&]() { uint64_t n; memcpy(&n, p, 8); p += 8; std::string x(p, n); p += n; return x; };
        Trace& t = r[i];
        t.ok = hdr[0]; t.end = (int)hdr[1]; t.code = (int)(int64_t)hdr[2]; t.ops = (uint32_t)hdr[3]; t.steps = hdr[4]; t.allocs = hdr[5]; t.outBytes = hdr[6]; t.outNodes = (uint32_t)hdr[7]; t.sinkLines[0] = (uint32_t)hdr[8]; t.sinkLines[1] = (uint32_t)hdr[9];
        for (uint64_t k = 0; k < hdr[10]; ++k) { uint64_t v[4]; memcpy(v, p, sizeof v); p += sizeof v; TraceOp o; o.n = (uint32_t)v[0]; o.kind = (OpKind)(v[1] & 255); o.exists = v[1] >> 8 & 1; o.wr = v[1] >> 16 & 1; o.len = (uint32_t)v[2]; o.site = v[3]; o.path = gs(); t.t.push_back(o); }
        for (uint64_t k = 0; k < hdr[11]; ++k) t.probed.push_back(gs());
        for (uint64_t k = 0; k < hdr[12]; ++k) t.readOk.push_back(gs());
        t.text = gs();
    });
    return r;
}
std::vector<Pick> pickOps(const std::vector<Trace>& tr, const std::function<bool(const TraceOp&)>& want, int perSite, size_t extra, Rng& g, size_t* sites, size_t cap) {
    std::map<std::pair<uint64_t, int>, std::vector<std::pair<uint32_t, uint32_t>>> m;
    std::vector<std::pair<uint32_t, uint32_t>> all;
    for (uint32_t s = 0; s < tr.size(); ++s) {
        if (!tr[s].ok) continue;
        std::set<std::pair<uint64_t, int>> seen;
        for (uint32_t i = 0; i < tr[s].t.size(); ++i) {
            auto& o = tr[s].t[i];
            if (!want(o)) continue;
            all.push_back({s, i});
            auto& l = m[{o.site, (int)o.kind}];
            if (l.size() < 40) l.push_back({s, i});
        }
    }
    std::vector<Pick> r; std::set<std::pair<uint32_t, uint32_t>> used;
    for (auto& x : m) {
        auto l = x.second;
        for (int k = 0; k < perSite && !l.empty(); ++k) { size_t i = g.below(l.size()); for (int q = 0; q < 3; ++q) { size_t j = g.below(l.size()); if (tr[l[j].first].steps < tr[l[i].first].steps) i = j; } if (used.insert(l[i]).second) r.push_back({l[i].first, tr[l[i].first].t[l[i].second], k == 0}); l.erase(l.begin() + (long)i); }
    }
    for (size_t k = 0; k < extra && !all.empty(); ++k) { auto i = g.pick(all), j = g.pick(all); if (tr[j.first].steps < tr[i.first].steps) i = j; if (used.insert(i).second) r.push_back({i.first, tr[i.first].t[i.second], false}); }
    if (sites) *sites = m.size();
    if (cap && r.size() > cap) {
        g.shuffle(r);
        std::stable_partition(r.begin(), r.end(), [](const Pick& p) { return p.op.kind == OP_OPEN_W || p.op.kind == OP_WRITE || p.op.kind == OP_MKDIR || p.op.kind == OP_COPY; });
        r.resize(cap);
    }
    std::sort(r.begin(), r.end(), [](const Pick& a, const Pick& b) { return a.scen != b.scen ? a.scen < b.scen : a.op.n < b.op.n; });
    return r;
}

// ------------------------------------------------------------------ parallel execution
static int workers() { const char* e = getenv("SIM_WORKERS"); int n = e ? atoi(e) : (int)sysconf(_SC_NPROCESSORS_ONLN); return n < 1 ? 1 : n > 16 ? 16 : n; }
void parallelFor(size_t n, const std::function<void(size_t, std::string&)>& work, const std::function<void(size_t, const std::string&)>& merge, double deadline) {
    if (!n) return;
    int W = workers(); if ((size_t)W > n) W = (int)n;
    struct Sh { volatile uint64_t next; }; auto* sh = (Sh*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->next = 0;
    std::vector<int> fds; std::vector<pid_t> pids;
    fflush(stdout); fflush(stderr);
    for (int w = 0; w < W; ++w) {
        int fd = memfd_create("res", 0); fds.push_back(fd);
        pid_t p = fork();
        if (p < 0) { perror("fork"); exit(2); }
        if (p == 0) {
            runnerInit();
            Stats mine; g_st = &mine;
            std::string buf;
            auto flush = [&] { const char* q = buf.data(); size_t m = buf.size(); while (m) { ssize_t k = ::write(fd, q, m); if (k <= 0) { perror("result"); _exit(3); } q += k; m -= (size_t)k; } buf.clear(); };
            while (true) {
                uint64_t i = __sync_fetch_and_add(&sh->next, 1);
                if (i >= n || (deadline > 0 && nowSec() > deadline)) break;
                std::string b; work(i, b);
                uint64_t h[2] = {i, b.size()}; buf.append((const char*)h, sizeof h); buf += b;
                if (buf.size() > (4u << 20)) flush();
            }
            std::string s; mine.save(s);
            uint64_t h[2] = {~0ULL, s.size()}; buf.append((const char*)h, sizeof h); buf += s;
            flush();
            _exit(0);
        }
        pids.push_back(p);
    }
    bool bad = false;
    for (auto p : pids) { int ws; while (waitpid(p, &ws, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(ws) || WEXITSTATUS(ws)) { fprintf(stderr, "worker ended with status %x\n", ws); bad = true; } }
    if (bad) exit(2);
    std::map<uint64_t, std::string> all;
    for (int fd : fds) {
        std::string s; lseek(fd, 0, SEEK_SET); char b[1 << 16]; ssize_t k; while ((k = ::read(fd, b, sizeof b)) > 0) s.append(b, (size_t)k);
        close(fd);
        const char *p = s.data(), *e = p + s.size();
        while (p < e) { uint64_t h[2]; memcpy(h, p, 16); p += 16; if (h[0] == ~0ULL) { Stats t; const char* q = p; t.load(q, p + h[1]); g_st->merge(t); } else all[h[0]] = std::string(p, h[1]); p += h[1]; }
    }
    munmap(sh, 4096);
    for (auto& x : all) merge((size_t)x.first, x.second);
}

} // namespace sim

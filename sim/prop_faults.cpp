// C01-C04, C08, C09, C14, C16, C18: one generator process under storage, memory and stream faults.
#include "prop.h"
#include <algorithm>
#include <cerrno>

namespace sim {

std::vector<Scenario> buildScenarios(const std::vector<std::function<Scenario()>>& f) {
    std::vector<Scenario> r(f.size());
    parallelFor(f.size(), [&](size_t i, std::string& b) {
        Scenario s = f[i]();
        Case c = caseOf("", s); c.meta = {{"app", s.app}, {"test", s.test}, {"name", s.name}, {"code", s.codeDir}, {"ns", s.nsOverride ? "1" : "0"}, {"outArg", s.outArg}};
        b = caseToText(c);
    }, [&](size_t i, const std::string& b) {
        Case c; caseFromText(b, c);
        Scenario& s = r[i]; s.app = c.meta["app"]; s.test = c.meta["test"]; s.name = c.meta["name"]; s.codeDir = c.meta["code"]; s.nsOverride = c.meta["ns"] == "1"; s.outArg = c.meta["outArg"]; s.out = c.out;
        s.inputs = c.steps[0].edits; s.args = c.steps[0].tasks[0].args;
    });
    return r;
}

// Scenarios used by the fault properties: repository tests, option variants, custom code, populated output directories.
std::vector<Scenario> faultScenarios(PlanCtx& cx, int variants, double fragProb, double staleProb) {
    std::vector<std::function<Scenario()>> f;
    for (auto* a = appNames(); *a; ++a)
        for (auto& t : g_corpus.tests) {
            if (scenarioDisabled(*a, t)) continue;
            std::string app = *a, test = t;
            for (int v = 0; v < variants; ++v) {
                uint64_t var = v == 0 ? 0 : 1 + subSeed(cx.seed, hashStr(app), hashStr(test), (uint64_t)v) % 1000000;
                uint64_t seed = subSeed(cx.seed, var + 7, hashStr(app + test));
                f.push_back([=] {
                    Scenario s = makeScenario(app, test, var);
                    Rng g(seed);
                    if (v > 0 && g.chance(fragProb)) { addFragments(s, g, g.chance(0.3) ? 0.9 : 0.25, true); s.name += "+frag"; }
                    if (v > 0 && g.chance(fragProb)) { addExtraFiles(s, g, 1 + (int)g.below(5)); s.name += "+extra"; }
                    if (v > 0 && g.chance(staleProb)) { addStale(s, g, g.chance(0.5) ? 1.0 : 0.4); s.name += "+stale"; }
                    return s;
                });
            }
        }
    return buildScenarios(f);
}

void dropRejected(std::vector<Scenario>& s, std::vector<Trace>& t, PlanCtx& cx) {
    size_t k = 0, n = s.size();
    for (size_t i = 0; i < n; ++i) if (t[i].ok) { if (k != i) { s[k] = std::move(s[i]); t[k] = std::move(t[i]); } ++k; } else if (cx.notes.size() < 20) cx.notes.push_back("scenario not used: " + s[i].name + ": " + t[i].text.substr(0, 300));
    s.resize(k); t.resize(k);
}

Verdict precheck(const Case& c, const RunResult& r) {
    (void)c;
    if (r.end == END_INTERNAL) return Verdict::fail("internal", r.endText);
    return Verdict::ok();
}

static const Task& task0(const Case& c) { return c.steps[0].tasks[0]; }
static std::string app(const Case& c) { return task0(c).app; }

// ------------------------------------------------------------------ storage fault cases
static Fault errFault(uint32_t op, int err, uint32_t sticky = 0, uint32_t count = 0) { Fault f; f.op = op; f.act = FA_ERR; f.err = err; f.sticky = sticky; f.count = count; return f; }
static const uint32_t WriteSide = (1u << OP_OPEN_W) | (1u << OP_WRITE) | (1u << OP_MKDIR) | (1u << OP_COPY) | (1u << OP_RENAME) | (1u << OP_CHMOD) | (1u << OP_LINK) | (1u << OP_TRUNC) | (1u << OP_FSYNC) | (1u << OP_UTIME);

void addStorageFaults(PlanCtx& cx, const char* prop, const std::vector<Scenario>& sc, const std::vector<Trace>& tr, const std::function<bool(const TraceOp&)>& want, int perSite, size_t extra, size_t randomMulti, size_t cap = 0, bool everyErrno = false) {
    Rng g(subSeed(cx.seed, hashStr(prop), 11));
    size_t sites = 0;
    auto picks = pickOps(tr, want, perSite, extra, g, &sites, cap);
    cx.notes.push_back(std::string("operation sites: ") + std::to_string(sites) + ", attacked operations: " + std::to_string(picks.size()));
    for (auto& p : picks) {
        uint64_t s = g.next();
        cx.add(p.scen, [=, &sc] {
            Rng r(s);
            Case c = caseOf(prop, sc[p.scen], std::string(opNames[p.op.kind]) + " #" + std::to_string(p.op.n));
            Plan& pl = c.steps[0].tasks[0].plan;
            int e = errnoFor(p.op.kind, r);
            Fault f = errFault(p.op.n, e);
            unsigned m = (unsigned)r.below(10);
            if (p.first) {      // every site fails alone once: later failures must not hide a lost error
                if ((p.op.kind == OP_WRITE || p.op.kind == OP_COPY) && p.op.len > 1 && m < 3) { f.act = FA_PARTIAL_ERR; f.arg = 1 + (int64_t)r.below(p.op.len - 1); }
            }
            else if ((p.op.kind == OP_WRITE || p.op.kind == OP_COPY) && p.op.len > 1 && m < 4) { f.act = FA_PARTIAL_ERR; f.arg = 1 + (int64_t)r.below(p.op.len - 1); if (m < 2) f.sticky = WriteSide; }
            else if (m < 6 && (kbit(p.op.kind) & WriteSide)) { f.sticky = (e == ENOSPC || e == EDQUOT) ? WriteSide : kbit(p.op.kind); if (m == 5) f.count = 1 + (uint32_t)r.below(4); }
            pl.faults.push_back(f);
            return c;
        });
    }
    // From one operation on, every operation of its kind (or everything with its path) fails for the same reason: nothing may wait for that to pass.
    static const std::vector<std::pair<OpKind, std::vector<int>>> lasting = {
        {OP_OPEN_W, {EACCES, ENOSPC, EMFILE, ENFILE, EROFS, EIO, EDQUOT, ENOMEM, EPERM, EBUSY, ETXTBSY, ENXIO, EAGAIN, ENOENT, EISDIR, ELOOP, ENAMETOOLONG}},
        {OP_WRITE, {ENOSPC, EIO, EDQUOT, EFBIG, EAGAIN, EPERM, ENOMEM, ENXIO}},
        {OP_MKDIR, {EACCES, ENOSPC, EROFS, EIO, EMLINK, EDQUOT, EPERM, ENOMEM, ENOENT, ENOTDIR, ENAMETOOLONG}}};
    for (auto& x : lasting) {
        size_t n = 0, total = 0;
        auto more = pickOps(tr, [&](const TraceOp& o) { return want(o) && o.kind == x.first; }, perSite, everyErrno ? 0 : extra / 8, g, &n);
        for (auto& p : more) for (int rep = 0; rep < (everyErrno ? (int)x.second.size() : perSite + 1); ++rep) {
            uint64_t s = g.next(); OpKind kind = x.first; int e = everyErrno ? x.second[(size_t)rep] : x.second[s % x.second.size()];
            ++total;
            cx.add(p.scen, [=, &sc] {
                Rng r(s);
                Case c = caseOf(prop, sc[p.scen], std::string(opNames[kind]) + " #" + std::to_string(p.op.n) + " and later");
                Fault f = errFault(p.op.n, e, r.below(2) ? kbit(kind) : SamePath | ((1u << OP_NKINDS) - 1));
                c.steps[0].tasks[0].plan.faults.push_back(f);
                return c;
            });
        }
        cx.notes.push_back(std::string("lasting failures of ") + opNames[x.first] + ": " + std::to_string(n) + " sites, " + std::to_string(total) + " cases");
    }
    for (size_t i = 0; i < randomMulti && !sc.empty(); ++i) {
        uint32_t k = (uint32_t)g.below(sc.size()); uint64_t s = g.next();
        uint32_t ops = tr[k].ops; uint64_t bytes = tr[k].outBytes; uint32_t nodes = tr[k].outNodes;
        cx.add(k, [=, &sc] {
            Rng r(s);
            Case c = caseOf(prop, sc[k], "random");
            Plan& pl = c.steps[0].tasks[0].plan;
            switch (r.below(5)) {
            case 0: pl.byteQuota = (int64_t)r.below(bytes + 1); break;
            case 1: pl.inodeQuota = (int64_t)r.below(nodes + 1); break;
            case 2: pl.fdLimit = 3 + (int)r.below(3); break;
            default: { int n = 1 + (int)r.below(4); static const int es[] = {EIO, ENOSPC, EACCES, EMFILE, EROFS, ENOMEM}; for (int j = 0; j < n; ++j) { Fault f = errFault(1 + (uint32_t)r.below(ops), es[r.below(6)]); if (r.below(3) == 0) f.sticky = 1u << r.below(OP_NKINDS); if (r.below(4) == 0) { f.act = FA_PARTIAL_ERR; f.arg = 1 + (int64_t)r.below(2000); } pl.faults.push_back(f); } }
            }
            return c;
        });
    }
}

static bool isWriteSide(const TraceOp& o) { return (kbit(o.kind) & WriteSide) || (o.kind == OP_STAT) || o.kind == OP_OPENDIR || o.kind == OP_READDIR || o.kind == OP_CWD || o.kind == OP_UNLINK; }

// ------------------------------------------------------------------ C01
static std::vector<Scenario> scs; static std::vector<Trace> trs;
static void prepare(PlanCtx& cx, int variants, double frag, double stale) {
    scs = faultScenarios(cx, variants, frag, stale);
    trs = traceAll(scs);
    for (auto& t : trs) if (t.end != END_EXIT) cx.notes.push_back("UNEXPECTED END in fault-free run: " + t.text.substr(0, 400));
    dropRejected(scs, trs, cx);
}
static void planC01(PlanCtx& cx) {
    prepare(cx, cx.thorough ? 4 : 2, 0.5, 0.3);
    addStorageFaults(cx, "C01", scs, trs, isWriteSide, cx.thorough ? 6 : 1, cx.thorough ? 60000 : 2500, cx.thorough ? 20000 : 1500);
}
static Verdict judgeC01(const Case& c) {
    const Step& st = c.steps[0];
    auto ref = reference(st.tasks[0], st.edits, c.out);
    if (!ref->ok) return Verdict::ok();
    Vfs fs = worldBase();
    for (auto& e : st.edits) applyEdit(fs, e);
    TreeMap pre; fs.tree(pre);
    Step s2 = st; s2.edits.clear();
    RunResult r = exec(fs, s2);
    if (auto v = precheck(c, r); v.bad) return v;
    if (!r.ok()) { g_st->add("runs-reported-as-failed"); return Verdict::ok(); }
    g_st->add("runs-with-exit-0");
    std::string d = overlayDiff(ref->out, below(r.tree, c.out), below(pre, c.out), true);
    if (!d.empty()) return Verdict::fail(app(c) + ": exit status 0 but " + diffClass(d), app(c) + " exits with status 0 but the output is not complete and correct: " + d);
    return Verdict::ok();
}

// ------------------------------------------------------------------ C02
static void planC02(PlanCtx& cx) {
    prepare(cx, cx.thorough ? 4 : 2, 0.4, 0.3);
    auto any = [](const TraceOp& o) { return o.kind != OP_CLOSE; };
    addStorageFaults(cx, "C02", scs, trs, any, cx.thorough ? 4 : 1, cx.thorough ? 60000 : 500, cx.thorough ? 30000 : 1500, cx.thorough ? 0 : 9000, true);
}
static bool named(const std::string& err, const std::string& path, const std::string& out, const std::string& cwd, bool isDir) {
    // the path, or a directory on it, spelled in any of the ways the command line could spell it
    std::vector<std::string> spell;
    for (std::string p = path; p.size() >= out.size() && p.size() > 1; p = p.substr(0, p.find_last_of('/'))) {
        std::vector<std::string> v = {p};
        if (p.compare(0, cwd.size() + 1, cwd + "/") == 0) v.push_back(p.substr(cwd.size() + 1));
        for (auto& s : v) {
            size_t k = 0;
            while ((k = err.find(s, k)) != std::string::npos) {
                char b = k ? err[k - 1] : ' ', a = k + s.size() < err.size() ? err[k + s.size()] : ' ';
                if ((b == ' ' || b == '"' || b == '\'' || b == '[' || b == '(' || b == '\n' || b == '/' || b == ':') && (a == ' ' || a == '"' || a == '\'' || a == '.' || a == ']' || a == ')' || a == '\n' || a == ',' || a == ':' || (a == '/' && isDir && p == path))) return true;
                ++k;
            }
        }
    }
    return false;
}
static Verdict judgeC02(const Case& c) {
    const Step& st = c.steps[0];
    auto ref = reference(st.tasks[0], st.edits, c.out);
    if (!ref->ok) return Verdict::ok();
    Vfs fs = worldBase();
    for (auto& e : st.edits) applyEdit(fs, e);
    TreeMap pre; fs.tree(pre);
    Step s2 = st; s2.edits.clear();
    RunResult r = exec(fs, s2);
    if (auto v = precheck(c, r); v.bad) return v;
    if (badEnd(r)) return Verdict::fail(app(c) + ": " + endSig(r), app(c) + " does not end cleanly after a storage error: " + describeEnd(r));
    if (r.code() == 0) {
        std::string d = overlayDiff(ref->out, below(r.tree, c.out), below(pre, c.out), true);
        if (!d.empty()) return Verdict::fail(app(c) + ": failure not reported: " + diffClass(d), app(c) + " exits with status 0 without error although the output is incomplete: " + d);
        return Verdict::ok();
    }
    g_st->add("runs-reported-as-failed");
    if (!hasErrorMessage(r.err)) return Verdict::fail(app(c) + ": exit status " + std::to_string(r.code()) + " without an error message", app(c) + " fails without any error message: " + describeEnd(r));
    // which output file or directory failed?
    std::vector<std::pair<std::string, bool>> bad;
    for (auto& f : r.tasks[0].fired) {
        if (f.act != FA_ERR || !f.err || !(f.kind == OP_OPEN_W || f.kind == OP_WRITE || f.kind == OP_MKDIR)) continue;
        if (f.path == c.out || f.path.compare(0, c.out.size() + 1, c.out + "/") == 0) bad.push_back({f.path, f.kind == OP_MKDIR});
    }
    bool otherFault = false;
    for (auto& f : r.tasks[0].fired) if (f.act == FA_ERR && f.err && !(f.kind == OP_OPEN_W || f.kind == OP_WRITE || f.kind == OP_MKDIR)) otherFault = true;
    if (!bad.empty() && !otherFault) {
        bool ok = false;
        for (auto& p : bad) if (named(r.err, p.first, c.out, st.tasks[0].knobs.cwd, p.second)) ok = true;
        g_st->add("failures-checked-for-the-path");
        if (!ok) return Verdict::fail(app(c) + ": message does not name the failed path", app(c) + ": \"" + bad[0].first + "\" could not be written but no message names it: " + describeEnd(r));
    }
    return Verdict::ok();
}

// ------------------------------------------------------------------ C03
static bool isInput(const std::string& p) { return p.compare(0, 9, "/work/in/") == 0 || p.compare(0, 10, "/work/code") == 0 || p.compare(0, 11, "/work/lists") == 0 || p.compare(0, 12, "/work/extra/") == 0 || p.compare(0, 13, "/work/linked/") == 0; }
static void planC03(PlanCtx& cx) {
    prepare(cx, cx.thorough ? 5 : 3, 0.85, 0.2);
    Rng g(subSeed(cx.seed, 3));
    auto want = [](const TraceOp& o) { return (o.kind == OP_OPEN_R || o.kind == OP_READ || o.kind == OP_OPENDIR || o.kind == OP_READDIR || o.kind == OP_COPY || o.kind == OP_STAT) && o.exists && isInput(o.path); };
    size_t sites = 0;
    auto picks = pickOps(trs, want, cx.thorough ? 8 : 2, cx.thorough ? 60000 : 2000, g, &sites, cx.thorough ? 0 : 7000);
    cx.notes.push_back("input read sites: " + std::to_string(sites));
    for (auto& p : picks) p.first = false;
    {   // lists are cut at line ends more often: nothing in their text shows that something is missing
        auto isList = [](const TraceOp& o) { return o.exists && (o.kind == OP_OPEN_R || o.kind == OP_READ) && (o.path.compare(0, 11, "/work/lists") == 0 || o.path.compare(0, 12, "/work/extra/") == 0); };
        auto more = pickOps(trs, isList, 4, cx.thorough ? 6000 : 700, g);
        for (auto& p : more) { p.first = true; picks.push_back(p); }
        cx.notes.push_back("attacked list reads: " + std::to_string(more.size()));
    }
    for (auto& p : picks) {
        uint64_t s = g.next();
        cx.add(p.scen, [=] {
            Rng r(s);
            Case c = caseOf("C03", scs[p.scen], std::string(opNames[p.op.kind]) + " " + p.op.path);
            Fault f; f.op = p.op.n; f.err = errnoFor(p.op.kind == OP_COPY ? OP_READ : p.op.kind, r);
            if (p.op.kind == OP_READ && p.op.len > 1 && r.below(p.first ? 4 : 2)) { f.act = FA_PARTIAL_ERR; f.arg = 1 + (int64_t)r.below(r.below(3) == 0 ? p.op.len - 1 : std::min<uint64_t>(p.op.len - 1, 2ULL << r.below(12))); if (r.below(2) || p.first) f.arg = -f.arg; }
            if (r.below(3) == 0) f.sticky = kbit(p.op.kind);
            if (p.op.kind != OP_READ && r.below(2)) { f.err = r.below(3) ? EACCES : EIO; f.sticky = SamePath | ((1u << OP_NKINDS) - 1); }     // from now on nothing works on this path
            c.steps[0].tasks[0].plan.faults.push_back(f);
            return c;
        });
    }
}
static Verdict judgeC03(const Case& c) {
    const Step& st = c.steps[0];
    auto ref = reference(st.tasks[0], st.edits, c.out);
    if (!ref->ok) return Verdict::ok();
    Vfs fs = worldBase();
    for (auto& e : st.edits) applyEdit(fs, e);
    TreeMap pre; fs.tree(pre);
    Step s2 = st; s2.edits.clear();
    RunResult r = exec(fs, s2);
    if (auto v = precheck(c, r); v.bad) return v;
    if (r.tasks.empty()) return Verdict::fail(app(c) + ": " + endSig(r), app(c) + " does not end cleanly when an input cannot be read: " + describeEnd(r));
    const Fired* f = nullptr;
    for (auto& x : r.tasks[0].fired) if (x.act == FA_ERR && x.err && x.exists && isInput(x.path)) { f = &x; break; }
    if (!f) return Verdict::ok();
    if (badEnd(r)) return Verdict::fail(app(c) + ": " + endSig(r), app(c) + " does not end cleanly when " + f->path + " cannot be read: " + describeEnd(r));
    auto kindOf = [&](const std::string& p) { return p.compare(0, 9, "/work/in/") == 0 ? "schema" : p.compare(0, 10, "/work/code") == 0 || p.compare(0, 13, "/work/linked/") == 0 ? "custom code" : "list file"; };
    if (r.code() == 0) {
        // a transient failure that was overcome is fine; anything but the undisturbed output is not
        std::string d = overlayDiff(ref->out, below(r.tree, c.out), below(pre, c.out), true);
        g_st->add("read-failure-overcome-candidates");
        if (d.empty()) return Verdict::ok();
        return Verdict::fail(app(c) + ": exit status 0 although " + opNames[f->kind] + " of " + kindOf(f->path) + " failed", app(c) + " exits with status 0 although reading its input " + f->path + " failed (" + opNames[f->kind] + ") and the output differs: " + d);
    }
    if (!hasErrorMessage(r.err)) return Verdict::fail(app(c) + ": unreadable " + kindOf(f->path) + " without an error message", app(c) + " fails without any error message: " + describeEnd(r));
    return Verdict::ok();
}

// ------------------------------------------------------------------ C04
static void planC04(PlanCtx& cx) {
    prepare(cx, cx.thorough ? 5 : 3, 0.7, 0.3);
    Rng g(subSeed(cx.seed, 4));
    for (uint32_t i = 0; i < scs.size(); ++i)
        for (int k = 0; k < (cx.thorough ? 40 : 5); ++k) {
            uint64_t s = g.next();
            cx.add(i, [=] {
                Rng r(s);
                Case c = caseOf("C04", scs[i], "transfers");
                Plan& p = c.steps[0].tasks[0].plan;
                p.shortSeed = r.next() | 1;
                p.shortProb = r.below(3) == 0 ? 1.0 : 0.05 + 0.1 * (double)r.below(8);
                p.eintrProb = r.below(2) ? 0.0 : 0.02 * (double)(1 + r.below(20));
                p.shortMax = (int)(r.below(4) == 0 ? 1 : r.below(3) == 0 ? 7 : r.below(2) ? 511 : 4096);
                if (p.shortMax == 1 && p.shortProb > 0.95) p.shortProb = 0.95;
                p.xferReads = r.below(4) != 0; p.xferWrites = !p.xferReads || r.below(4) != 0;
                return c;
            });
        }
}
static Verdict judgeC04(const Case& c) {
    const Step& st = c.steps[0];
    auto ref = reference(st.tasks[0], st.edits, c.out);
    if (!ref->ok) return Verdict::ok();
    Vfs fs = worldBase();
    for (auto& e : st.edits) applyEdit(fs, e);
    TreeMap pre; fs.tree(pre);
    Step s2 = st; s2.edits.clear();
    RunResult r = exec(fs, s2);
    if (auto v = precheck(c, r); v.bad) return v;
    if (!r.ok()) return Verdict::fail(app(c) + ": run fails: " + endSig(r), app(c) + " fails when system calls transfer less than requested or are interrupted: " + describeEnd(r));
    std::string d = overlayDiff(ref->out, below(r.tree, c.out), below(pre, c.out), true);
    if (!d.empty()) return Verdict::fail(app(c) + ": " + diffClass(d), app(c) + ": partial or interrupted system calls change the output: " + d);
    return Verdict::ok();
}

// ------------------------------------------------------------------ C18
static void planC18(PlanCtx& cx) {
    prepare(cx, cx.thorough ? 4 : 2, 0.3, 0.2);
    Rng g(subSeed(cx.seed, 18));
    for (uint32_t i = 0; i < scs.size(); ++i)
        for (int k = 0; k < (cx.thorough ? 60 : 6); ++k) {
            uint64_t s = g.next(); uint32_t l0 = trs[i].sinkLines[0], l1 = trs[i].sinkLines[1]; uint32_t ops = trs[i].ops;
            cx.add(i, [=] {
                Rng r(s);
                Case c = caseOf("C18", scs[i], "sink");
                auto& t = c.steps[0].tasks[0];
                unsigned which = 1 + (unsigned)r.below(3);
                for (int f = 0; f < 2; ++f) if (which & (1u << f)) {
                    uint32_t lines = (f ? l1 : l0) * 3 + 4;
                    t.plan.sinkFrom[f] = r.below(3) == 0 ? 0 : (int)r.below(lines);
                    t.plan.sinkCount[f] = r.below(3) == 0 ? 1 + (int)r.below(4) : 0;
                    static const int es[] = {ENOSPC, EIO, EBADF, EPIPE}; t.plan.sinkErr[f] = es[r.below(4)];
                }
                // rejected inputs and storage failures must also be judged the same
                unsigned m = (unsigned)r.below(6);
                if (m == 0) { auto& e = c.steps[0].edits; std::vector<size_t> x; for (size_t q = 0; q < e.size(); ++q) if (e[q].path.compare(0, 9, "/work/in/") == 0) x.push_back(q); if (!x.empty()) { auto& d = e[r.pick(x)]; std::string t2 = d.data.compare(0, 8, "@corpus:") == 0 ? g_corpus.files[d.data.substr(8)] : d.data; size_t p = t2.find("<message "); d.data = p == std::string::npos ? t2.substr(0, t2.size() / 2) : t2.substr(0, p) + "<bogus x=\"1\"/>" + t2.substr(p); } }
                if (m == 1) { Fault f; f.op = 1 + (uint32_t)r.below(ops); f.err = ENOSPC; f.sticky = WriteSide; t.plan.faults.push_back(f); }
                if (m == 2) { t.args.insert(t.args.begin(), r.below(2) ? "--help" : "--version"); }
                return c;
            });
        }
}
static Verdict judgeC18(const Case& c) {
    const Step& st = c.steps[0];
    Step quiet = st;
    auto& p = quiet.tasks[0].plan; p.sinkFrom[0] = p.sinkFrom[1] = -1;
    Vfs f1 = worldBase(), f2 = worldBase();
    RunOpts o;
    for (auto& e : st.edits) { applyEdit(f1, e); }
    RunResult a = runStep(f1, quiet, o);
    g_st->add("reference_runs");
    RunResult b = exec(f2, st);
    if (auto v = precheck(c, b); v.bad) return v;
    if (a.end != b.end || a.code() != b.code()) return Verdict::fail(app(c) + ": exit status " + std::to_string(a.code()) + " becomes " + (b.end == END_EXIT ? std::to_string(b.code()) : endSig(b)), app(c) + ": losing the diagnostic output changes the exit status from " + std::to_string(a.code()) + " to " + describeEnd(b));
    TreeMap x = below(a.tree, "/work"), y = below(b.tree, "/work");
    std::string d = overlayDiff(x, y, x, true);
    if (!d.empty()) return Verdict::fail(app(c) + ": " + diffClass(d), app(c) + ": losing the diagnostic output changes what is generated: " + d);
    return Verdict::ok();
}

// ------------------------------------------------------------------ C16
static void planC16(PlanCtx& cx) {
    prepare(cx, cx.thorough ? 3 : 2, 0.4, 0.2);
    Rng g(subSeed(cx.seed, 16));
    size_t total = cx.thorough ? 300000 : 14000;
    size_t per = total / (scs.size() + 1) + 1;
    for (uint32_t i = 0; i < scs.size(); ++i)
        for (size_t k = 0; k < per; ++k) {
            uint64_t s = g.next(); uint64_t n = trs[i].allocs;
            uint64_t lo = n * k / per, hi = n * (k + 1) / per;    // stratified over the run
            cx.add(i, [=] {
                Rng r(s);
                Case c = caseOf("C16", scs[i], "alloc");
                Plan& p = c.steps[0].tasks[0].plan;
                p.failAllocAt = 1 + lo + r.below(hi > lo ? hi - lo : 1);
                unsigned m = (unsigned)r.below(4);
                if (m == 0) { p.failAllocSticky = true; p.failAllocMax = 0; }
                else if (m == 1) { p.failAllocSticky = true; p.failAllocMax = 2 + r.below(30); }
                return c;
            });
        }
}
static Verdict judgeC16(const Case& c) {
    const Step& st = c.steps[0];
    auto ref = reference(st.tasks[0], st.edits, c.out);
    if (!ref->ok) return Verdict::ok();
    Vfs fs = worldBase();
    for (auto& e : st.edits) applyEdit(fs, e);
    TreeMap pre; fs.tree(pre);
    Step s2 = st; s2.edits.clear();
    RunResult r = exec(fs, s2);
    if (auto v = precheck(c, r); v.bad) return v;
    if (badEnd(r)) {
        // std::terminate after an allocation failure ends the process with a non-zero status and touches no memory
        if (r.end == END_SIGNAL && r.sig == 6 && r.err.find("terminate called") != std::string::npos) { g_st->add("ended-by-std-terminate"); return Verdict::ok(); }
        // libstdc++ itself calls std::terminate when an allocation fails inside its noexcept directory iteration
        if (r.end == END_SIGNAL && r.err.find("recursive_directory_iterator") != std::string::npos) { g_st->add("ended-inside-libstdc++-directory-iteration"); return Verdict::ok(); }
        return Verdict::fail(app(c) + ": " + endSig(r), app(c) + " does not end cleanly when memory runs out: " + describeEnd(r));
    }
    if (r.code() != 0) { g_st->add("runs-reported-as-failed"); return Verdict::ok(); }
    std::string d = overlayDiff(ref->out, below(r.tree, c.out), below(pre, c.out), true);
    if (!d.empty()) return Verdict::fail(app(c) + ": exit status 0 after a failed allocation but " + diffClass(d), app(c) + " exits with status 0 although memory ran out and the output is wrong: " + d);
    return Verdict::ok();
}

#define R_FAULT "a case is one generator command on a repository or derived schema set with one seeded fault plan; it is non-trivial when at least one fault fired, and distinct by the hash of its whole operation and fault history"
const Prop faultProps[] = {
    {"C01", planC01, judgeC01, R_FAULT, "fault_enumeration"},
    {"C02", planC02, judgeC02, R_FAULT, "fault_enumeration"},
    {"C03", planC03, judgeC03, R_FAULT, "fault_enumeration"},
    {"C04", planC04, judgeC04, "a case is one generator command in which reads and writes are cut short or interrupted by a seeded rule; non-trivial when at least one transfer was", "exploration"},
    {"C16", planC16, judgeC16, "a case is one generator command in which the n-th allocation (and possibly later ones) fails; non-trivial when an allocation failed", "fault_enumeration"},
    {"C18", planC18, judgeC18, "a case is one command whose standard output and/or error fail from the n-th write on, run next to the same command with working streams; non-trivial when a stream write failed", "fault_enumeration"},
};
const size_t nFaultProps = sizeof faultProps / sizeof faultProps[0];
} // namespace sim

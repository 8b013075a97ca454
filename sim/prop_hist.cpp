// C05-C10, C13-C15, C17: histories of runs, environments, damaged inputs, concurrent generators, resources.
#include "prop.h"
#include <array>
#include <algorithm>
#include <cerrno>

namespace sim {
namespace {

std::vector<Scenario> scs;
std::vector<Trace> trs;
void prepare(PlanCtx& cx, int variants, double frag, double stale) {
    scs = faultScenarios(cx, variants, frag, stale);
    trs = traceAll(scs);
    for (auto& t : trs) if (t.end != END_EXIT) cx.notes.push_back("UNEXPECTED END in fault-free run: " + t.text.substr(0, 400));
    dropRejected(scs, trs, cx);
}
std::string appOf(const Case& c) { return c.steps.back().tasks.back().app; }
Fault mk(uint32_t op, FaultAct a, int err = 0, int64_t arg = 0, uint32_t sticky = 0, uint32_t count = 0) { Fault f; f.op = op; f.act = a; f.err = err; f.arg = arg; f.sticky = sticky; f.count = count; return f; }
const uint32_t WriteSide = (1u << OP_OPEN_W) | (1u << OP_WRITE) | (1u << OP_MKDIR) | (1u << OP_COPY) | (1u << OP_RENAME) | (1u << OP_CHMOD) | (1u << OP_LINK) | (1u << OP_TRUNC) | (1u << OP_FSYNC) | (1u << OP_UTIME);

FsEdit removal(const std::string& p) { FsEdit e; e.kind = FsEdit::REMOVE; e.path = p; return e; }
// Replaces all inputs of the world by those of the scenario.
std::vector<FsEdit> replaceInputs(const Scenario& s) {
    std::vector<FsEdit> r;
    for (auto* d : {"/work/in", "/work/code", "/work/lists", "/work/extra", "/work/linked"}) r.push_back(removal(d));
    { FsEdit e; e.kind = FsEdit::MKDIR; e.path = "/work/in"; e.mode = 0755; r.push_back(e); }
    r.insert(r.end(), s.inputs.begin(), s.inputs.end());
    return r;
}
// A plan of transient faults of any kind.
Plan randomFaults(Rng& r, const Trace& t, bool memory) {
    Plan p;
    uint32_t ops = t.ops ? t.ops : 1;
    switch (r.below(memory ? 8 : 7)) {
    case 0: p.byteQuota = (int64_t)r.below(t.outBytes + 1); break;
    case 1: p.inodeQuota = (int64_t)r.below(t.outNodes + 1); break;
    case 2: p.fdLimit = 3 + (int)r.below(3); break;
    case 7: p.failAllocAt = 1 + r.below(t.allocs + 1); p.failAllocSticky = r.below(2); p.failAllocMax = r.below(3) ? 1 + r.below(50) : 0; break;
    default: {
        int n = 1 + (int)r.below(3);
        static const int es[] = {EIO, ENOSPC, EACCES, EMFILE, EROFS, ENOMEM, EDQUOT};
        for (int j = 0; j < n; ++j) {
            Fault f = mk(1 + (uint32_t)r.below(ops), FA_ERR, es[r.below(7)]);
            unsigned m = (unsigned)r.below(6);
            if (m == 0) f.sticky = WriteSide;
            else if (m == 1) { f.sticky = 1u << r.below(OP_NKINDS); f.count = 1 + (uint32_t)r.below(5); }
            else if (m == 2) { f.act = FA_PARTIAL_ERR; f.arg = 1 + (int64_t)r.below(3000); }
            p.faults.push_back(f);
        }
    } }
    return p;
}
// Foreign files (not produced by the run) must survive; everything produced must be as in the reference.
Verdict finalTree(const Case& c, const Ref& ref, const RunResult& r, const TreeMap* pre, bool strict, const std::string& what) {
    if (!r.ok()) return Verdict::fail(appOf(c) + ": " + what + ": final run fails: " + endSig(r) + " code " + std::to_string(r.code()), appOf(c) + " fails " + what + ": " + describeEnd(r));
    std::string d = overlayDiff(ref.out, below(r.tree, c.out), pre ? below(*pre, c.out) : TreeMap(), strict && pre);
    if (!d.empty()) return Verdict::fail(appOf(c) + ": " + what + ": " + diffClass(d), appOf(c) + " " + what + ": the output is not that of an undisturbed first run: " + d);
    return Verdict::ok();
}

// ================================================================== C05: crash, power loss, restart
void planC05(PlanCtx& cx) {
    prepare(cx, cx.thorough ? 4 : 2, 0.6, 0.35);
    Rng g(subSeed(cx.seed, 5));
    auto want = [](const TraceOp& o) { return o.kind == OP_OPEN_W || o.kind == OP_WRITE || o.kind == OP_MKDIR || o.kind == OP_COPY || o.kind == OP_CLOSE || o.kind == OP_RENAME || o.kind == OP_CHMOD; };
    size_t sites = 0;
    auto picks = pickOps(trs, want, cx.thorough ? 6 : 1, cx.thorough ? 60000 : 2500, g, &sites, cx.thorough ? 0 : 4500);
    cx.notes.push_back("crash sites: " + std::to_string(sites));
    for (auto& p : picks) {
        uint64_t s = g.next(); uint32_t ops = trs[p.scen].ops;
        cx.add(p.scen, [=] {
            Rng r(s);
            Case c = caseOf("C05", scs[p.scen], std::string("crash at ") + opNames[p.op.kind]);
            const Task t0 = c.steps[0].tasks[0];
            bool mid = (p.op.kind == OP_WRITE || p.op.kind == OP_COPY) && r.below(3) != 0;
            Fault f = mk(p.op.n, mid ? FA_CRASH_MID : FA_CRASH);
            if (mid) { f.arg = (int64_t)r.below(p.op.len + 1); if (r.below(4) == 0) f.arg = -f.arg; }
            c.steps[0].tasks[0].plan.faults.push_back(f);
            int more = r.below(3) == 0 ? 1 + (int)r.below(3) : 0;
            for (int k = 0; k < more; ++k) { Step st; st.tasks.push_back(t0); if (r.below(6)) { Fault q = mk(1 + (uint32_t)r.below(ops), r.below(2) ? FA_CRASH_MID : FA_CRASH); q.arg = (int64_t)r.below(4096); st.tasks[0].plan.faults.push_back(q); } c.steps.push_back(st); }
            for (auto& st : c.steps) st.powerLoss = r.below(3) ? r.next() | 1 : 0;
            Step last; last.tasks.push_back(t0); c.steps.push_back(last);
            return c;
        });
    }
}
Verdict judgeC05(const Case& c) {
    auto ref = reference(c.steps[0].tasks[0], c.steps[0].edits, c.out);
    if (!ref->ok) return Verdict::ok();
    Vfs fs = worldBase(); RunResult r; TreeMap pre0; bool crashed = false;
    for (size_t i = 0; i < c.steps.size(); ++i) {
        if (i == 0) { Vfs f2 = worldBase(); for (auto& e : c.steps[0].edits) applyEdit(f2, e); f2.tree(pre0); }
        r = exec(fs, c.steps[i], true);
        if (auto v = precheck(c, r); v.bad) return v;
        crashed |= r.end == END_CRASH;
        if (i + 1 < c.steps.size() && badEnd(r)) return Verdict::fail(appOf(c) + ": after a crash: " + endSig(r), appOf(c) + " does not end cleanly when run again after a crash: " + describeEnd(r));
    }
    if (crashed) g_st->add("restarts-after-crash");
    if (auto v = finalTree(c, *ref, r, nullptr, false, "after crash and restart"); v.bad) return v;
    TreeMap now = below(r.tree, c.out), pre = below(pre0, c.out);
    for (auto& p : pre) if (!ref->out.count(p.first)) { auto n = now.find(p.first); if (n == now.end() || n->second.hash != p.second.hash || n->second.size != p.second.size) return Verdict::fail(appOf(c) + ": foreign file lost after crash", appOf(c) + ": foreign file " + p.first + " changed by a crashed run and its restart"); }
    return Verdict::ok();
}

// ================================================================== C06: histories in one output directory
void addForeign(std::vector<FsEdit>& e, const std::string& out, Rng& r) {
    static const char* n[] = {"user.txt", "include/user_notes.h", "CMakeLists.txt.bak", "include/mine/Own.h", "src/keep.cpp", ".git/config", "build/cache.bin"};
    for (auto* x : n) if (r.below(4) == 0) { FsEdit f = put(out + "/" + x, randomCode(r, 1 + r.below(300)), r.below(4) ? 0644 : 0444); if (r.below(2)) f.mtime = (int64_t)r.below(4000000000ULL) * 1000000000LL; e.push_back(f); }
}
void planC06(PlanCtx& cx) {
    Rng g(subSeed(cx.seed, 6));
    std::vector<std::pair<std::string, std::string>> at;
    for (auto* a = appNames(); *a; ++a) for (auto& t : g_corpus.tests) if (!scenarioDisabled(*a, t)) at.push_back({*a, t});
    size_t n = cx.thorough ? 60000 : 2400;
    for (size_t i = 0; i < n; ++i) {
        auto x = at[i % at.size()]; uint64_t s = g.next();
        cx.add((uint32_t)(i % at.size()), [=] {
            Rng r(s);
            auto scen = [&](const std::string& app, const std::string& test) { Scenario q = makeScenario(app, test, r.below(4) == 0 ? 0 : 1 + r.below(100000)); if (r.below(3) == 0) addFragments(q, r, 0.3, true); if (r.below(4) == 0) addExtraFiles(q, r, 1 + (int)r.below(4)); return q; };
            Scenario fin = scen(x.first, x.second);
            Case c; c.prop = "C06"; c.variant = fin.name; c.out = fin.out;
            int k = (int)r.below(4);
            if (k == 3 && r.below(3)) k = 1;
            for (int j = 0; j < k; ++j) {
                Scenario q;
                switch (r.below(8)) {
                case 6: case 7:
                case 3: q = fin; break;
                case 0: { auto& y = at[r.below(at.size())]; q = scen(y.first, y.second); break; }
                case 1: case 2: { std::string t; do t = at[r.below(at.size())].second; while (scenarioDisabled(x.first, t)); q = scen(x.first, t); break; }
                default: q = scen(x.first, x.second); break;
                }
                Step st; st.edits = replaceInputs(q); st.tasks.push_back(q.task()); st.note = q.name;
                if (r.below(4) == 0) { Trace t; t.ops = 400; t.outBytes = 30000; t.outNodes = 40; t.allocs = 20000; st.tasks[0].plan = randomFaults(r, t, true); }
                else if (r.below(8) == 0) { st.tasks[0].plan.faults.push_back(mk(1 + (uint32_t)r.below(500), FA_CRASH_MID, 0, (int64_t)r.below(3000))); st.powerLoss = r.below(2) ? r.next() | 1 : 0; }
                c.steps.push_back(st);
            }
            Step last;
            Scenario fs2 = fin; fs2.inputs.clear();
            if (r.below(3) || k == 0) { Scenario tmp = fin; tmp.inputs = fin.inputs; size_t b = tmp.inputs.size(); addStale(tmp, r, r.below(2) ? 1.0 : 0.35); last.edits.assign(tmp.inputs.begin() + (long)b, tmp.inputs.end()); }
            if (k && r.below(2)) { FsEdit e; e.kind = FsEdit::TWEAK; e.path = fin.out; e.data = std::to_string(r.next()) + " " + std::to_string(r.below(2) ? 100 : 30); last.edits.push_back(e); }
            addForeign(last.edits, fin.out, r);
            auto in = replaceInputs(fin); last.edits.insert(last.edits.begin(), in.begin(), in.end());
            last.tasks.push_back(fin.task()); last.note = fin.name;
            c.steps.push_back(last);
            return c;
        });
    }
}
Verdict judgeC06(const Case& c) {
    const Step& last = c.steps.back();
    auto ref = reference(last.tasks[0], last.edits, c.out);
    if (!ref->ok) { g_st->add("final-run-rejected-anyway"); return Verdict::ok(); }
    Vfs fs = worldBase();
    for (size_t i = 0; i + 1 < c.steps.size(); ++i) { RunResult q = exec(fs, c.steps[i], true); if (auto v = precheck(c, q); v.bad) return v; }
    for (auto& e : last.edits) applyEdit(fs, e);
    TreeMap pre; fs.tree(pre);
    Step s2 = last; s2.edits.clear();
    RunResult r = exec(fs, s2, false);
    if (auto v = precheck(c, r); v.bad) return v;
    uint64_t h = 1; for (auto& x : below(pre, c.out)) h = mix64(hashStr(x.first, h) ^ x.second.hash);
    g_st->nontrivial.insert(h); g_st->add("regenerations-over-earlier-content", below(pre, c.out).empty() ? 0 : 1);
    return finalTree(c, *ref, r, &pre, true, "regenerating over earlier content");
}

// ================================================================== C07: environment has no influence
bool isPathHead(const std::string& a) { for (auto* p : {"in/", "lists/", "extra/"}) if (a.compare(0, strlen(p), p) == 0) return true; return a == "out" || a == "code" || a == "in"; }
bool usesPlainList(const Task& t) { bool i = false, p = false; for (auto& a : t.args) { if (a == "-i") i = true; if (a == "-p") p = true; } return i && !p; }
std::string respell1(const std::string& p, const std::string& cwd, Rng& r) {
    bool dir = p == "out" || p == "code" || p == "in";
    std::string abs = "/work/" + p;
    if (cwd != "/work") { std::string up; for (char ch : cwd) if (ch == '/') up += "../"; std::string rel = up + "work/" + p; return (r.below(2) ? abs : rel) + (dir && r.below(3) == 0 ? "/" : ""); }
    std::string q;
    switch (r.below(8)) {
    case 0: q = "./" + p; break; case 1: q = abs; break; case 2: q = "../work/" + p; break; case 3: q = "in/../" + p; break; case 4: q = "/work/./" + p; break; case 5: q = "/work/other/../" + p; break;
    case 6: { q = p; auto k = q.find('/'); if (k != std::string::npos) q.insert(k, "/"); break; }
    default: q = p;
    }
    if (dir && r.below(3) == 0) q += "/";
    return q;
}
void respell(Task& t, Rng& r) {
    for (auto& a : t.args) {
        if (isPathHead(a) && a.find(',') == std::string::npos && a.find('@') == std::string::npos) { a = respell1(a, t.knobs.cwd, r); continue; }
        if (a.find('@') == std::string::npos && a.find(',') == std::string::npos) continue;
        std::string o, part; bool changed = false; // lists: name@path,path
        for (size_t i = 0; i <= a.size(); ++i) { if (i == a.size() || a[i] == ',' || a[i] == '@') { if (isPathHead(part)) { part = respell1(part, t.knobs.cwd, r); changed = true; } o += part; if (i < a.size()) o += a[i]; part.clear(); } else part += a[i]; }
        if (changed) a = o;
    }
}
void perturb(Knobs& k, Rng& r) {
    if (r.below(4)) k.heapSeed = r.next() | 1;
    if (r.below(4)) k.dirSeed = r.next() | 1;
    if (r.below(3)) k.inoSeed = r.next() | 1;
    k.miscSeed = r.next() | 1;
    if (r.below(3)) k.clockBase = (int64_t)r.below(5000000000ULL) * 1000000000LL + (int64_t)r.below(1000000000);
    if (r.below(2)) k.clockJump = (int64_t)r.below(100000000000ULL);
    k.opCost = 1 + (int64_t)r.below(10000000);
    k.dtUnknown = r.below(3) == 0;
    k.pid = 1 + (int)r.below(4000000);
    static const char* envs[] = {"LANG=tr_TR.UTF-8", "LC_ALL=de_DE.UTF-8", "LC_ALL=C", "TZ=Asia/Kathmandu", "HOME=/root", "HOME=/nonexistent", "USER=somebody", "SOURCE_DATE_EPOCH=0", "TMPDIR=/var/tmp", "PATH=/bin", "XML_CATALOG_FILES=/etc/xml/x", "LC_NUMERIC=fr_FR.UTF-8", "COLUMNS=20", "PWD=/nowhere", "COMMSDSL=1", "DEBUG=1"};
    for (auto* e : envs) if (r.below(4) == 0) k.env.push_back(e);
}
void planC07(PlanCtx& cx) {
    prepare(cx, cx.thorough ? 6 : 3, 0.6, 0.0);
    Rng g(subSeed(cx.seed, 7));
    for (uint32_t i = 0; i < scs.size(); ++i)
        for (int k = 0; k < (cx.thorough ? 60 : 6); ++k) {
            uint64_t s = g.next();
            cx.add(i, [=] {
                Rng r(s);
                Case c = caseOf("C07", scs[i], "environment");
                Step twin = c.steps[0];
                auto& st = c.steps[0]; auto& t = st.tasks[0];
                perturb(t.knobs, r);
                if (r.below(2)) {
                    bool hasCode = !scs[i].codeDir.empty();
                    // without -c fragments are looked up from the current directory; nothing is there, so it may change as well
                    (void)hasCode;
                    if (!usesPlainList(t) && r.below(2)) { static const char* d[] = {"/home/user", "/work/other/include", "/tmp", "/"}; t.knobs.cwd = d[r.below(4)]; }
                    respell(t, r);
                }
                for (auto& e : st.edits) if (e.kind == FsEdit::PUT) { if (r.below(3) == 0) e.mtime = (int64_t)r.below(5000000000ULL) * 1000000000LL; if (r.below(6) == 0) e.mode = 0444; if (r.below(6) == 0) e.mode = 0755; }
                if (r.below(3) == 0) r.shuffle(st.edits);      // creation order: inode numbers, default listing order
                for (size_t q = 1; q < st.edits.size(); ++q) if (st.edits[q].kind == FsEdit::MKDIR) std::swap(st.edits[0], st.edits[q]);
                if (r.below(4) == 0) { t.plan.shortSeed = r.next() | 1; t.plan.shortProb = 0.3; t.plan.shortMax = 1 + (int)r.below(4000); }
                c.steps.push_back(twin);     // step 1 is the plain twin
                return c;
            });
        }
    // the same for inputs that are refused
    std::vector<std::string> lib; for (auto& f : g_corpus.libFiles) if (f.find("Schema") != std::string::npos && f.find('@') == std::string::npos) lib.push_back(f);
    for (size_t k = 0; k < (cx.thorough ? 6000u : 500u) && !lib.empty(); ++k) {
        uint64_t s = g.next();
        cx.add((uint32_t)(100000 + k / 24), [=] {
            Rng r(s);
            Case c; c.prop = "C07"; c.out = "/work/out"; Step st; auto f = lib[r.below(lib.size())];
            c.variant = "library schema " + f;
            st.edits.push_back(put("/work/in/Schema.xml", "@corpus:" + f));
            int na = 0; while (appNames()[na]) ++na;
            Task t; t.app = appNames()[r.below((uint64_t)na)]; t.args = {"-o", "out", "in/Schema.xml"}; if (r.below(2)) t.args.insert(t.args.begin(), "--warn-as-err");
            st.tasks.push_back(t);
            Step twin = st;
            perturb(st.tasks[0].knobs, r); if (r.below(2)) { if (r.below(2)) st.tasks[0].knobs.cwd = "/home/user"; respell(st.tasks[0], r); }
            c.steps = {st, twin};
            return c;
        });
    }
}
Verdict judgeC07(const Case& c) {
    if (c.steps.size() < 2) return Verdict::ok();
    auto ref = reference(c.steps[1].tasks[0], c.steps[1].edits, c.out);
    Vfs fs = worldBase();
    for (auto& e : c.steps[0].edits) applyEdit(fs, e);
    TreeMap pre; fs.tree(pre);
    Step s2 = c.steps[0]; s2.edits.clear();
    RunResult r = exec(fs, s2);
    if (auto v = precheck(c, r); v.bad) return v;
    { const Knobs& k = s2.tasks[0].knobs; uint64_t h = mix64(k.heapSeed ^ mix64(k.dirSeed) ^ k.inoSeed * 3 ^ (uint64_t)k.clockBase ^ k.miscSeed); for (auto& a : s2.tasks[0].args) h = hashStr(a, h); g_st->nontrivial.insert(h); }
    if (ref->rr.end != r.end || ref->rr.code() != r.code()) return Verdict::fail(appOf(c) + ": exit status depends on the environment: " + std::to_string(ref->rr.code()) + " / " + (r.end == END_EXIT ? std::to_string(r.code()) : endSig(r)), appOf(c) + " ends with " + describeEnd(r) + " instead of status " + std::to_string(ref->rr.code()));
    if (!ref->ok) return Verdict::ok();
    std::string d = overlayDiff(ref->out, below(r.tree, c.out), below(pre, c.out), true);
    if (!d.empty()) return Verdict::fail(appOf(c) + ": output depends on the environment: " + diffClass(d), appOf(c) + ": same schema, options and custom code, different output: " + d);
    return Verdict::ok();
}

// ================================================================== C08: writes stay inside
std::string hostile(Rng& r) { static const char* h[] = {"../../home/user/precious.txt", "../escape", "/etc/passwd", "a/../../../tmp/x", "..", "/home/user/x", "x/y", "../other/include/keep"}; return h[r.below(8)]; }
void planC08(PlanCtx& cx) {
    prepare(cx, cx.thorough ? 5 : 3, 0.6, 0.3);
    Rng g(subSeed(cx.seed, 8));
    for (uint32_t i = 0; i < scs.size(); ++i)
        for (int k = 0; k < (cx.thorough ? 60 : 6); ++k) {
            uint64_t s = g.next();
            cx.add(i, [=] {
                Rng r(s);
                Case c = caseOf("C08", scs[i], "confinement");
                auto& st = c.steps[0]; auto& t = st.tasks[0];
                if (r.below(4)) t.plan = randomFaults(r, trs[i], true);
                if (r.below(5) == 0) t.plan.faults.push_back(mk(1 + (uint32_t)r.below(trs[i].ops), FA_CRASH_MID, 0, (int64_t)r.below(3000)));
                bool stale = scs[i].name.find("+stale") != std::string::npos;
                if (!stale && r.below(3) == 0) {
                    static const char* o[][2] = {{"gen/a/b", "/work/gen/a/b"}, {"../home/user/proj/out", "/home/user/proj/out"}, {"/var/tmp/x/out", "/var/tmp/x/out"}, {"./other/../out2", "/work/out2"}, {"other/out", "/work/other/out"}};
                    auto& q = o[r.below(5)];
                    for (size_t a = 0; a + 1 < t.args.size(); ++a) if (t.args[a] == "-o") t.args[a + 1] = q[0];
                    c.out = q[1];
                }
                unsigned m = (unsigned)r.below(12);
                if (m == 0) { t.args.insert(t.args.begin(), {"-n", hostile(r)}); }
                else if (m == 1 && t.app == "commsdsl2comms") { st.edits.push_back(put("/work/lists/hb.txt", "\n")); t.args.insert(t.args.begin(), {"--extra-messages-bundle", hostile(r) + "@lists/hb.txt"}); }
                else if (m == 2 && t.app == "commsdsl2c") t.args.insert(t.args.begin(), {"--names-prefix", hostile(r)});
                else if (m == 2 && t.app == "commsdsl2tools_qt") t.args.insert(t.args.begin(), {"--protocol", "::" + hostile(r) + ":desc:" + hostile(r)});
                else if (m == 3) t.args.insert(t.args.begin(), {"-V", hostile(r)});
                else if (m == 4 && !scs[i].codeDir.empty()) { FsEdit e; e.kind = FsEdit::LINK; e.path = scs[i].codeDir + "/link.txt"; e.data = r.below(2) ? "/home/user/precious.txt" : "../notes.txt"; st.edits.push_back(e); if (r.below(2)) { e.path = scs[i].codeDir + "/dirlink"; e.data = "/home"; st.edits.push_back(e); } }
                else if (m == 5) {   // schema with odd names
                    std::vector<size_t> x; for (size_t q = 0; q < st.edits.size(); ++q) if (st.edits[q].path.compare(0, 9, "/work/in/") == 0) x.push_back(q);
                    if (!x.empty()) { auto& d = st.edits[r.pick(x)]; std::string txt = d.data.compare(0, 8, "@corpus:") == 0 ? g_corpus.files[d.data.substr(8)] : d.data; std::vector<size_t> pos; size_t p = 0; while ((p = txt.find("name=\"", p)) != std::string::npos) { pos.push_back(p + 6); p += 6; } if (!pos.empty()) { size_t q = r.below(3) ? pos[0] : r.pick(pos), e = txt.find('"', q); txt.replace(q, e - q, hostile(r)); d.data = txt; } }
                }
                else if (m >= 6 && m <= 9) {   // the output directory holds things of the user, some of them in the way of the output
                    if (m <= 7) addForeign(st.edits, c.out, r);
                    auto ref = reference(t, st.edits, c.out);
                    if (m != 6 && ref->ok && !ref->out.empty()) {
                        std::vector<std::string> fs, ds;
                        for (auto& e : ref->out) if (!e.first.empty()) (e.second.type == NT_DIR ? ds : fs).push_back(e.first);
                        int n = 1 + (int)r.below(3);
                        std::set<std::string> had; for (auto& e : st.edits) had.insert(e.path);
                        for (int q = 0; q < n; ++q) {
                            std::string p = c.out + "/"; FsEdit e;
                            switch (r.below(5)) {
                            case 0: case 1: if (ds.empty()) continue; p += r.pick(ds); e = put(p, randomCode(r, r.below(200))); break;                       // file where a directory is needed
                            case 2: if (fs.empty()) continue; p += r.pick(fs); e.kind = FsEdit::MKDIR; e.path = p; e.mode = 0755; break;                         // directory where a file is needed
                            case 3: if (fs.empty()) continue; p += r.pick(fs) + "/mine.txt"; e = put(p, "mine\n"); break;
                            default: { static const char* sf[] = {".bak", ".tmp", ".orig", "~", ".new", ".old", ".swp", ".lock"}; if (fs.empty()) continue; p += r.pick(fs) + sf[r.below(8)]; e = put(p, randomCode(r, 1 + r.below(200))); }
                            }
                            bool clash = false; for (auto& h : had) if (h == p || h.compare(0, p.size() + 1, p + "/") == 0 || p.compare(0, h.size() + 1, h + "/") == 0) clash = true;
                            if (clash) continue;
                            had.insert(p); st.edits.push_back(e);
                        }
                    }
                }
                return c;
            });
        }
}
Verdict confined(const Case& c, const RunResult& r, const TreeMap& pre, const std::string& out) {
    auto inside = [&](const std::string& p) { return p == out || p.compare(0, out.size() + 1, out + "/") == 0; };
    for (auto& t : r.tasks) {
        if (!t.escapes.empty()) return Verdict::fail(appOf(c) + ": forbidden effect: " + t.escapes[0].substr(0, t.escapes[0].find(':')), appOf(c) + ": " + t.escapes[0]);
        for (auto& m : t.muts) {
            const std::string& p = m.first.first;
            if (inside(p)) continue;
            if (m.first.second == MU_MKDIR && out.compare(0, p.size() + 1, p + "/") == 0) continue;
            return Verdict::fail(appOf(c) + ": " + mutNames[m.first.second] + " outside the output directory", appOf(c) + ": " + mutNames[m.first.second] + " of " + p + " outside " + out);
        }
    }
    if (!r.tree.empty()) {
        for (auto& e : pre) { if (inside(e.first)) continue; auto n = r.tree.find(e.first); bool parent = out.compare(0, e.first.size() + 1, e.first + "/") == 0 || e.first == "/"; if (n == r.tree.end()) return Verdict::fail(appOf(c) + ": removed outside", appOf(c) + ": " + e.first + " was removed"); if (n->second.type != e.second.type || n->second.mode != e.second.mode || n->second.hash != e.second.hash || n->second.size != e.second.size || (!parent && n->second.mtime != e.second.mtime)) { if (e.second.type == NT_DIR && parent) continue; return Verdict::fail(appOf(c) + ": altered outside", appOf(c) + ": " + e.first + " was altered"); } }
        for (auto& e : r.tree) { if (inside(e.first) || pre.count(e.first)) continue; if (e.second.type == NT_DIR && out.compare(0, e.first.size() + 1, e.first + "/") == 0) continue; return Verdict::fail(appOf(c) + ": created outside", appOf(c) + ": " + e.first + " was created outside " + out); }
    }
    return Verdict::ok();
}
Verdict judgeC08(const Case& c) {
    Vfs fs = worldBase();
    for (auto& e : c.steps[0].edits) applyEdit(fs, e);
    TreeMap pre; fs.tree(pre);
    Step s2 = c.steps[0]; s2.edits.clear();
    RunResult r = exec(fs, s2);
    if (auto v = precheck(c, r); v.bad) return v;
    g_st->add(r.ok() ? "successful-runs" : r.end == END_CRASH ? "crashed-runs" : "failed-runs");
    if (auto v = confined(c, r, pre, c.out); v.bad) return v;
    // what was in the output directory and is not output of this run stays
    if (r.tree.empty()) return Verdict::ok();
    std::shared_ptr<Ref> ref;
    for (auto& e : pre) {
        if (e.first.compare(0, c.out.size() + 1, c.out + "/") != 0) continue;
        auto n = r.tree.find(e.first);
        if (n == r.tree.end() || n->second.type != e.second.type) return Verdict::fail(appOf(c) + ": removed inside the output directory", appOf(c) + ": " + e.first + ", which it did not create, was removed" + (n == r.tree.end() ? "" : " and replaced"));
        if (e.second.type != NT_FILE || (n->second.hash == e.second.hash && n->second.size == e.second.size)) continue;
        if (!ref) ref = reference(c.steps[0].tasks[0], c.steps[0].edits, c.out);
        if (ref->ok && !ref->out.count(e.first.substr(c.out.size() + 1))) return Verdict::fail(appOf(c) + ": foreign file altered", appOf(c) + ": " + e.first + ", which is no output of this run, was altered");
        g_st->add("foreign-files-kept");
    }
    return Verdict::ok();
}

// ================================================================== C09: refused input leaves no trace
std::vector<std::string> libSchemas() { std::vector<std::string> lib; for (auto& f : g_corpus.libFiles) if (f.find("Schema") != std::string::npos) lib.push_back(f); return lib; }
std::string corpusText(const std::string& d) { return d.compare(0, 8, "@corpus:") == 0 ? g_corpus.files[d.substr(8)] : d; }
void planC09(PlanCtx& cx) {
    prepare(cx, cx.thorough ? 5 : 3, 0.3, 0.4);
    Rng g(subSeed(cx.seed, 9));
    for (uint32_t i = 0; i < scs.size(); ++i)
        for (int k = 0; k < (cx.thorough ? 80 : 8); ++k) {
            uint64_t s = g.next();
            cx.add(i, [=] {
                Rng r(s);
                Case c = caseOf("C09", scs[i], "");
                auto& st = c.steps[0]; auto& t = st.tasks[0];
                std::vector<size_t> x; for (size_t q = 0; q < st.edits.size(); ++q) if (st.edits[q].path.compare(0, 9, "/work/in/") == 0) x.push_back(q);
                auto addFirst = [&](std::initializer_list<std::string> l) { t.args.insert(t.args.begin(), l); };
                bool must = true;    // the run has to be refused
                switch (r.below(14)) {
                case 0: if (!x.empty()) { auto& e = st.edits[r.pick(x)]; std::string d = corpusText(e.data); size_t p = d.rfind("</schema>"); if (p != std::string::npos) { e.data = d.substr(0, 1 + r.below(p)); } c.variant += ": torn schema"; } break;
                case 1: if (!x.empty()) { st.edits.erase(st.edits.begin() + (long)r.pick(x)); c.variant += ": missing schema"; } else must = false; break;
                case 2: { auto& u = t.args; u.push_back("-i"); c.variant += ": option without its argument"; must = false; break; }
                case 3: {   // unknown property: a warning, refused with --warn-as-err
                    if (x.empty()) { must = false; break; }
                    auto& e = st.edits[r.pick(x)]; std::string d = corpusText(e.data); std::vector<size_t> pos; size_t p = 0; while ((p = d.find(" name=\"", p)) != std::string::npos) { pos.push_back(p); ++p; }
                    if (pos.empty()) { must = false; break; }
                    d.insert(r.pick(pos), " bogusAttr=\"1\""); e.data = d; addFirst({"--warn-as-err"}); c.variant += ": warning as error"; must = false; break; }
                case 4: { st.edits.push_back(put("/work/lists/bad.txt", "NoSuchMessage\n")); if (t.app == "commsdsl2comms") { addFirst({"--extra-messages-bundle", "Bundle@lists/bad.txt"}); } else if (t.app == "commsdsl2c" || t.app == "commsdsl2swig" || t.app == "commsdsl2emscripten") addFirst({"--messages-list", "lists/bad.txt"}); else { must = false; } c.variant += ": unknown message"; must = false; break; }
                case 5: if (t.app == "commsdsl2c" || t.app == "commsdsl2swig" || t.app == "commsdsl2emscripten") { addFirst({"--force-platform", "nosuchplatform"}); c.variant += ": unknown platform"; } must = false; break;
                case 6: if (t.app == "commsdsl2c" || t.app == "commsdsl2swig" || t.app == "commsdsl2emscripten") { addFirst({"--force-interface", "nosuch.Interface"}); c.variant += ": unknown interface"; } must = false; break;
                case 7: { static const char* v[] = {"abc", "-1", "99999999999999999999", "", "1x"}; addFirst({r.below(2) ? "--force-schema-version" : "-m", v[r.below(5)]}); must = false; c.variant += ": malformed number"; break; }
                case 8: { t.args.push_back("-i"); t.args.push_back("lists/nosuch.txt"); c.variant += ": missing list"; break; }
                case 9: { for (auto& q : x) { std::string d = corpusText(st.edits[q].data); size_t p = d.rfind("</schema>"); if (p != std::string::npos && r.below(2)) { static const char* bad[] = {"<fields><int name=\"zz\" type=\"nosuch\"/></fields>", "<message name=\"zzMsg\"/>", "<fields><ref name=\"zz\" field=\"does.not.exist\"/></fields>", "<message name=\"1bad\" id=\"7777\"/>", "<fields><enum name=\"zz\" type=\"uint8\"><validValue name=\"A\" val=\"1\"/><validValue name=\"A\" val=\"2\"/></enum></fields>", "<frame name=\"zzF\"><size/></frame>"}; d.insert(p, bad[r.below(6)]); st.edits[q].data = d; c.variant += ": invalid schema"; } } must = false; break; }
                case 10: { t.args.push_back("in/nosuch.xml"); c.variant += ": missing input"; break; }
                case 11: { // unreadable schema or list
                    std::vector<const TraceOp*> ops; for (auto& o : trs[i].t) if ((o.kind == OP_OPEN_R || o.kind == OP_READ) && o.exists && (o.path.compare(0, 9, "/work/in/") == 0 || o.path.compare(0, 11, "/work/lists") == 0 || o.path.compare(0, 12, "/work/extra/") == 0)) ops.push_back(&o);
                    if (!ops.empty()) { auto* o = ops[r.below(ops.size())]; Fault f = mk(o->n, FA_ERR, o->kind == OP_READ ? EIO : r.below(2) ? EACCES : EMFILE); bool more = false; for (auto& q : trs[i].t) if (q.n == o->n + 1 && q.kind == OP_READ && q.path == o->path) more = true; if (o->kind == OP_READ && more && r.below(2)) { f.act = FA_PARTIAL_ERR; f.arg = 1 + (int64_t)r.below(500); } t.plan.faults.push_back(f); }
                    must = false; c.variant += ": read fault"; break; }
                case 12: { auto lib = libSchemas(); if (lib.empty() || x.empty()) { must = false; break; } st.edits[r.pick(x)].data = "@corpus:" + lib[r.below(lib.size())]; must = false; c.variant += ": library schema"; break; }
                default: { if (t.app == "commsdsl2tools_qt") addFirst({"--protocol", r.below(2) ? "nosuch:Frame:iface" : "::,,:"}); else if (t.app == "commsdsl2comms") addFirst({"--customization", "sometimes"}); must = false; c.variant += ": odd option value"; break; }
                }
                if (must) c.meta["must"] = "1";
                if (r.below(3) == 0) { t.plan.sinkFrom[0] = r.below(2) ? 0 : -1; t.plan.sinkErr[0] = ENOSPC; }
                return c;
            });
        }
}
Verdict judgeC09(const Case& c) {
    Vfs fs = worldBase();
    for (auto& e : c.steps[0].edits) applyEdit(fs, e);
    TreeMap pre; fs.tree(pre);
    Step s2 = c.steps[0]; s2.edits.clear();
    RunResult r = exec(fs, s2);
    if (auto v = precheck(c, r); v.bad) return v;
    if (badEnd(r)) return Verdict::fail(appOf(c) + ": " + endSig(r), appOf(c) + " does not refuse its input cleanly: " + describeEnd(r));
    auto it = c.meta.find("must");
    if (r.code() == 0) {
        if (it != c.meta.end()) return Verdict::fail(appOf(c) + ": accepted: " + c.variant.substr(c.variant.find(':') == std::string::npos ? 0 : c.variant.rfind(':') + 1), appOf(c) + " exits with status 0 although it cannot use its input (" + c.variant + ")");
        g_st->add("accepted"); return Verdict::ok();
    }
    // a refusal: nothing was written before it (the only faults here are on inputs of the preparation)
    g_st->add("refused"); g_st->nontrivial.insert(mix64(hashStr(r.err) ^ r.tasks[0].logHash));
    if (!hasErrorMessage(r.err)) return Verdict::fail(appOf(c) + ": refusal without an error message", appOf(c) + " refuses its input without an error message: " + describeEnd(r));
    for (auto& t : r.tasks) {
        if (!t.escapes.empty()) return Verdict::fail(appOf(c) + ": forbidden effect", appOf(c) + ": " + t.escapes[0]);
        for (auto& m : t.muts) return Verdict::fail(appOf(c) + ": refused after " + mutNames[m.first.second], appOf(c) + " refuses its input only after " + mutNames[m.first.second] + " of " + m.first.first + ": " + describeEnd(r));
    }
    if (pre.size() != r.tree.size()) return Verdict::fail(appOf(c) + ": refused but the tree changed", appOf(c) + " refuses its input but changed the file system");
    return Verdict::ok();
}

// ================================================================== C10: damaged inputs
std::vector<std::pair<size_t, size_t>> tags(const std::string& s) { std::vector<std::pair<size_t, size_t>> r; size_t p = 0; while ((p = s.find('<', p)) != std::string::npos) { size_t e = s.find('>', p); if (e == std::string::npos) break; if (s[p + 1] != '!' && s[p + 1] != '?') r.push_back({p, e + 1}); p = e + 1; } return r; }
struct Attr { size_t b, ve, vb; std::string name; };
std::vector<Attr> attrs(const std::string& s) { std::vector<Attr> r; for (auto& t : tags(s)) { size_t p = t.first; while ((p = s.find("=\"", p)) != std::string::npos && p < t.second) { size_t b = s.find_last_of(" \t\n\r", p); size_t e = s.find('"', p + 2); if (e == std::string::npos) break; if (b != std::string::npos && b > t.first) r.push_back({b, e, p + 2, s.substr(b + 1, p - b - 1)}); p = e + 1; } } return r; }
// end of the element that starts at tag k (index into tags), or npos
size_t elementEnd(const std::string& s, const std::vector<std::pair<size_t, size_t>>& ts, size_t k) { int depth = 0; for (size_t i = k; i < ts.size(); ++i) { bool close = s[ts[i].first + 1] == '/', self = s[ts[i].second - 2] == '/'; if (close) --depth; else if (!self) ++depth; if (depth == 0) return ts[i].second; if (depth < 0) return std::string::npos; } return std::string::npos; }
std::string shapeOf(const std::string& x) { std::string r; for (char ch : x) { char k = isdigit((unsigned char)ch) ? '9' : isalpha((unsigned char)ch) || ch == '_' ? 'a' : ch == ' ' ? 0 : ch; if (k && (r.empty() || r.back() != k)) r += k; } return r; }
// A few characters of a value inserted, removed, exchanged, repeated.
std::string damageValue(std::string v, Rng& g) {
    int m = 1 + (int)g.below(2);
    for (int q = 0; q < m; ++q) {
        size_t at = g.below(v.size() + 1);
        switch (g.below(8)) {
        case 6: case 7: { std::string pc; for (char ch : v) if (!isalnum((unsigned char)ch) && ch != '_' && ch != '&' && ch != ';') pc += ch; if (!pc.empty()) v.insert(at, 1, pc[g.below(pc.size())]); break; }
        case 0: case 1: { static const char cs[] = "[](),.-+0 :;x^@$=&#%/_~19ef"; char ch = g.below(2) && !v.empty() ? v[g.below(v.size())] : cs[g.below(sizeof cs - 1)]; if (ch == '&') ch = '!'; v.insert(at, 1, ch); break; }
        case 2: if (!v.empty()) v.erase(g.below(v.size()), 1); break;
        case 3: if (v.size() > 1) std::swap(v[g.below(v.size())], v[g.below(v.size())]); break;
        case 4: v.resize(at); break;
        default: v.insert(at, g.below(2) ? v : v.substr(g.below(v.size() + 1))); break;
        }
        if (v.size() > 3000) break;
    }
    return v;
}
std::string oddValue(Rng& r, const std::string& doc) {
    auto as = attrs(doc);
    switch (r.below(16)) {
    case 0: return ""; case 1: return "0"; case 2: return "-1"; case 3: return "99999999999999999999999"; case 4: return "18446744073709551615"; case 5: return "-9223372036854775808"; case 6: return "$"; case 7: return "^"; case 8: return std::string(1 + r.below(20000), 'a');
    case 9: return "a.b.c.d"; case 10: return "."; case 11: return "1.5e400"; case 12: return ";,|()=!"; case 13: return "\xc3\xa9\xe2\x82\xac";
    default: if (as.empty()) return "x"; { auto& a = as[r.below(as.size())]; return doc.substr(a.vb, a.ve - a.vb); }
    }
}
} // namespace
std::string damage(const std::string& in, Rng& g, const std::vector<std::string>& others) {
    std::string s = in;
    if (s.empty()) return s;
    int n = 1 + (int)g.below(3);
    if (g.below(3)) {   // structured: still well formed
        for (int k = 0; k < n; ++k) {
            auto ts = tags(s); auto as = attrs(s);
            if (ts.size() < 3) break;
            switch (g.below(15)) {
            case 11: case 12: case 13: case 14: {
                if (as.empty()) break;
                size_t ai = g.below(as.size());
                if (int how = (int)g.below(4)) {
                    // one of each name, or of each form a value has, is as likely as any other
                    std::map<std::string, std::vector<size_t>> by; for (size_t q = 0; q < as.size(); ++q) by[how == 1 ? as[q].name : shapeOf(s.substr(as[q].vb, as[q].ve - as[q].vb))].push_back(q); auto it = by.begin(); std::advance(it, (long)g.below(by.size())); ai = it->second[g.below(it->second.size())]; }
                auto& a = as[ai]; std::string v = damageValue(s.substr(a.vb, a.ve - a.vb), g);
                s.replace(a.vb, a.ve - a.vb, v); break;
            }
            case 0: case 1: case 2: case 3: if (!as.empty()) { auto& a = as[g.below(as.size())]; s.replace(a.vb, a.ve - a.vb, oddValue(g, s)); } break;
            case 4: if (!as.empty()) { auto& a = as[g.below(as.size())]; s.erase(a.b, a.ve + 1 - a.b); } break;
            case 5: if (as.size() > 1) { auto &a = as[g.below(as.size())], &b = as[g.below(as.size())]; std::string t = " " + b.name + "=\"" + oddValue(g, s) + "\""; s.insert(a.ve + 1, t); } break;
            case 6: { size_t i = 1 + g.below(ts.size() - 1); if (s[ts[i].first + 1] == '/') break; size_t e = elementEnd(s, ts, i); if (e != std::string::npos) s.erase(ts[i].first, e - ts[i].first); break; }
            case 7: { size_t i = 1 + g.below(ts.size() - 1); if (s[ts[i].first + 1] == '/') break; size_t e = elementEnd(s, ts, i); if (e == std::string::npos || e - ts[i].first > 20000) break; std::string x = s.substr(ts[i].first, e - ts[i].first); size_t j = 1 + g.below(ts.size() - 1); s.insert(ts[j].first, x); break; }
            case 8: { size_t i = 1 + g.below(ts.size() - 1), j = 1 + g.below(ts.size() - 1); auto nm = [&](size_t q) { size_t b = ts[q].first + 1; if (s[b] == '/') ++b; size_t e = s.find_first_of(" \t\r\n/>", b); return s.substr(b, e - b); }; if (s[ts[i].first + 1] == '/') break; std::string a = nm(i), b = nm(j); size_t e = elementEnd(s, ts, i); if (e == std::string::npos) break; bool self = s[ts[i].second - 2] == '/'; if (!self) { size_t ce = s.rfind("</", e - 1); if (ce != std::string::npos && ce > ts[i].first) s.replace(ce + 2, a.size(), b); } s.replace(ts[i].first + 1, a.size(), b); break; }
            case 9: { size_t i = 1 + g.below(ts.size() - 1); if (s[ts[i].first + 1] == '/') break; size_t e = elementEnd(s, ts, i); if (e == std::string::npos || e - ts[i].first > 4000) break; std::string x = s.substr(ts[i].first, e - ts[i].first); size_t b = x.rfind("</"); if (b == std::string::npos) break; std::string y = x; int d = 1 + (int)g.below(g.below(4) ? 3 : 60); for (int q = 0; q < d && y.size() < 200000; ++q) { size_t bb = y.find('>') + 1; y.insert(bb, x); } s.replace(ts[i].first, x.size(), y); break; }
            default: { if (others.empty()) break; const std::string& o = others[g.below(others.size())]; auto to = tags(o); if (to.size() < 3) break; size_t i = 1 + g.below(to.size() - 1); if (o[to[i].first + 1] == '/') break; size_t e = elementEnd(o, to, i); if (e == std::string::npos || e - to[i].first > 20000) break; s.insert(ts[1 + g.below(ts.size() - 1)].first, o.substr(to[i].first, e - to[i].first)); break; }
            }
        }
        return s;
    }
    for (int k = 0; k < n && !s.empty(); ++k) {
        size_t sz = s.size(), p = g.below(sz), l = std::min(sz - p, (size_t)(g.below(2) ? 512 : 1 + g.below(64)));
        switch (g.below(10)) {
        case 0: s.resize(p); break;
        case 1: s.resize(std::min(sz, (p / 512) * 512)); break;
        case 2: { int m = 1 + (int)g.below(8); for (int q = 0; q < m; ++q) s[g.below(sz)] ^= (char)(1 << g.below(8)); break; }
        case 3: for (size_t q = p; q < p + l; ++q) s[q] = 0; break;
        case 4: for (size_t q = p; q < p + l; ++q) s[q] = (char)g.next(); break;
        case 5: s.insert(g.below(sz), s.substr(p, l)); break;
        case 6: s.erase(p, l); break;
        case 7: { size_t q = g.below(sz); size_t m = std::min(l, sz - q); std::string a = s.substr(p, m); s.replace(q, m, a); break; }
        case 8: if (!others.empty()) { const std::string& o = others[g.below(others.size())]; if (!o.empty()) { size_t q = g.below(o.size()); s.replace(p, l, o.substr(q, l)); } } break;
        default: s = std::string(1 + g.below(5000), (char)(g.below(2) ? 0 : g.next())); break;
        }
    }
    return s;
}
namespace {
void planC10(PlanCtx& cx) {
    prepare(cx, cx.thorough ? 5 : 2, 0.3, 0.0);
    Rng g(subSeed(cx.seed, 10));
    size_t per = (cx.thorough ? 400000u : 16000u) / (scs.size() + 1) + 1;
    for (uint32_t i = 0; i < scs.size(); ++i)
        for (size_t k = 0; k < per; ++k) {
            uint64_t s = g.next();
            cx.add(i, [=] {
                Rng r(s);
                Case c = caseOf("C10", scs[i], "damage");
                auto& st = c.steps[0]; auto& t = st.tasks[0];
                std::vector<std::string> others; { auto lib = libSchemas(); others.push_back(g_corpus.files[lib[r.below(lib.size())]]); others.push_back(g_corpus.files[lib[r.below(lib.size())]]); }
                std::vector<size_t> sch, oth; for (size_t q = 0; q < st.edits.size(); ++q) if (st.edits[q].kind == FsEdit::PUT) (st.edits[q].path.compare(0, 9, "/work/in/") == 0 ? sch : oth).push_back(q);
                if (!sch.empty() && (oth.empty() || r.below(6))) { if (r.below(4) == 0) { auto lib = libSchemas(); st.edits[sch[0]].data = "@corpus:" + lib[r.below(lib.size())]; } auto& e = st.edits[r.below(3) ? sch[0] : r.pick(sch)]; e.data = damage(corpusText(e.data), r, others); }
                else if (!oth.empty()) { auto& e = st.edits[r.pick(oth)]; e.data = damage(corpusText(e.data), r, others); }
                t.args.erase(std::remove(t.args.begin(), t.args.end(), std::string("--warn-as-err")), t.args.end());
                return c;
            });
        }
    // option combinations, on inputs as they are and on damaged ones
    {
        std::vector<std::pair<std::string, std::string>> at;
        for (auto* a = appNames(); *a; ++a) for (auto& t : g_corpus.tests) if (!scenarioDisabled(*a, t)) at.push_back({*a, t});
        for (size_t k = 0; k < (cx.thorough ? 100000u : 6000u) && !at.empty(); ++k) {
            uint64_t s = g.next(); auto x = at[k % at.size()];
            cx.add((uint32_t)(200000 + k % at.size()), [=] {
                Rng r(s);
                Scenario sc = makeScenario(x.first, x.second, 1 + r.below(1000000000));
                bool dmg = r.below(3) == 0;
                Case c = caseOf("C10", sc, dmg ? "damage" : "options");
                auto& st = c.steps[0];
                if (dmg) { std::vector<size_t> q; for (size_t i = 0; i < st.edits.size(); ++i) if (st.edits[i].kind == FsEdit::PUT && st.edits[i].path.compare(0, 9, "/work/in/") == 0) q.push_back(i); if (!q.empty()) { auto& e = st.edits[r.pick(q)]; e.data = damage(corpusText(e.data), r, {}); } auto& a = st.tasks[0].args; a.erase(std::remove(a.begin(), a.end(), std::string("--warn-as-err")), a.end()); }
                return c;
            });
        }
    }
    auto lib = libSchemas();
    int na = 0; while (appNames()[na]) ++na;
    // every form of value that any schema has, damaged on its own
    struct ValueSite { size_t file, attr; };
    std::map<std::string, std::vector<ValueSite>> sites;
    for (size_t f = 0; f < lib.size(); ++f) { const std::string& x = g_corpus.files[lib[f]]; auto as = attrs(x); for (size_t q = 0; q < as.size(); ++q) { size_t b = x.rfind('<', as[q].b); std::string tag = x.substr(b + 1, x.find_first_of(" \t\r\n/>", b) - b - 1); auto& l = sites[tag + " " + as[q].name + " " + shapeOf(x.substr(as[q].vb, as[q].ve - as[q].vb))]; if (l.size() < 40) l.push_back({f, q}); } }
    uint32_t vs = 400000; cx.notes.push_back("forms of values in the schemas: " + std::to_string(sites.size()));
    for (auto& site : sites) {
        ++vs;
        bool plain = site.first.find_last_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ9 ") == std::string::npos;
        for (int k = 0; k < (cx.thorough ? 600 : plain ? 4 : 16); ++k) {
            uint64_t s = g.next(); auto x = site.second[g.below(site.second.size())];
            cx.add(vs, [=] {
                Rng r(s);
                Case c; c.prop = "C10"; c.out = "/work/out"; Step st; c.variant = "value in library schema " + lib[x.file];
                std::string t = g_corpus.files[lib[x.file]]; auto as = attrs(t); auto& a = as[x.attr];
                t.replace(a.vb, a.ve - a.vb, damageValue(t.substr(a.vb, a.ve - a.vb), r));
                st.edits.push_back(put("/work/in/Schema.xml", t));
                Task tk; tk.app = appNames()[r.below((uint64_t)na)]; tk.args = {"-s", "-o", "out", "in/Schema.xml"};
                st.tasks.push_back(tk); c.steps.push_back(st);
                return c;
            });
        }
    }
    // library schemas through every generator, damaged
    for (size_t k = 0; k < (cx.thorough ? 200000u : 8000u) && !lib.empty(); ++k) {
        uint64_t s = g.next();
        cx.add((uint32_t)(100000 + k / 24), [=] {
            Rng r(s);
            Case c; c.prop = "C10"; c.out = "/work/out"; Step st; auto f = lib[r.below(lib.size())];
            c.variant = "library schema " + f;
            std::vector<std::string> others = {g_corpus.files[lib[r.below(lib.size())]], g_corpus.files[lib[r.below(lib.size())]]};
            st.edits.push_back(put("/work/in/Schema.xml", r.below(10) ? damage(g_corpus.files[f], r, others) : g_corpus.files[f]));
            Task t; t.app = appNames()[r.below((uint64_t)na)]; t.args = {"-s", "-o", "out", "in/Schema.xml"};
            st.tasks.push_back(t); c.steps.push_back(st);
            return c;
        });
    }
}
Verdict judgeC10(const Case& c) {
    Vfs fs = worldBase();
    RunResult r = exec(fs, c.steps[0]);
    if (auto v = precheck(c, r); v.bad) return v;
    { uint64_t h = 7; for (auto& e : c.steps[0].edits) h = hashStr(e.data, h); g_st->nontrivial.insert(mix64(h ^ hashStr(appOf(c)))); }
    if (badEnd(r)) return Verdict::fail(appOf(c) + ": " + endSig(r), appOf(c) + " does not survive its input: " + describeEnd(r));
    // An internal error that only the last-resort handler of main() stops is a crash (it aborts where assertions are on);
    // input that cannot be read may end there.
    if (size_t u = r.err.find("Unhandled exception: "); u != std::string::npos) {
        std::string what = r.err.substr(u + 21, r.err.find('\n', u) - u - 21);
        if (what.find("basic_filebuf") == std::string::npos && what.find("filesystem error") == std::string::npos && what.find("iostream error") == std::string::npos)
            return Verdict::fail(appOf(c) + ": exception " + what, appOf(c) + " ends with an unhandled exception: " + what);
    }
    g_st->add(r.code() ? "reported" : "generated");
    if (r.code() && !hasErrorMessage(r.err)) return Verdict::fail(appOf(c) + ": input refused without an error message", appOf(c) + " fails without an error message: " + describeEnd(r));
    return Verdict::ok();
}

// ================================================================== C13: concurrent and repeated generators
void moveOut(Scenario& s, const std::string& outArg) {
    for (size_t a = 0; a + 1 < s.args.size(); ++a) if (s.args[a] == "-o") s.args[a + 1] = outArg;
    s.outArg = outArg; s.out = "/work/" + outArg;
}
// Gives the scenario its own input directories so that several scenarios live in one file system.
void moveInputs(Scenario& s, const std::string& dir) {
    // every task gets its own directory as current directory
    for (auto& e : s.inputs) if (e.path.compare(0, 6, "/work/") == 0) e.path = "/work/" + dir + e.path.substr(5);
}
// Where the generators change data that outlives a run: places worth being interrupted at.
const uint64_t HotEvery = 400;
std::vector<std::array<std::vector<uint64_t>, 2>> hots;
void findHot() {
    hots.assign(scs.size(), {});
    parallelFor(scs.size(), [&](size_t i, std::string& b) {
        Vfs fs = worldBase(); for (auto& e : scs[i].inputs) applyEdit(fs, e);
        Step st; st.tasks = {scs[i].task(), scs[i].task()};
        RunOpts o; o.hotEvery = HotEvery; o.wantTree = false;
        RunResult r = runStep(fs, st, o); g_st->add("reference_runs");
        for (size_t q = 0; q < 2; ++q) { uint64_t n = q < r.tasks.size() ? r.tasks[q].hot.size() : 0; b.append((const char*)&n, 8); if (n) b.append((const char*)r.tasks[q].hot.data(), n * 8); }
    }, [&](size_t i, const std::string& b) {
        const char* p = b.data();
        for (size_t q = 0; q < 2; ++q) { uint64_t n; memcpy(&n, p, 8); p += 8; hots[i][q].resize(n); memcpy((void*)hots[i][q].data(), p, n * 8); p += n * 8; }
    });
}
void planC13(PlanCtx& cx) {
    prepare(cx, cx.thorough ? 4 : 2, 0.4, 0.2);
    Rng g(subSeed(cx.seed, 13));
    findHot();
    { size_t f = 0, l = 0; for (auto& h : hots) { f += h[0].size(); l += h[1].size(); } cx.notes.push_back("windows of " + std::to_string(HotEvery) + " steps in which static data changes: first run of a process " + std::to_string(f) + ", later run " + std::to_string(l)); }
    std::vector<uint32_t> steady; for (uint32_t i = 0; i < hots.size(); ++i) if (!hots[i][1].empty()) steady.push_back(i);
    size_t n = cx.thorough ? 50000 : 2200;
    for (size_t k = 0; k < n + 1500; ++k) {
        bool extra = k >= n; uint32_t i = (uint32_t)(k % scs.size()); uint64_t s = g.next();
        if (extra) { if (steady.empty()) { if (k >= n + 300) break; } else i = steady[k % steady.size()]; }
        cx.add(i, [=] {
            Rng r(s);
            Case c; c.prop = "C13"; c.variant = "concurrent";
            Step st; st.threaded = extra || r.below(4) != 0;
            // Lock step: two generators do the same work side by side, so that they are in the same code at the same time.
            bool lock = extra || (st.threaded && r.below(3) == 0 && trs[i].steps < 30000000);
            int m = lock ? 2 : 2 + (int)r.below(3);
            uint64_t total = 0;
            bool shared = lock || r.below(3) == 0;      // all of them on the same inputs
            for (int q = 0; q < m; ++q) {
                uint32_t j = q == 0 || shared ? i : (uint32_t)r.below(scs.size());
                if (trs[j].steps > 60000000) j = i;
                Scenario sc = scs[j];
                std::string dir = shared ? "p" : "p" + std::to_string(q);
                std::string out = "o" + std::to_string(q); bool sharedParent = r.below(4) == 0 && shared;
                // stale output belongs to its own output directory
                std::vector<FsEdit> ins; for (auto e : sc.inputs) { bool isOut = e.path == sc.out || e.path.compare(0, sc.out.size() + 1, sc.out + "/") == 0; if (isOut && shared) continue; if (isOut) e.path = "/work/" + out + e.path.substr(sc.out.size()); ins.push_back(e); }
                sc.inputs = ins;
                moveInputs(sc, dir);
                std::string oarg = (sharedParent ? "../gen/x/" : "../") + out;
                if (!shared) oarg = out;
                for (size_t a = 0; a + 1 < sc.args.size(); ++a) if (sc.args[a] == "-o") sc.args[a + 1] = oarg;
                Task t = sc.task(); t.knobs.cwd = "/work/" + dir; t.knobs.heapSeed = 1 + r.below(100);
                if (q == 0 || !shared) st.edits.insert(st.edits.end(), sc.inputs.begin(), sc.inputs.end());
                { FsEdit e; e.kind = FsEdit::MKDIR; e.path = t.knobs.cwd; e.mode = 0755; st.edits.push_back(e); }
                if (lock && q == 1 && r.below(2) && !sc.nsOverride && schemaFilesOf(sc).size() == 1) t.args.insert(t.args.begin(), {"-n", "lock_step_ns"});
                if (!lock && r.below(3) == 0 && !sharedParent) { if (r.below(3) == 0) { auto& e = t.args; if (r.below(2)) e.insert(e.begin(), "--no-such-option"); else e.push_back("in/nosuch.xml"); } else { t.plan = randomFaults(r, trs[j], false); t.plan.byteQuota = t.plan.inodeQuota = -1; } }
                c.meta["out" + std::to_string(q)] = shared ? (sharedParent ? "/work/gen/x/" + out : "/work/" + out) : "/work/" + dir + "/" + out;
                c.variant += " " + sc.name; if (lock) c.variant += " lockstep";
                total += trs[j].steps;
                st.tasks.push_back(t);
            }
            for (auto& t : st.tasks) t.knobs.heapSeed = st.tasks[0].knobs.heapSeed;
            auto& hot = hots[i][!hots[i][1].empty() && r.below(4) ? 1 : 0];
            if (lock && !hot.empty() && (extra || r.below(2))) {
                // one of them stops while it works on static data, the other one runs up to such a place, or to its end
                auto at = [&] { uint64_t w = hot[r.below(hot.size())]; return w - r.below(std::min<uint64_t>(w, HotEvery) + 1); };
                uint64_t a = at(), b = r.below(2) ? a + r.below(HotEvery) : at(), t = a;
                st.tp.switches.push_back({a, 1});
                if (r.below(3)) {
                    t += b; uint64_t q = 1 + r.below(r.below(2) ? 10 : 80);
                    if (lock && r.below(2)) for (int z = 0; z < 2000; ++z, t += q) st.tp.switches.push_back({t, z % 2});
                    else st.tp.switches.push_back({t, 0});
                }
                c.variant += " hot";
            } else if (lock) {
                uint64_t q = (r.below(2) ? 20 : 200) * (1 + r.below(20)), n = std::min<uint64_t>(total / q, 20000), a = n < total / q && r.below(3) ? r.below(total - n * q) : 0;
                // before the window they take turns too, coarsely, to arrive there together
                for (uint64_t b = 3000, z = 0; b < a; b += 3000, ++z) st.tp.switches.push_back({b, (int)(z + 1) % 2});
                for (uint64_t z = 0; z < n; ++z) st.tp.switches.push_back({a + (z + 1) * q - (r.below(4) ? 0 : r.below(q)), (int)(z + 1) % 2});
            } else if (st.threaded) {
                int sw = r.below(3) == 0 ? 1 + (int)r.below(6) : r.below(3) ? 50 + (int)r.below(500) : 2000 + (int)r.below(6000);
                std::vector<uint64_t> at; uint64_t lo = 0, hi = total + 1;
                if (r.below(4) == 0) { lo = r.below(total); hi = lo + 1 + r.below(200000); }     // a burst of switches in one place
                for (int q = 0; q < sw; ++q) at.push_back(lo + r.below(hi - lo));
                std::sort(at.begin(), at.end());
                for (auto a : at) st.tp.switches.push_back({a, (int)r.below((uint64_t)m)});
            }
            c.steps.push_back(st); c.out = c.meta["out0"];
            return c;
        });
    }
}
Verdict judgeC13(const Case& c) {
    const Step& st = c.steps[0];
    Vfs fs = worldBase();
    for (auto& e : st.edits) applyEdit(fs, e);
    TreeMap pre; fs.tree(pre);
    Step s2 = st; s2.edits.clear();
    Vfs f2 = fs.clone();
    RunResult r = exec(f2, s2);
    if (auto v = precheck(c, r); v.bad) return v;
    if (badEnd(r)) return Verdict::fail(std::string(st.threaded ? "concurrent: " : "in sequence: ") + endSig(r), "generators run together do not end cleanly: " + c.variant + ": " + describeEnd(r));
    if (!st.threaded) { uint64_t h = 3; for (auto& t : r.tasks) h = mix64(h ^ t.logHash); g_st->nontrivial.insert(h); }
    for (size_t q = 0; q < st.tasks.size(); ++q) {
        auto o = c.meta.find("out" + std::to_string(q)); if (o == c.meta.end()) continue;
        Step alone; alone.tasks.push_back(st.tasks[q]);
        Vfs f3 = fs.clone();
        RunResult a = runStep(f3, alone, RunOpts()); g_st->add("reference_runs");
        if (a.end != END_EXIT) continue;
        if (q >= r.tasks.size() || !r.tasks[q].done) return Verdict::fail(st.tasks[q].app + ": unfinished", st.tasks[q].app + " did not finish");
        const char* how = st.threaded ? "concurrently" : "in sequence";
        if (a.tasks[0].exitCode != r.tasks[q].exitCode) return Verdict::fail(st.tasks[q].app + " " + how + ": exit status", st.tasks[q].app + " run " + how + " with others exits with " + std::to_string(r.tasks[q].exitCode) + " instead of " + std::to_string(a.tasks[0].exitCode) + ": " + describeEnd(r));
        TreeMap x = below(a.tree, o->second), y = below(r.tree, o->second);
        std::string d = overlayDiff(x, y, x, true);
        if (!d.empty()) return Verdict::fail(st.tasks[q].app + " " + how + ": " + diffClass(d), st.tasks[q].app + " run " + how + " with others produces something else than alone: " + d);
    }
    return Verdict::ok();
}

// ================================================================== C14: faults stop, the next run succeeds
void planC14(PlanCtx& cx) {
    prepare(cx, cx.thorough ? 4 : 3, 0.6, 0.3);
    Rng g(subSeed(cx.seed, 14));
    for (uint32_t i = 0; i < scs.size(); ++i)
        for (int k = 0; k < (cx.thorough ? 60 : 4); ++k) {
            uint64_t s = g.next();
            cx.add(i, [=] {
                Rng r(s);
                Case c = caseOf("C14", scs[i], "series");
                const Task t0 = c.steps[0].tasks[0];
                int n = 1 + (int)r.below(4);
                for (int j = 1; j < n; ++j) { Step st; st.tasks.push_back(t0); c.steps.push_back(st); }
                for (auto& st : c.steps) st.tasks[0].plan = randomFaults(r, trs[i], true);
                Step last; last.tasks.push_back(t0); c.steps.push_back(last);
                return c;
            });
        }
}
Verdict judgeC14(const Case& c) {
    auto ref = reference(c.steps[0].tasks[0], c.steps[0].edits, c.out);
    if (!ref->ok) return Verdict::ok();
    Vfs fs = worldBase(); RunResult r; TreeMap pre;
    for (auto& e : c.steps[0].edits) applyEdit(fs, e);
    fs.tree(pre);
    for (size_t i = 0; i < c.steps.size(); ++i) {
        Step st = c.steps[i]; if (i == 0) st.edits.clear();
        r = exec(fs, st, true);
        if (auto v = precheck(c, r); v.bad) return v;
        if (i + 1 < c.steps.size()) { if (r.end == END_SIGNAL || !r.hasFs) return Verdict::ok();     /* an end without report is C02's and C16's business */ g_st->add(r.ok() ? "faulty-runs-successful" : "faulty-runs-failed"); }
    }
    return finalTree(c, *ref, r, &pre, false, "after the faults stopped");
}

// ================================================================== C15: custom source files carried over
std::string wordReplace(const std::string& s, const std::string& from, const std::string& to) {
    std::string o, w = "namespace " + from; size_t p = 0;
    while (true) { size_t q = s.find(w, p); if (q == std::string::npos) break; size_t e = q + w.size(); o.append(s, p, q - p); bool whole = e == s.size() || !(isalnum((unsigned char)s[e]) || s[e] == '_'); o += whole ? "namespace " + to : w; p = e; }
    o.append(s, p, std::string::npos);
    return o;
}
// The schema name of a single-schema scenario.
std::string schemaName(const std::string& xml) { size_t p = xml.find("<schema"); if (p == std::string::npos) return ""; size_t e = xml.find('>', p), q = xml.find("name=\"", p); if (q == std::string::npos || q > e) return ""; return xml.substr(q + 6, xml.find('"', q + 6) - q - 6); }
void planC15(PlanCtx& cx) {
    Rng g(subSeed(cx.seed, 15));
    std::vector<std::pair<std::string, std::string>> at;
    for (auto* a = appNames(); *a; ++a) for (auto& t : g_corpus.tests) if (!scenarioDisabled(*a, t)) at.push_back({*a, t});
    size_t n = cx.thorough ? 40000 : 2600;
    for (size_t i = 0; i < n; ++i) {
        auto x = at[i % at.size()]; uint64_t s = g.next();
        cx.add((uint32_t)(i % at.size()), [=] {
            Rng r(s);
            Scenario q = makeScenario(x.first, x.second, r.below(3) ? 1 + r.below(100000) : 0);
            std::string ns, name;
            { std::vector<std::string> xs; for (auto& e : q.inputs) if (e.kind == FsEdit::PUT && e.path.compare(0, 9, "/work/in/") == 0) xs.push_back(corpusText(e.data)); if (xs.size() == 1) name = schemaName(xs[0]); }
            for (size_t a = 0; a + 1 < q.args.size(); ++a) if (q.args[a] == "-n") ns = q.args[a + 1];
            bool sane = !ns.empty() && ns.find_first_of(":,@./") == std::string::npos;
            for (char ch : name) if (!isalnum((unsigned char)ch) && ch != '_') name.clear();
            if (name.empty() && !ns.empty()) sane = false;
            addExtraFiles(q, r, 1 + (int)r.below(8));
            std::string nm = name.empty() ? "demo" : name;
            size_t nPlain = q.inputs.size(); (void)nPlain;
            if (r.below(2)) {   // source files that mention the protocol namespace
                std::string d = "// x\nnamespace " + nm + "\n{\nnamespace " + nm + "_other { namespace field {} }\n} // namespace " + nm + "\nusing namespace " + nm + ";\n// end namespace " + nm;
                static const char* fn[] = {"/field/Mine.h", "/message/Own.h", "_ext/Side.h", "/Zed.hpp", "2/Other.h"};
                for (auto* f : fn) if (r.below(3) == 0) q.inputs.push_back(put(q.codeDir + "/include/" + nm + f, d + (r.below(5) ? "" : std::string("\0\xff\0 \r\n", 6)) + randomCode(r, r.below(9000)) + (r.below(4) ? "" : d), r.below(5) == 0 ? 0444 : 0644));
            }
            if (r.below(2)) {   // replaces generated files
                auto ref = reference(q.task(), q.inputs, q.out);
                std::vector<std::string> gen; for (auto& e : ref->out) if (e.second.type == NT_FILE) { auto k = e.first.find_last_of('.'); std::string ext = k == std::string::npos ? "" : e.first.substr(k); if (ext == ".h" || ext == ".cpp" || ext == ".txt" || ext == ".c" || ext == ".i" || ext == ".js") gen.push_back(e.first); }
                for (int k = 0; k < 3 && !gen.empty(); ++k) { std::string p = gen[r.below(gen.size())]; if (!ns.empty() && p.compare(0, 8 + ns.size(), "include/" + ns) == 0) continue; q.inputs.push_back(put(q.codeDir + "/" + p, randomCode(r, 1 + r.below(3000)), r.below(4) == 0 ? 0444 : 0644)); }
            }
            Case c; c.prop = "C15"; c.variant = q.name; c.out = q.out;
            c.meta["code"] = q.codeDir; c.meta["name"] = name; c.meta["ns"] = ns; c.meta["sane"] = ns.empty() || sane ? "1" : "0";
            int hist = (int)r.below(3);
            for (int k = 0; k < hist; ++k) {
                Step st; st.edits = replaceInputs(q); st.tasks.push_back(q.task());
                for (auto& e : st.edits) if (e.kind == FsEdit::PUT && e.path.compare(0, 10, "/work/code") == 0 && r.below(2)) { switch (r.below(4)) { case 0: e.data = randomCode(r, 1 + r.below(6000)); break; case 1: { std::string t = corpusText(e.data); if (!t.empty()) t[r.below(t.size())] ^= 1; e.data = t; break; } case 2: e.mode = 0444; break; default: e.mtime = 4102444800LL * 1000000000LL; } }
                st.tasks[0].knobs.dirSeed = r.next();
                if (r.below(4) == 0) { Trace t; t.ops = 600; t.outBytes = 60000; t.outNodes = 60; t.allocs = 20000; st.tasks[0].plan = randomFaults(r, t, true); }
                c.steps.push_back(st);
            }
            Step st; st.edits = replaceInputs(q); st.tasks.push_back(q.task());
            if (hist && r.below(2)) { FsEdit e; e.kind = FsEdit::TWEAK; e.path = q.out; e.data = std::to_string(r.next()) + " 60"; st.edits.push_back(e); }
            auto& t = st.tasks[0];
            if (r.below(3)) t.knobs.dirSeed = r.next() | 1;
            t.knobs.dtUnknown = r.below(3) == 0;
            if (r.below(3)) { t.plan.shortSeed = r.next() | 1; t.plan.shortProb = 0.7; t.plan.shortMax = 1 + (int)r.below(3000); }
            if (!ns.empty() || r.below(2)) for (auto& e : st.edits) if (e.kind == FsEdit::PUT && r.below(4) == 0) e.mtime = (int64_t)r.below(4000000000ULL) * 1000000000LL;
            c.steps.push_back(st);
            return c;
        });
    }
}
bool plainExt(const std::string& p) { std::string b = p.substr(p.find_last_of('/') + 1); auto k = b.find_last_of('.'); if (k == 0) return false; std::string e = k == std::string::npos ? "" : b.substr(k); for (auto* x : {"", ".h", ".cpp", ".txt", ".bin", ".hpp", ".md", ".in", ".py", ".cmake", ".c", ".i", ".js"}) if (e == x) return true; return false; }
Verdict judgeC15(const Case& c) {
    const Step& last = c.steps.back();
    auto M = [&](const char* k) { auto it = c.meta.find(k); return it == c.meta.end() ? std::string() : it->second; };
    std::string code = M("code"), name = M("name"), ns = M("ns");
    auto ref = reference(last.tasks[0], last.edits, c.out);
    if (!ref->ok && ref->rr.end == END_EXIT && ref->rr.code() == 255) { g_st->add("input-refused"); return Verdict::ok(); }
    Vfs fs = worldBase(); RunResult r;
    for (auto& st : c.steps) { r = exec(fs, st, true); if (auto v = precheck(c, r); v.bad) return v; if (&st != &c.steps.back() && !r.hasFs) return Verdict::ok(); }
    if (!r.ok()) return Verdict::fail(appOf(c) + ": fails to carry over custom source files: " + endSig(r) + " code " + std::to_string(r.code()), appOf(c) + " fails: " + describeEnd(r));
    std::map<std::string, std::string> want, linked;
    for (auto& e : last.edits) {
        if (e.kind == FsEdit::REMOVE) { for (auto it = want.begin(); it != want.end();) it = it->first.compare(0, e.path.size(), e.path) == 0 ? want.erase(it) : std::next(it); continue; }
        if (e.kind == FsEdit::PUT && e.path.compare(0, 13, "/work/linked/") == 0) linked[e.path.substr(6)] = corpusText(e.data);
        if ((e.kind != FsEdit::PUT && e.kind != FsEdit::LINK) || e.path.compare(0, code.size() + 1, code + "/") != 0) continue;
        if (e.kind == FsEdit::LINK) { auto k = e.data.find("linked/"); if (k != std::string::npos) want[e.path.substr(code.size() + 1)] = linked[e.data.substr(k)]; continue; }
        want[e.path.substr(code.size() + 1)] = corpusText(e.data);
    }
    size_t n = 0; uint64_t h = 5;
    for (auto& w : want) {
        if (!plainExt(w.first)) continue;
        std::string dst = w.first, data = w.second;
        if (!ns.empty()) {
            if (M("sane") != "1") continue;
            std::string pre = "include/" + name + "/";
            if (ns != name && dst.compare(0, pre.size(), pre) == 0) dst = "include/" + ns + "/" + dst.substr(pre.size());
            if (ns != name) data = wordReplace(data, name, ns);
        }
        NodeP nd = fs.get(c.out + "/" + dst);
        ++n; h = hashStr(dst, hashStr(data, h));
        std::string base = dst.substr(dst.find_last_of('/') + 1);
        if (!nd) return Verdict::fail(appOf(c) + ": custom source file not carried over", appOf(c) + ": " + w.first + " is missing at " + dst);
        if (nd->type != NT_FILE || nd->data != data) return Verdict::fail(appOf(c) + ": custom source file altered", appOf(c) + ": " + w.first + " arrives at " + dst + " with other content (" + std::to_string(nd->data.size()) + " bytes, expected " + std::to_string(data.size()) + ")");
    }
    g_st->add("custom-source-files-compared", n);
    g_st->nontrivial.insert(mix64(h ^ r.tasks.back().logHash));
    return Verdict::ok();
}

// ================================================================== C17: resources
void planC17(PlanCtx& cx) {
    prepare(cx, cx.thorough ? 4 : 2, 0.4, 0.2);
    Rng g(subSeed(cx.seed, 17));
    for (uint32_t i = 0; i < scs.size(); ++i)
        for (int k = 0; k < (cx.thorough ? 80 : 6); ++k) {
            uint64_t s = g.next();
            cx.add(i, [=] {
                Rng r(s);
                Case c = caseOf("C17", scs[i], "repeat");
                auto& st = c.steps[0];
                Task t = st.tasks[0];
                unsigned m = (unsigned)r.below(10);
                if (m < 6) { t.plan = randomFaults(r, trs[i], false); }
                else if (m < 9) {   // refused or damaged input
                    std::vector<size_t> x; for (size_t q = 0; q < st.edits.size(); ++q) if (st.edits[q].path.compare(0, 9, "/work/in/") == 0) x.push_back(q);
                    std::vector<std::string> others; { auto lib = libSchemas(); others.push_back(g_corpus.files[lib[r.below(lib.size())]]); }
                    if (!x.empty()) { auto& e = st.edits[r.pick(x)]; if (r.below(4) == 0) { auto lib = libSchemas(); e.data = "@corpus:" + lib[r.below(lib.size())]; } e.data = damage(corpusText(e.data), r, others); }
                }
                st.tasks = {t, t, t, t};
                return c;
            });
        }
}
Verdict judgeC17(const Case& c) {
    Vfs fs = worldBase();
    RunResult r = exec(fs, c.steps[0]);
    if (auto v = precheck(c, r); v.bad) return v;
    if (r.end == END_HEAP) return Verdict::fail(appOf(c) + ": " + endSig(r), appOf(c) + ": " + r.heapErr);
    if (badEnd(r)) return Verdict::ok();     // judged by C02 and C10
    { uint64_t h = 3; for (auto& t : r.tasks) h = mix64(h ^ t.logHash); g_st->nontrivial.insert(h); }
    for (size_t i = 0; i < r.tasks.size(); ++i) {
        auto& t = r.tasks[i];
        if (t.fdsLeft) return Verdict::fail(appOf(c) + ": descriptors left open", appOf(c) + " leaves " + std::to_string(t.fdsLeft) + " descriptors open (exit status " + std::to_string(t.exitCode) + ")");
        if (t.maxOpen > 16) return Verdict::fail(appOf(c) + ": many files open at once", appOf(c) + " has " + std::to_string(t.maxOpen) + " files open at once");
    }
    if (r.tasks.size() < 4) return Verdict::ok();
    // the first repetitions may fill caches of the program; the last two must not keep anything
    auto &x = r.tasks[2], &y = r.tasks[3];
    // (repetitions that get further than the one before, for instance because the files exist already, run code whose static tables are new)
    bool same = x.logHash == y.logHash && x.exitCode == y.exitCode;
    g_st->add(same ? "identical-repetitions" : "differing-repetitions");
    if (same && (int64_t)y.grownBlocks > 0) return Verdict::fail(appOf(c) + ": memory kept after the work", appOf(c) + " keeps " + std::to_string(y.grownBlocks) + " blocks, " + std::to_string(y.grownBytes) + " bytes per repetition (exit status " + std::to_string(y.exitCode) + "): " + y.leakText.substr(0, 1500));
    return Verdict::ok();
}
} // namespace

const Prop histProps[] = {
    {"C05", planC05, judgeC05, "a case is a run cut off by a simulated crash before or inside one operation (kill or power loss with torn and lost files), possibly several times, followed by an undisturbed run; non-trivial when the crash happened, distinct by operation and fault history", "fault_enumeration"},
    {"C06", planC06, judgeC06, "a case is a history of runs of any generators with other schemas, options and faults and of user edits in one output directory, followed by the judged run; distinct by the content found in the output directory when the judged run starts", "exploration"},
    {"C07", planC07, judgeC07, "a case runs one command in two environments that differ in heap layout, listing order, inode numbers, clock, process id, environment variables, current directory and spelling of paths, all by seed; distinct by those values", "exploration"},
    {"C08", planC08, judgeC08, "a case is one run, with seeded faults, output locations and hostile names, whose mutating calls are all recorded; non-trivial when something was injected", "exploration"},
    {"C09", planC09, judgeC09, "a case is a run with refused input or options; non-trivial when it is refused, distinct by messages and operation history", "exploration"},
    {"C10", planC10, judgeC10, "a case is a run on an input file damaged by seed (storage damage or structured damage); distinct by the damaged content and the generator", "exploration"},
    {"C13", planC13, judgeC13, "a case runs two to four generators in one simulated world, interleaved at basic-block granularity by a seeded schedule or one after another in one process, some of them failing; distinct by interleaving or operation history", "exploration"},
    {"C14", planC14, judgeC14, "a case is a series of one to four runs with transient faults followed by a fault-free run; non-trivial when a fault fired", "exploration"},
    {"C15", planC15, judgeC15, "a case is a custom code tree with seeded files, modes, listing order and earlier runs; distinct by the carried files and the operation history", "exploration"},
    {"C17", planC17, judgeC17, "a case repeats the same (mostly failing) work four times in one simulated process and accounts for descriptors and heap blocks; distinct by operation history", "fault_enumeration"},
};
const size_t nHistProps = sizeof histProps / sizeof histProps[0];
} // namespace sim

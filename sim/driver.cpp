// Command line: check a property, replay a case, list.
#include "prop.h"
#include <algorithm>
#include <cerrno>
#include <cinttypes>
#include <ctime>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <unistd.h>
using namespace sim;

namespace sim {
}

static std::vector<const Prop*> allProps() {
    std::vector<const Prop*> r;
    for (size_t i = 0; i < nFaultProps; ++i) r.push_back(&faultProps[i]);
    for (size_t i = 0; i < nHistProps; ++i) r.push_back(&histProps[i]);
    for (size_t i = 0; i < nLibProps; ++i) r.push_back(&libProps[i]);
    return r;
}
static const Prop* findProp(const std::string& id) { for (auto* p : allProps()) if (id == p->id) return p; return nullptr; }

static std::string verifDir = "/verif";
static std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }

// ------------------------------------------------------------------ minimisation
struct Shrinker {
    const Prop* p; std::string sig; double until; int tries = 0; Case best;
    bool still(const Case& c) { if (nowSec() > until || tries > 600) return false; ++tries; Verdict v = p->judge(c); return v.bad && v.sig == sig; }
    template <class T> void ddmin(std::vector<T> Step::*m, size_t si) {
        size_t n = (best.steps[si].*m).size(), chunk = n / 2; if (!n) return;
        while (chunk >= 1) {
            bool any = false;
            for (size_t i = 0; i < (best.steps[si].*m).size();) {
                Case c = best; auto& v = c.steps[si].*m;
                size_t e = std::min(v.size(), i + chunk);
                v.erase(v.begin() + (long)i, v.begin() + (long)e);
                if (still(c)) { best = c; any = true; } else i += chunk;
                if (nowSec() > until) return;
            }
            if (chunk == 1 && !any) break;
            if (!any) chunk /= 2; else chunk = std::min(chunk, std::max<size_t>(1, (best.steps[si].*m).size() / 2));
            if ((best.steps[si].*m).empty()) break;
        }
    }
    void run() {
        for (size_t si = best.steps.size(); si-- > 0;) if (best.steps.size() > 1) { Case c = best; c.steps.erase(c.steps.begin() + (long)si); if (still(c)) best = c; }
        for (size_t si = 0; si < best.steps.size(); ++si) {
            for (size_t ti = best.steps[si].tasks.size(); ti-- > 0;) {
                for (size_t fi = best.steps[si].tasks[ti].plan.faults.size(); fi-- > 0;) { Case c = best; auto& f = c.steps[si].tasks[ti].plan.faults; f.erase(f.begin() + (long)fi); if (still(c)) best = c; }
                for (size_t fi = 0; fi < best.steps[si].tasks[ti].plan.faults.size(); ++fi) {
                    { Case c = best; auto& f = c.steps[si].tasks[ti].plan.faults[fi]; if (f.sticky) { f.sticky = 0; f.count = 0; if (still(c)) best = c; } }
                    { Case c = best; auto& f = c.steps[si].tasks[ti].plan.faults[fi]; if (f.act == FA_PARTIAL_ERR) { f.act = FA_ERR; f.arg = 0; if (still(c)) best = c; } }
                }
                const Plan dp; const Knobs dk;
                auto tryT = [&](const std::function<void(Task&)>& fn) { Case c = best; fn(c.steps[si].tasks[ti]); if (still(c)) best = c; };
                const Task& t = best.steps[si].tasks[ti];
                if (t.plan.shortSeed) tryT([&](Task& x) { x.plan.shortSeed = 0; });
                if (t.plan.shortSeed && t.plan.eintrProb > 0) tryT([&](Task& x) { x.plan.eintrProb = 0; });
                if (t.plan.byteQuota >= 0) tryT([&](Task& x) { x.plan.byteQuota = -1; });
                if (t.plan.inodeQuota >= 0) tryT([&](Task& x) { x.plan.inodeQuota = -1; });
                if (t.plan.fdLimit != dp.fdLimit) tryT([&](Task& x) { x.plan.fdLimit = 1024; });
                if (t.plan.failAllocAt) { tryT([&](Task& x) { x.plan.failAllocAt = 0; }); tryT([&](Task& x) { x.plan.failAllocSticky = false; x.plan.failAllocMax = 0; }); }
                for (int f = 0; f < 2; ++f) if (t.plan.sinkFrom[f] >= 0) { tryT([&](Task& x) { x.plan.sinkFrom[f] = -1; }); }
                tryT([&](Task& x) { auto cwd = x.knobs.cwd; x.knobs = dk; x.knobs.cwd = cwd; });
                tryT([&](Task& x) { x.knobs.heapSeed = dk.heapSeed; }); tryT([&](Task& x) { x.knobs.dirSeed = 0; }); tryT([&](Task& x) { x.knobs.inoSeed = 0; }); tryT([&](Task& x) { x.knobs.miscSeed = dk.miscSeed; x.knobs.clockBase = 0; x.knobs.clockJump = 0; }); tryT([&](Task& x) { x.knobs.env.clear(); }); tryT([&](Task& x) { x.knobs.dtUnknown = false; }); tryT([&](Task& x) { x.knobs.pid = dk.pid; });
            }
            if (best.steps[si].powerLoss) { Case c = best; c.steps[si].powerLoss = 0; if (still(c)) best = c; }
            ddmin(&Step::edits, si);
            if (best.steps[si].threaded) { auto sw = best.steps[si].tp.switches; for (size_t chunk = std::max<size_t>(1, sw.size() / 2); !best.steps[si].tp.switches.empty(); chunk /= 2) { for (size_t i = 0; i < best.steps[si].tp.switches.size();) { Case c = best; auto& v = c.steps[si].tp.switches; v.erase(v.begin() + (long)i, v.begin() + (long)std::min(v.size(), i + chunk)); if (still(c)) best = c; else i += chunk; } if (chunk == 1) break; } }
        }
    }
};

static std::vector<std::pair<std::string, std::string>> knownFindings(const std::string& prop) {   // (signature, text)
    std::vector<std::pair<std::string, std::string>> r;
    std::ifstream f(verifDir + "/known_findings.txt"); std::string l;
    while (std::getline(f, l)) {
        if (l.compare(0, 9, "finding: ") != 0) continue;
        auto p = l.find("property="), s = l.find(" sig=\""); if (p == std::string::npos || s == std::string::npos) continue;
        if (l.substr(p + 9, s - p - 9) != prop) continue;
        auto e = l.find("\" ", s + 6); if (e == std::string::npos) continue;
        r.push_back({l.substr(s + 6, e - s - 6), l.substr(e + 2)});
    }
    return r;
}

static int check(const Prop* p, uint64_t seed, bool thorough) {
    double t0 = nowSec();
    double limit = thorough ? 6 * 3600.0 : 420.0;
    if (const char* e = getenv("SIM_LIMIT")) limit = atof(e);
    runnerInit();
    PlanCtx cx; cx.seed = seed; cx.thorough = thorough; cx.scale = thorough ? 10 : 1;
    Stats st; g_st = &st;
    p->plan(cx);
    double t1 = nowSec();
    auto known = knownFindings(p->id);
    // groups of at most 24 cases of one scenario
    std::stable_sort(cx.jobs.begin(), cx.jobs.end(), [](const Job& a, const Job& b) { return a.group < b.group; });
    std::vector<std::pair<size_t, size_t>> groups;
    for (size_t i = 0; i < cx.jobs.size();) { size_t j = i; while (j < cx.jobs.size() && cx.jobs[j].group == cx.jobs[i].group && j - i < 24) ++j; groups.push_back({i, j}); i = j; }
    Rng og(seed); og.shuffle(groups);
    struct Bad { size_t job; std::string sig, msg, text; };
    std::vector<Bad> bads; size_t evaluated = 0; std::map<std::string, size_t> sigCount; std::vector<std::string> samples;
    parallelFor(groups.size(), [&](size_t gi, std::string& b) {
        auto ps = [&](const std::string& x) { uint64_t n = x.size(); b.append((const char*)&n, 8); b += x; };
        for (size_t j = groups[gi].first; j < groups[gi].second; ++j) {
            Case c = cx.jobs[j].make();
            size_t before = g_st->nontrivial.size();
            Verdict v = p->judge(c);
            ps(std::to_string(j)); ps(v.bad ? "1" : "0"); ps(v.sig); ps(v.msg); ps(v.bad || (j % 997 == 0 && g_st->nontrivial.size() > before) ? caseToText(c) : "");
        }
    }, [&](size_t, const std::string& b) {
        const char *q = b.data(), *e = q + b.size();
        auto gs = [&]() { uint64_t n; memcpy(&n, q, 8); q += 8; std::string x(q, n); q += n; return x; };
        while (q < e) { size_t j = std::stoul(gs()); bool bad = gs() == "1"; std::string sig = gs(), msg = gs(), text = gs(); ++evaluated; if (bad) { if (sigCount[sig]++ < 3) bads.push_back({j, sig, msg, text}); } else if (!text.empty() && samples.size() < 3) samples.push_back(text); }
    }, t0 + limit);
    double t2 = nowSec();
    std::sort(bads.begin(), bads.end(), [](const Bad& a, const Bad& b) { return a.job < b.job; });
    int violations = 0; bool internal = false;
    std::set<std::string> seenSig; std::map<std::string, size_t> knownHit;
    mkdir((verifDir + "/replays").c_str(), 0755);
    double shrinkUntil = nowSec() + (thorough ? 600 : 120);
    for (auto& b : bads) {
        bool isKnown = false;
        for (auto& k : known) if (k.first == b.sig) { isKnown = true; knownHit[k.first] = sigCount[b.sig]; }
        if (isKnown || !seenSig.insert(b.sig).second) continue;
        static const int maxRep = getenv("SIM_MAXREP") ? atoi(getenv("SIM_MAXREP")) : 8;
        if (violations >= maxRep) { ++violations; printf("further violation: %s\n", b.sig.c_str()); continue; }
        Case c; caseFromText(b.text, c);
        Stats scratch; g_st = &scratch;
        Verdict v1 = p->judge(c), v2 = p->judge(c);
        if (!v1.bad || !v2.bad || v1.sig != b.sig || v2.sig != b.sig || b.sig == "internal") { printf("INTERNAL: case %zu does not repeat exactly: \"%s\" / \"%s\" / \"%s\" %s\n", b.job, b.sig.c_str(), v1.sig.c_str(), v2.sig.c_str(), b.msg.substr(0, 500).c_str()); internal = true; std::ofstream(verifDir + "/replays/internal.replay") << b.text; g_st = &st; continue; }
        Shrinker sh; sh.p = p; sh.sig = b.sig; sh.best = c; sh.until = std::min(shrinkUntil, nowSec() + 25);
        sh.run();
        Verdict vf = p->judge(sh.best);
        g_st = &st;
        Case out = sh.best;
        out.meta["expect"] = b.sig; out.meta["seed"] = std::to_string(seed); out.meta["message"] = vf.bad ? vf.msg : b.msg;
        char name[128]; snprintf(name, sizeof name, "/replays/%s-%016" PRIx64 ".replay", p->id, hashStr(b.sig));
        std::ofstream(verifDir + name) << caseToText(out);
        printf("VIOLATION property=%s replay=%s%s\n", p->id, verifDir.c_str(), name);
        printf("  %s\n  case %zu (%s), seed %" PRIu64 ", %zu occurrences, minimised in %d runs\n", (vf.bad ? vf.msg : b.msg).c_str(), b.job, c.variant.c_str(), seed, sigCount[b.sig], sh.tries);
        ++violations;
    }
    for (auto& k : known) printf("KNOWN-FINDING: property=%s %s%s\n", p->id, k.second.c_str(), knownHit.count(k.first) ? (" [seen " + std::to_string(knownHit[k.first]) + " times in this run]").c_str() : "");
    // coverage of the code under test
    uint64_t blocks = 0; for (size_t i = 0; i < g_covSize; ++i) blocks += g_cov[i];
    if (getenv("SIM_COVDUMP")) {    // every block that was entered in any run, as the address after the callback's call
        std::ofstream cd(getenv("SIM_COVDUMP"));
        for (size_t i = 0; i < g_covSize; ++i) if (g_cov[i]) cd << std::hex << i * 4 << "\n";
    }
    double wall = nowSec() - t0;
    // evidence
    mkdir((verifDir + "/evidence").c_str(), 0755);
    std::ofstream o(verifDir + "/evidence/" + p->id + ".json");
    double runs = (double)st.c["runs"];
    o << "{\n \"property\": \"" << p->id << "\", \"tier\": \"" << (thorough ? "thorough" : "quick") << "\", \"seed\": " << seed << ", \"level\": \"" << p->level << "\",\n \"coverage\": {\n";
    o << "  \"evaluations\": " << evaluated << ",\n  \"distinct_nontrivial\": " << st.nontrivial.size() << ",\n  \"rule\": " << jstr(p->rule) << ",\n";
    o << "  \"cases_planned\": " << cx.jobs.size() << ",\n  \"simulated_runs\": " << (uint64_t)runs << ",\n  \"reference_runs\": " << st.c["reference_runs"] << ",\n  \"runs_per_hour\": " << (uint64_t)(runs / (t2 - t0 + 1e-9) * 3600) << ",\n  \"seeds_per_hour\": " << (uint64_t)((double)evaluated / (t2 - t1 + 1e-9) * 3600) << ",\n";
    o << "  \"simulated_seconds\": " << (double)st.c["simulated_ns"] * 1e-9 << ",\n  \"execution_steps\": " << st.c["steps"] << ",\n  \"system_calls_simulated\": " << st.c["operations"] << ",\n  \"distinct_executions\": " << st.execs.size() << ",\n  \"distinct_interleavings\": " << st.scheds.size() << ",\n  \"basic_blocks_of_code_under_test_reached\": " << blocks << ",\n";
    o << "  \"faults_injected\": {"; { bool first = true; for (auto& x : st.c) if (x.first.compare(0, 6, "fault:") == 0) { o << (first ? "" : ", ") << jstr(x.first.substr(6)) << ": " << x.second; first = false; } } o << "},\n";
    o << "  \"outcomes\": {"; { bool first = true; for (auto& x : st.c) if (x.first.compare(0, 6, "fault:") != 0 && x.first != "runs" && x.first != "steps" && x.first != "simulated_ns" && x.first != "operations" && x.first != "reference_runs") { o << (first ? "" : ", ") << jstr(x.first) << ": " << x.second; first = false; } } o << "},\n";
    o << "  \"notes\": ["; for (size_t i = 0; i < cx.notes.size(); ++i) o << (i ? ", " : "") << jstr(cx.notes[i]); o << "],\n";
    o << "  \"components\": {\"real\": \"all of lib/src and app/*/src of /repo's working tree, libstdc++, libxml2 (memory and I/O through the simulator)\", \"stub\": \"kernel: file system, descriptors, clock, process ids, random numbers, thread scheduler, heap placement\"},\n";
    if (samples.empty() && !cx.jobs.empty()) samples.push_back(caseToText(cx.jobs[0].make()));
    o << "  \"samples\": ["; for (size_t i = 0; i < samples.size(); ++i) o << (i ? ", " : "") << jstr(samples[i].size() > 6000 ? samples[i].substr(0, 6000) + "..." : samples[i]); o << "]\n },\n";
    o << " \"assumptions\": [\"the simulated kernel and file system behave as POSIX allows; errors of close() and of descriptors 0-2 other than lost output are outside the fault model\", \"the fault-free run of the same tree on an empty output directory defines the expected output\"],\n";
    o << " \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
    o.close();
    printf("%s: %zu of %zu cases, %.0f simulated runs, %zu distinct non-trivial, %d violations, plan %.1f s, run %.1f s, total %.1f s\n", p->id, evaluated, cx.jobs.size(), runs, st.nontrivial.size(), violations, t1 - t0, t2 - t1, wall);
    if (getenv("SIM_VERBOSE")) { for (auto& n : cx.notes) printf("  note: %s\n", n.c_str()); for (auto& x : st.c) printf("  %s = %" PRIu64 "\n", x.first.c_str(), x.second); printf("  interleavings %zu, executions %zu, blocks %" PRIu64 "\n", st.scheds.size(), st.execs.size(), blocks); for (auto& x : sigCount) printf("  sig %zu x %s\n", x.second, x.first.c_str()); }
    if (violations) return 1;
    return internal ? 2 : 0;
}

int main(int argc, char** argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::vector<std::string> a(argv + 1, argv + argc);
    if (const char* d = getenv("SIM_VERIF")) verifDir = d;
    g_corpus.load(verifDir + "/corpus");
    std::string cmd = a.empty() ? "" : a[0];
    if (cmd == "check" && a.size() >= 2) {
        const Prop* p = findProp(a[1]); if (!p) { fprintf(stderr, "unknown property\n"); return 2; }
        uint64_t seed = 1; bool th = false;
        if (const char* e = getenv("VERIF_SEED")) seed = strtoull(e, nullptr, 10);
        if (const char* e = getenv("VERIF_TIER")) th = std::string(e) == "thorough";
        if (a.size() > 2) th = a[2] == "thorough";
        return check(p, seed, th);
    }
    if ((cmd == "replay" || cmd == "show") && a.size() >= 2) {
        runnerInit();
        std::ifstream f(a[1]); std::stringstream ss; ss << f.rdbuf();
        Case c; if (!caseFromText(ss.str(), c)) { fprintf(stderr, "not a replay file\n"); return 2; }
        const Prop* p = findProp(c.prop); if (!p) return 2;
        if (cmd == "show") {
            Vfs fs = worldBase();
            for (auto& st : c.steps) { RunResult r = exec(fs, st, true, false, true); printf("-- step %s: %s\n", st.note.c_str(), describeEnd(r).c_str()); for (auto& t : r.tasks) { printf(" task ops=%u steps=%lu allocs=%lu fds=%u grown=%lu/%lu\n", t.ops, t.steps, t.allocs, t.fdsLeft, t.grownBlocks, t.grownBytes); for (auto& s : t.trail) printf("   %s\n", s.c_str()); if (!t.text.empty() && a.size() > 2) printf("%s\n", t.text.c_str()); } if (a.size() > 2) printf("%s\n%s\n%s\n", r.out.c_str(), r.err.c_str(), r.endText.c_str()); }
            return 0;
        }
        Verdict v = p->judge(c);
        if (v.bad) { printf("VIOLATION property=%s replay=%s\n  %s\n  %s\n", c.prop.c_str(), a[1].c_str(), v.sig.c_str(), v.msg.c_str()); if (c.meta.count("expect") && c.meta["expect"] != v.sig) printf("  (recorded as: %s)\n", c.meta["expect"].c_str()); return 1; }
        printf("no violation\n"); return 0;
    }
    if (cmd == "hot" && a.size() >= 4) {      // where static data changes in the first and in the second run of a process
        runnerInit();
        Scenario s = makeScenario(a[1], "gen/" + a[2], std::stoull(a[3]));
        Vfs fs = worldBase(); for (auto& e : s.inputs) applyEdit(fs, e);
        Step st; st.tasks = {s.task(), s.task()}; RunOpts o; o.hotEvery = a.size() > 4 ? std::stoull(a[4]) : 500;
        double t0 = nowSec(); RunResult r = runStep(fs, st, o);
        printf("%.3f s %s\n", nowSec() - t0, r.err.c_str());
        for (auto& t : r.tasks) { printf(" steps %lu, changes in %zu windows:", t.steps, t.hot.size()); for (size_t i = 0; i < t.hot.size() && i < 60; ++i) printf(" %lu", t.hot[i]); printf("\n"); }
        return 0;
    }
    if (cmd == "scen" && a.size() >= 4) { printf("%s", caseToText(caseOf("C01", makeScenario(a[1], "gen/" + a[2], std::stoull(a[3])))).c_str()); return 0; }
    if (cmd == "bench" && a.size() >= 2) {
        runnerInit(); std::ifstream f(a[1]); std::stringstream ss; ss << f.rdbuf(); Case c; caseFromText(ss.str(), c);
        int n = a.size() > 2 ? std::stoi(a[2]) : 100; double t0 = nowSec(); uint64_t st = 0;
        for (int i = 0; i < n; ++i) { Vfs fs = worldBase(); RunResult r = exec(fs, c.steps[0]); st += r.steps; }
        printf("%.3f ms per run, %.0f steps\n", (nowSec() - t0) / n * 1e3, (double)st / n); return 0;
    }
    if (cmd == "determinism") {     // same case many times, in fresh children: must be identical
        runnerInit();
        int bad = 0, n = 0;
        for (auto* ap = appNames(); *ap; ++ap) for (size_t i = 0; i < g_corpus.tests.size(); i += 7) {
            Scenario s = makeScenario(*ap, g_corpus.tests[i], i % 3);
            uint64_t h = 0; for (int k = 0; k < 4; ++k) { Vfs fs = worldBase(); Step st; st.edits = s.inputs; st.tasks.push_back(s.task()); RunResult r = exec(fs, st); ++n; if (h && h != r.hash()) { ++bad; printf("differs: %s\n", s.name.c_str()); } h = r.hash(); }
        }
        printf("%d runs, %d differ\n", n, bad); return bad != 0;
    }
    fprintf(stderr, "usage: simrun check <property> [quick|thorough] | replay <file> | show <file> | determinism\n");
    return 2;
}

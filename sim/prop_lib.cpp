// C11, C12: parser objects of the library, driven through its public interface (see lib_workload.cpp).
#include "prop.h"
#include <algorithm>
#include <cerrno>
#include <sstream>

namespace sim {
namespace {

std::string text(const std::string& f) { return g_corpus.files[f]; }
std::vector<std::string> schemaPool() { std::vector<std::string> v; for (auto& f : g_corpus.files) if (f.first.size() > 4 && f.first.compare(f.first.size() - 4, 4, ".xml") == 0) v.push_back(f.first); return v; }
std::string num(uint64_t n) { return std::to_string(n); }

// What is wrong with an XML file at the level of the XML reader
std::string breakXml(const std::string& in, Rng& r) {
    std::string s = in;
    switch (r.below(8)) {
    case 0: return s.substr(0, r.below(s.size() + 1));
    case 1: { size_t p = s.rfind("</"); return p == std::string::npos ? s + "<" : s.substr(0, p) + "</mismatch>" + s.substr(p); }
    case 2: { size_t p = s.find('>', s.size() / 3); return p == std::string::npos ? s : s.insert(p + 1, "&nosuch; <a b=c> & "); }
    case 3: { size_t p = s.find("=\""); return p == std::string::npos ? s : s.erase(p + 1, 1); }
    case 4: return "";
    case 5: { for (int i = 0; i < 8 && !s.empty(); ++i) s[r.below(s.size())] = (char)r.below(256); return s; }
    case 6: return s + s;
    default: { size_t p = s.find("<schema"); return p == std::string::npos ? s : s.insert(p, "<!DOCTYPE schema [<!ENTITY e \"x\"><!ENTITY e \"y\">]>\n<?pi ?>"); }
    }
}

struct Group {
    std::vector<FsEdit> edits;
    std::vector<std::string> paths;                  // candidates for loading
    std::vector<std::vector<std::string>> tmpl;      // C11: scripts of one object, "@" stands for its number
    std::vector<int> good;
};

std::vector<Group> groups;
std::vector<FsEdit> worldFor(Rng& r, std::vector<std::string>& paths, std::vector<int>& good) {
    auto pool = schemaPool();
    std::vector<FsEdit> e;
    int n = 5 + (int)r.below(5);
    std::vector<std::string> others;
    for (int i = 0; i < 2; ++i) others.push_back(text(pool[r.below(pool.size())]));
    for (int i = 0; i < n; ++i) {
        std::string p = "s/" + num((uint64_t)i) + ".xml";
        std::string f = pool[r.below(pool.size())];
        unsigned k = (unsigned)r.below(10);
        if (k < 5 || i < 2) { e.push_back(put("/work/" + p, "@corpus:" + f)); good.push_back((int)paths.size()); }
        else if (k < 8) e.push_back(put("/work/" + p, damage(text(f), r, others)));
        else e.push_back(put("/work/" + p, breakXml(text(f), r)));
        paths.push_back(p);
    }
    paths.push_back("s/missing.xml");
    { FsEdit d; d.kind = FsEdit::MKDIR; d.path = "/work/s/dir.xml"; d.mode = 0755; e.push_back(d); }
    paths.push_back("s/dir.xml");
    { FsEdit d = put("/work/s/locked.xml", "@corpus:" + pool[r.below(pool.size())], 0); e.push_back(d); }
    paths.push_back("s/locked.xml");
    return e;
}
std::vector<std::string> objectScript(const Group& g, Rng& r, bool cb) {
    std::vector<std::string> s{"new @"};
    auto file = [&]() { return r.below(5) < 3 ? g.paths[(size_t)g.good[r.below(g.good.size())]] : g.paths[r.below(g.paths.size())]; };
    if (cb) s.push_back("cb @ t" + num(r.below(9)));
    if (r.below(2)) s.push_back("multi @ 1");
    if (r.below(4) == 0) s.push_back("prefix @ my_");
    int n = 1 + (int)r.below(3);
    for (int i = 0; i < n; ++i) { s.push_back("parse @ " + file()); if (cb && r.below(6) == 0) s.push_back("cb @ u" + num(r.below(9))); }
    if (r.below(12) == 0) s.push_back("dump @");
    s.push_back("validate @"); s.push_back("dump @");
    if (r.below(4) == 0) s.push_back("parse @ " + file());
    if (r.below(3) == 0) { static const char* refs[] = {"MsgId", "Field1", "ns1.Field2", "nosuch.field", "f1", ""}; s.push_back(std::string("find @ ") + refs[r.below(6)]); }
    if (r.below(2)) s.push_back("redump @");
    if (r.below(8) == 0) s.push_back("validate @");
    if (r.below(3)) s.push_back("del @");
    return s;
}

struct LibRef { bool ok = false; std::string log, err; uint64_t steps = 0, ops = 0; };
std::vector<std::string> forObj(const std::vector<std::string>& t, int k) { std::vector<std::string> o; for (auto s : t) { size_t p = s.find('@'); if (p != std::string::npos) s.replace(p, 1, num((uint64_t)k)); o.push_back(s); } return o; }
std::map<int, std::string> sections(const std::string& t) {
    std::map<int, std::string> m; std::istringstream in(t); std::string l; int k = -1;
    while (std::getline(in, l)) { if (l.compare(0, 3, "== ") == 0) { k = atoi(l.c_str() + 3); m[k]; } else m[k] += l + "\n"; }
    return m;
}
LibRef alone(const std::vector<FsEdit>& edits, const std::vector<std::string>& script) {
    static std::map<uint64_t, LibRef> cache;
    uint64_t h = 99; for (auto& e : edits) { h = hashStr(e.path, h); h = hashStr(e.data, h); h = mix64(h ^ e.mode); } for (auto& s : script) h = hashStr(s, h);
    auto it = cache.find(h); if (it != cache.end()) return it->second;
    Step st; st.edits = edits; Task t; t.app = "lib"; t.args = script; st.tasks.push_back(t);
    Vfs fs = worldBase();
    RunResult r = exec(fs, st);
    LibRef f; f.ok = r.exited() && r.tasks.size() == 1 && r.tasks[0].done; if (f.ok) { f.log = sections(r.tasks[0].text)[0]; f.steps = r.tasks[0].steps; f.ops = r.tasks[0].ops; } f.err = r.err;
    if (cache.size() > 4000) cache.clear();
    return cache[h] = f;
}
std::string firstDiff(const std::string& a, const std::string& b) {
    std::istringstream x(a), y(b); std::string l, m; int n = 0;
    while (true) { bool p = (bool)std::getline(x, l), q = (bool)std::getline(y, m); ++n; if (!p && !q) return "no difference"; if (!p) l = "(end)"; if (!q) m = "(end)"; if (l != m) { size_t i = 0; while (i < l.size() && i < m.size() && l[i] == m[i]) ++i; i = i > 60 ? i - 60 : 0; return "line " + num((uint64_t)n) + ": alone \"" + l.substr(i, 160) + "\", now \"" + m.substr(i, 160) + "\""; } }
}
std::string kindOf(const std::string& d) { return d.find("validate") != std::string::npos ? "result of validation" : d.find("parse") != std::string::npos || d.find("pf ") != std::string::npos ? "result of loading" : d.find('|') != std::string::npos ? "diagnostics" : "schema"; }

// ================================================================== C11
void planC11(PlanCtx& cx) {
    Rng g(subSeed(cx.seed, 11));
    size_t ng = cx.thorough ? 1500 : 450, per = cx.thorough ? 100 : 50;
    groups.clear();
    for (size_t i = 0; i < ng; ++i) { Group q; q.edits = worldFor(g, q.paths, q.good); for (int k = 0; k < 14; ++k) q.tmpl.push_back(objectScript(q, g, k != 13)); groups.push_back(q); }
    for (size_t i = 0; i < ng; ++i)
        for (size_t k = 0; k < per; ++k) {
            uint64_t s = g.next();
            cx.add((uint32_t)i, [=] {
                Rng r(s); const Group& q = groups[i];
                Case c; c.prop = "C11"; c.variant = "objects"; c.out = "/work/out";
                Step st; st.edits = q.edits;
                int m = r.below(5) < 2 ? 1 : 2 + (int)r.below(3);
                st.threaded = m > 1 && r.below(5) != 0;
                int id = 0; bool usedNoCb = false; uint64_t total = 0;
                for (int t = 0; t < m; ++t) {
                    Task tk; tk.app = "lib";
                    int n = (m == 1 ? 2 : 1) + (int)r.below(3);
                    std::vector<std::vector<std::string>> obj; std::vector<int> ids;
                    for (int o = 0; o < n; ++o) {
                        size_t ti = r.below(q.tmpl.size()); if (ti == 13) { if (usedNoCb) ti = 0; else usedNoCb = true; }
                        auto a = alone(q.edits, forObj(q.tmpl[ti], 0)); if (!a.ok) continue;
                        total += a.steps;
                        c.meta["obj" + num((uint64_t)id)] = ""; for (auto& l : q.tmpl[ti]) c.meta["obj" + num((uint64_t)id)] += l + "\n";
                        obj.push_back(forObj(q.tmpl[ti], id)); ids.push_back(id); ++id;
                    }
                    // nested use: some operations of one object are performed from the callback of another one
                    int host = -1, guest = -1;
                    if (obj.size() > 1 && r.below(3) == 0) { host = (int)r.below(obj.size()); guest = (int)((size_t)(host + 1 + (int)r.below(obj.size() - 1)) % obj.size()); }
                    std::vector<size_t> at(obj.size(), 0); size_t left = 0; for (auto& o : obj) left += o.size();
                    if (guest >= 0) {
                        auto &G = obj[(size_t)guest], &H = obj[(size_t)host]; std::vector<std::string> s2; unsigned cnt = 1;
                        // the guest runs entirely within the callbacks of the host
                        s2 = {H[0]}; size_t hb = 1; if (hb < H.size() && H[hb].compare(0, 3, "cb ") == 0) s2.push_back(H[hb++]);
                        for (auto& l : G) { if (r.below(2)) cnt += (unsigned)r.below(4); s2.push_back("nest " + num((uint64_t)ids[(size_t)host]) + " " + num(cnt) + " " + l); }
                        for (; hb < H.size(); ++hb) { if (H[hb].compare(0, 3, "del") == 0) s2.push_back("flush " + num((uint64_t)ids[(size_t)host])); s2.push_back(H[hb]); }
                        s2.push_back("flush " + num((uint64_t)ids[(size_t)host]));
                        left -= G.size(); left += s2.size() - H.size(); H = s2; G.clear();
                    }
                    unsigned style = (unsigned)r.below(3);   // random interleaving, in turns, bursts
                    size_t cur = 0;
                    while (left) {
                        if (style == 0) cur = r.below(obj.size()); else if (style == 1) cur = (cur + 1) % obj.size(); else if (r.below(4) == 0) cur = r.below(obj.size());
                        if (at[cur] >= obj[cur].size()) { cur = (cur + 1) % obj.size(); if (at[cur] >= obj[cur].size()) continue; }
                        tk.args.push_back(obj[cur][at[cur]++]); --left;
                    }
                    if (r.below(4) == 0) { tk.plan.shortSeed = 1 + r.next(); tk.plan.shortProb = 0.5; tk.plan.shortMax = 1 + (int)r.below(300); if (tk.plan.shortMax == 1) tk.plan.shortProb = 0.9; tk.plan.xferWrites = false; }
                    tk.knobs.heapSeed = 1 + r.below(50);
                    if (!tk.args.empty()) st.tasks.push_back(tk);
                }
                if (st.tasks.empty()) { Task tk; tk.app = "lib"; st.tasks.push_back(tk); }
                if (st.tasks.size() < 2) st.threaded = false;
                for (auto& t : st.tasks) t.knobs.heapSeed = st.tasks[0].knobs.heapSeed;
                if (st.threaded) {
                    int sw = r.below(3) == 0 ? 1 + (int)r.below(6) : r.below(3) ? 20 + (int)r.below(300) : 500 + (int)r.below(3000);
                    std::vector<uint64_t> at; uint64_t lo = 0, hi = total + 1;
                    if (r.below(3) == 0) { lo = r.below(total + 1); hi = lo + 1 + r.below(50000); }
                    for (int x = 0; x < sw; ++x) at.push_back(lo + r.below(hi - lo));
                    std::sort(at.begin(), at.end());
                    for (auto a : at) st.tp.switches.push_back({a, (int)r.below(st.tasks.size())});
                }
                c.steps.push_back(st);
                return c;
            });
        }
}
Verdict judgeC11(const Case& c) {
    Vfs fs = worldBase();
    RunResult r = exec(fs, c.steps[0]);
    if (badEnd(r)) {
        for (auto& m : c.meta) if (m.first.compare(0, 3, "obj") == 0) { std::vector<std::string> t; std::istringstream in(m.second); std::string l; while (std::getline(in, l)) t.push_back(l); if (!alone(c.steps[0].edits, forObj(t, 0)).ok) return Verdict::ok(); }
        return Verdict::fail("parser objects together: " + endSig(r), "parser objects that work alone fail together: " + describeEnd(r));
    }
    std::map<int, std::string> got;
    for (auto& t : r.tasks) for (auto& s : sections(t.text)) got[s.first] = s.second;
    // the operations as they stand in the case (which may have been minimised): nested ones belong to their object
    std::map<int, std::vector<std::string>> ops; std::map<int, std::vector<std::string>> pend; bool lost = false;
    auto put1 = [&](const std::string& l) { std::istringstream in(l); std::string w; int k; in >> w >> k; std::string n = l; size_t p = n.find(' ') + 1, q = n.find(' ', p); n.replace(p, (q == std::string::npos ? n.size() : q) - p, "0"); ops[k].push_back(n); };
    for (auto& t : c.steps[0].tasks) for (auto& l : t.args) {
        if (l.compare(0, 5, "nest ") == 0) { std::istringstream in(l); std::string w, rest; int k, n; in >> w >> k >> n; std::getline(in, rest); pend[k].push_back(rest.substr(rest.find_first_not_of(' '))); }
        else if (l.compare(0, 6, "flush ") == 0) { int k = atoi(l.c_str() + 6); for (auto& x : pend[k]) put1(x); pend[k].clear(); }
        else put1(l);
    }
    for (auto& p : pend) if (!p.second.empty()) lost = true;
    if (lost) return Verdict::ok();
    std::string err;
    for (auto& o : ops) {
        LibRef a = alone(c.steps[0].edits, o.second);
        if (!a.ok) return Verdict::ok();
        err += a.err;
        if (a.log != got[o.first]) { auto d = firstDiff(a.log, got[o.first]); return Verdict::fail("parser object is influenced by others: " + kindOf(d), "parser object " + num((uint64_t)o.first) + " does not behave as it does alone: " + d); }
        g_st->add("parser objects compared");
    }
    if (err != r.err) return Verdict::fail("diagnostics at the wrong destination", "standard error differs from the one of the objects alone: " + firstDiff(err, r.err));
    g_st->add(c.steps[0].threaded ? "threaded histories" : "single-threaded histories");
    return Verdict::ok();
}

// ================================================================== C12
void planC12(PlanCtx& cx) {
    Rng g(subSeed(cx.seed, 12));
    size_t ng = cx.thorough ? 1500 : 500, per = cx.thorough ? 150 : 60;
    groups.clear();
    for (size_t i = 0; i < ng; ++i) { Group q; q.edits = worldFor(g, q.paths, q.good); groups.push_back(q); }
    for (size_t i = 0; i < ng; ++i)
        for (size_t k = 0; k < per; ++k) {
            uint64_t s = g.next();
            cx.add((uint32_t)i, [=] {
                Rng r(s); const Group& q = groups[i];
                Case c; c.prop = "C12"; c.variant = "failed loads"; c.out = "/work/out";
                Step st; st.edits = q.edits; Task t; t.app = "lib"; auto& a = t.args;
                a.push_back("new 0"); a.push_back("cb 0 t");
                if (r.below(2)) a.push_back("multi 0 1");
                if (r.below(4) == 0) a.push_back("prefix 0 my_");
                int n = 2 + (int)r.below(5);
                for (int x = 0; x < n; ++x) {
                    std::string f = r.below(5) < 2 ? q.paths[(size_t)q.good[r.below(q.good.size())]] : q.paths[r.below(q.paths.size())];
                    std::string fault = " 1000000000 1 5 0";
                    switch (r.below(6)) {
                    case 0: fault = " " + num(1 + r.below(10)) + " 1 " + num((uint64_t)std::vector<int>{EIO, EACCES, EMFILE, ENOMEM, ENOENT, EISDIR}[r.below(6)]) + " 0"; f = q.paths[(size_t)q.good[r.below(q.good.size())]]; break;
                    case 1: fault = " " + num(6 + r.below(3)) + " 5 5 " + num(1 + r.below(3000)); f = q.paths[(size_t)q.good[r.below(q.good.size())]]; break;
                    case 2: if (r.below(2)) fault = " " + num(1 + (r.below(3) ? r.below(60) : r.below(4000))) + " 0 0 " + num(r.below(2)); f = q.paths[(size_t)q.good[r.below(q.good.size())]]; break;
                    default: break;
                    }
                    a.push_back("pf 0 " + f + fault);
                    if (r.below(4) == 0) a.push_back("pf 0 " + f + " 1000000000 1 5 0");     // tried again at once
                    if (r.below(9) == 0) { a.push_back("validate 0"); a.push_back("dump 0"); }
                }
                a.push_back("validate 0"); a.push_back("dump 0");
                if (r.below(5) == 0) { a.push_back("pf 0 " + q.paths[r.below(q.paths.size())] + " 1000000000 1 5 0"); a.push_back("redump 0"); a.push_back("dump 0"); }
                t.knobs.heapSeed = 1 + r.below(50);
                if (r.below(4) == 0) { t.plan.shortSeed = 1 + r.next(); t.plan.shortProb = 0.5; t.plan.shortMax = 2 + (int)r.below(300); t.plan.xferWrites = false; }
                st.tasks.push_back(t); c.steps.push_back(st);
                return c;
            });
        }
}
Verdict judgeC12(const Case& c) {
    Vfs fs = worldBase();
    RunResult r = exec(fs, c.steps[0]);
    auto& args = c.steps[0].tasks[0].args;
    std::string log = r.tasks.empty() ? "" : sections(r.tasks[0].text)[0];
    // outcomes of the loads, in order; and the log without the failed ones
    std::vector<bool> outcome; std::string clean, l; std::string block; bool in = false; std::istringstream is(log);
    while (std::getline(is, l)) {
        if (l == "{") { in = true; block = "{\n"; continue; }
        if (l == "}") { block += "}\n"; continue; }
        if (in && l.compare(0, 3, "pf ") == 0) { in = false; bool okv = l.size() > 5 && l.find("-> 1") != std::string::npos; outcome.push_back(okv); if (okv) clean += block + l + "\n"; continue; }
        (in ? block : clean) += l + "\n";
    }
    std::vector<std::string> script; size_t k = 0; unsigned failed = 0;
    if (!badEnd(r)) {
        for (auto& a : args) {
            if (a.compare(0, 3, "pf ") != 0) { script.push_back(a); continue; }
            if (k >= outcome.size()) return Verdict::fail("lost operation", "the log does not show every load");
            if (outcome[k++]) { std::istringstream x(a); std::string w, f; int n; x >> w >> n >> f; script.push_back("pf 0 " + f + " 1000000000 1 5 0"); } else ++failed;
        }
        LibRef a = alone(c.steps[0].edits, script);
        if (!a.ok) return Verdict::ok();
        if (a.log != clean) { auto d = firstDiff(a.log, clean); return Verdict::fail("failed load has an effect: " + kindOf(d), "after failed loads the parser differs from one that never saw them: " + d); }
        if (r.err != a.err) return Verdict::fail("failed load writes to standard error", "standard error: " + r.err.substr(0, 300));
        g_st->add("failed loads", failed); g_st->add("successful loads", outcome.size() - failed);
        return Verdict::ok();
    }
    // crashed: is it the schemas themselves (then it is no effect of the failed loads)?
    for (auto& a : args) { if (a.compare(0, 3, "pf ") != 0) { script.push_back(a); continue; } std::istringstream x(a); std::string w, f; int n; x >> w >> n >> f; script.push_back("pf 0 " + f + " 1000000000 1 5 0"); }
    if (!alone(c.steps[0].edits, script).ok) return Verdict::ok();
    return Verdict::fail("failed load: " + endSig(r), "history with failed loads: " + describeEnd(r));
}
} // namespace

const Prop libProps[] = {
    {"C11", planC11, judgeC11, "execution of a history of operations on several parser objects, in one or several threads", "exploration"},
    {"C12", planC12, judgeC12, "execution of a history with failed loads", "exploration"},
};
const size_t nLibProps = 2;
} // namespace sim

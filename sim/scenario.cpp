#include "prop.h"
#include <algorithm>
#include <sstream>
#include <libxml/parser.h>
#include <libxml/tree.h>

namespace sim {

Vfs worldBase() {
    Vfs v;
    v.mkdirs("/work/in"); v.mkdirs("/tmp"); v.mkdirs("/home/user"); v.mkdirs("/etc"); v.mkdirs("/var/tmp"); v.mkdirs("/usr/bin");
    v.put("/work/notes.txt", "bystander\n"); v.put("/home/user/precious.txt", "bystander\n"); v.put("/etc/passwd", "user:x:1000:1000::/home/user:/bin/sh\n");
    v.put("/work/other/include/keep.h", "// other project\n");
    return v;
}

bool scenarioDisabled(const std::string& app, const std::string& test) { return g_corpus.files.count(test + "/" + app + "/disabled.txt") > 0; }

static std::vector<std::string> corpusUnder(const std::string& pre) {
    std::vector<std::string> r;
    for (auto it = g_corpus.files.lower_bound(pre); it != g_corpus.files.end() && it->first.compare(0, pre.size(), pre) == 0; ++it) r.push_back(it->first);
    return r;
}

static void collectElements(xmlNodePtr n, const std::string& ns, std::vector<std::string>& out, const std::string& kind) {
    for (; n; n = n->next) {
        if (n->type != XML_ELEMENT_NODE) continue;
        std::string el = (const char*)n->name;
        auto nameOf = [&]() -> std::string {
            if (auto* p = xmlGetProp(n, (const xmlChar*)"name")) { std::string s = (const char*)p; xmlFree(p); return s; }
            for (auto* c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE && !xmlStrcmp(c->name, (const xmlChar*)"name")) if (auto* p = xmlGetProp(c, (const xmlChar*)"value")) { std::string s = (const char*)p; xmlFree(p); return s; }
            return "";
        };
        if (el == kind) { auto s = nameOf(); if (!s.empty()) out.push_back(ns.empty() ? s : ns + "." + s); }
        else if (el == kind + "s") collectElements(n->children, ns, out, kind);
        else if (el == "ns") { auto s = nameOf(); collectElements(n->children, ns.empty() ? s : ns + "." + s, out, kind); }
    }
}
std::vector<std::string> schemaElements(const std::vector<std::string>& xmls, const std::string& kind) {
    std::vector<std::string> out;
    for (auto& x : xmls) {
        xmlDocPtr d = xmlReadMemory(x.data(), (int)x.size(), "s", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
        if (!d) continue;
        if (auto* r = xmlDocGetRootElement(d)) collectElements(r->children, "", out, kind);
        xmlFreeDoc(d);
    }
    return out;
}

std::vector<std::string> schemaMessages(const std::vector<std::string>& xmls) { return schemaElements(xmls, "message"); }
// Version of the last schema as written in its text, 0 if there is none.
static unsigned schemaVersion(const std::vector<std::string>& xmls) {
    if (xmls.empty()) return 0;
    const std::string& x = xmls.back(); size_t b = x.find("<schema"); if (b == std::string::npos) return 0;
    size_t e = x.find('>', b), v = x.find(" version=\"", b);
    if (v == std::string::npos || v > e) return 0;
    return (unsigned)strtoul(x.c_str() + v + 10, nullptr, 10);
}

std::string randomCode(Rng& g, size_t n) {
    std::string s;
    if (g.below(5) == 0) s += "// #include <vector>\n";
    while (s.size() < n) {
        switch (g.below(8)) {
        case 0: s += "// line " + std::to_string(g.next() % 100000) + "\n"; break;
        case 1: s += "\n"; break;
        case 2: s += "\tint x" + std::to_string(g.below(1000)) + " = 0; \n"; break;
        case 3: s += "static constexpr bool V" + std::to_string(g.below(1000)) + " = true;\r\n"; break;
        case 4: s += "    /* \xc3\xa9\xc2\xb5 */\n"; break;
        case 5: { s += "// "; for (int i = 0; i < 40; ++i) s += (char)('a' + g.below(26)); s += "\n"; break; }
        case 6: s += "void f" + std::to_string(g.below(1000)) + "();\n\n\n"; break;
        default: s += "#define M" + std::to_string(g.below(1000)) + " \\\n    1\n"; break;
        }
    }
    if (s.size() > n) s.resize(n);
    if (s.empty()) s = "x";
    return s;
}

Scenario makeScenario(const std::string& app, const std::string& test, uint64_t variant) {
    Scenario s;
    s.app = app; s.test = test; s.name = app + "/" + test.substr(4) + "/v" + std::to_string(variant);
    Rng g(hashStr(s.name) ^ variant);
    std::vector<std::string> schemas, xmls;
    for (auto& f : corpusUnder(test + "/Schema")) { std::string rel = f.substr(test.size() + 1); s.inputs.push_back(put("/work/in/" + rel, "@corpus:" + f)); schemas.push_back("in/" + rel); xmls.push_back(g_corpus.files[f]); }
    // custom code of the repository's own test
    std::string src = test + "/" + app + "/src/";
    auto code = corpusUnder(src);
    if (code.empty() && app == "commsdsl2swig") { src = "gen/swig_common/src/"; code = corpusUnder(src); }
    bool useCode = !code.empty() && (variant == 0 || g.below(3) != 0);
    if (variant && !useCode && g.below(2) == 0) { s.codeDir = "/work/code"; FsEdit e; e.kind = FsEdit::MKDIR; e.path = s.codeDir; e.mode = 0755; s.inputs.push_back(e); }
    if (useCode) { s.codeDir = "/work/code"; for (auto& f : code) s.inputs.push_back(put("/work/code/" + f.substr(src.size()), "@corpus:" + f)); }
    auto& a = s.args;
    std::vector<std::string> params;
    { auto it = g_corpus.files.find(test + "/" + app + "/" + app + ".params"); if (it != g_corpus.files.end()) { std::istringstream is(it->second); std::string w; while (is >> w) params.push_back(w); } }
    auto has = [&](const std::string& o) { return std::find(params.begin(), params.end(), o) != params.end(); };
    bool multi = schemas.size() > 1;
    auto msgs = schemaMessages(xmls);
    if (variant == 0) {
        if (app == "commsdsl2comms" || app == "commsdsl2c") a.push_back("-d");
        a.insert(a.end(), {"-s", "--warn-as-err", "--code-inject-comments"});
    } else {
        if (g.below(3) == 0) a.push_back("-d"); else if (g.below(4) == 0) a.push_back("-q");
        if (multi || g.below(2)) a.push_back("-s");
        if (g.below(3) == 0) a.push_back("--warn-as-err");
        if (g.below(2)) a.push_back("--code-inject-comments");
    }
    if (!s.codeDir.empty()) { a.push_back("-c"); a.push_back("code"); }
    auto listFile = [&](const std::string& name, const std::vector<std::string>& l) { std::string t; for (auto& x : l) t += x + (g.below(4) == 0 ? "\r\n" : "\n"); s.inputs.push_back(put("/work/lists/" + name, t)); return "lists/" + name; };
    bool bundles = false;
    if (app == "commsdsl2comms") {
        std::string v;
        for (auto& f : corpusUnder(test + "/" + app + "/extra/")) { std::string n = f.substr(f.find_last_of('/') + 1); s.inputs.push_back(put("/work/extra/" + n, "@corpus:" + f)); v += (v.empty() ? "" : ",") + ("extra/" + n); }
        if (v.empty() && variant && !multi && !msgs.empty() && g.below(3) == 0) {
            std::vector<std::string> l; for (auto& m : msgs) if (g.below(2)) l.push_back(m);
            if (!l.empty()) v = "MyBundle@" + listFile("bundle.txt", l);
        }
        if (!v.empty()) { a.push_back("--extra-messages-bundle"); a.push_back(v); bundles = true; }
    }
    if (app == "commsdsl2c" && g_corpus.files.count(test + "/" + app + "/commsdsl2c.msgs")) { s.inputs.push_back(put("/work/lists/c.msgs", "@corpus:" + test + "/" + app + "/commsdsl2c.msgs")); a.push_back("--messages-list"); a.push_back("lists/c.msgs"); }
    else if (variant && !multi && !has("--force-platform") && !msgs.empty() && (app == "commsdsl2c" || app == "commsdsl2swig" || app == "commsdsl2emscripten") && g.below(3) == 0) {
        std::vector<std::string> l; for (auto& m : msgs) if (g.below(2)) l.push_back(m);
        if (!l.empty()) { a.push_back("--messages-list"); a.push_back(listFile("msgs.txt", l)); }
    }
    (void)bundles;
    a.insert(a.end(), params.begin(), params.end());
    if (has("-n")) s.nsOverride = true;
    if (variant) {
        if (!multi && !has("-n") && g.below(4) == 0) { a.push_back("-n"); a.push_back("other_ns"); s.nsOverride = true; }
        if (!has("-m") && app != "commsdsl2test" && app != "commsdsl2tools_qt" && g.below(5) == 0) { a.push_back("-m"); a.push_back(std::to_string(g.below(4))); }
        if (unsigned ver = schemaVersion(xmls); !multi && ver && g.below(5) == 0) { a.push_back("--force-schema-version"); a.push_back(std::to_string(g.below(ver + 1))); }
        bool sel = app == "commsdsl2c" || app == "commsdsl2swig" || app == "commsdsl2emscripten";
        if (sel && !multi) {
            auto ifs = schemaElements(xmls, "interface"), pls = schemaElements(xmls, "platform");
            if (!has("--force-interface") && !ifs.empty() && g.below(4) == 0) { a.push_back("--force-interface"); a.push_back(g.pick(ifs)); }
            bool lists = std::find(a.begin(), a.end(), std::string("--messages-list")) != a.end();
            if (!has("--force-platform") && !lists && !pls.empty() && g.below(2) == 0) { a.push_back("--force-platform"); a.push_back(g.pick(pls)); }
        }
        if (app == "commsdsl2c" && !multi && g.below(4) == 0) { static const char* o[] = {"DataViewDefaultOptions", "BareMetalDefaultOptions", "ClientDefaultOptions"}; a.push_back("--comms-options"); a.push_back(o[g.below(3)]); }
        if (app == "commsdsl2c" && !has("--comms-input") && g.below(4) == 0) { a.push_back("--comms-input"); a.push_back(g.below(2) ? "ServerInputMessages" : "ClientInputMessages"); }
        if (app == "commsdsl2tools_qt" && !multi && g.below(3) == 0) {
            auto ifs = schemaElements(xmls, "interface"), frs = schemaElements(xmls, "frame");
            int n = 1 + (int)g.below(3); std::string v;
            for (int k = 0; k < n; ++k) { v += (k ? "," : ""); if (frs.size() > 1 || (!frs.empty() && g.below(2))) v += g.pick(frs); v += ":"; if (ifs.size() > 1 || (!ifs.empty() && g.below(2))) v += g.pick(ifs); v += ":Proto" + std::to_string(k); if (g.below(2)) v += ":Some description"; if (g.below(3) == 0) v += std::string(v.back() == 'n' ? "" : ":") + ":plugin_id" + std::to_string(k); }
            a.push_back("--protocol"); a.push_back(v);
        }
        if (app != "commsdsl2latex" && !has("-V") && g.below(3) == 0) { a.push_back("-V"); a.push_back("2.7.11"); }
        if (app == "commsdsl2comms") {
            if (g.below(3) == 0) { a.push_back("--customization"); a.push_back(g.below(2) ? "full" : "none"); }
            if (g.below(4) == 0) a.push_back("--version-independent-code");
            if (g.below(4) == 0) a.push_back("--force-main-ns-in-options");
        }
        if (app == "commsdsl2c" && !has("--names-prefix") && g.below(3) == 0) { a.push_back("--names-prefix"); a.push_back("pfx"); }
        if ((app == "commsdsl2swig" || app == "commsdsl2emscripten") && !has("--has-code-version") && g.below(3) == 0) a.push_back("--force-main-ns-in-names");
        if (app == "commsdsl2tools_qt" && g.below(3) == 0) { a.push_back("--force-main-ns-in-options"); }
    }
    a.push_back("-o"); a.push_back(s.outArg);
    if (variant && g.below(3) == 0) {
        size_t k = g.below(schemas.size() + 1);        // some in the list, some on the command line
        std::vector<std::string> l(schemas.begin(), schemas.begin() + (long)k);
        bool pre = g.below(2);
        if (!l.empty()) {
            if (pre) { for (auto& x : l) x = x.substr(3); a.push_back("-p"); a.push_back("in"); }
            a.push_back("-i"); a.push_back(listFile("files.txt", l));
        }
        a.insert(a.end(), schemas.begin() + (long)k, schemas.end());
    } else a.insert(a.end(), schemas.begin(), schemas.end());
    return s;
}

std::vector<std::string> schemaFilesOf(const Scenario& s) { std::vector<std::string> r; for (auto& e : s.inputs) if (e.kind == FsEdit::PUT && e.path.compare(0, 9, "/work/in/") == 0) r.push_back(e.path); return r; }

void addFragments(Scenario& s, Rng& g, double prob, bool big) {
    if (s.codeDir.empty()) {
        s.codeDir = "/work/code"; s.args.insert(s.args.begin(), {"-c", "code"});
        FsEdit e; e.kind = FsEdit::MKDIR; e.path = s.codeDir; e.mode = 0755; s.inputs.push_back(e);
    }
    Trace t = traceOne(s);
    for (auto& p : t.probed) {
        if (p.compare(0, s.codeDir.size() + 1, s.codeDir + "/") != 0) continue;
        double pr = prob;
        if (p.size() > 8 && p.compare(p.size() - 8, 8, ".replace") == 0) pr = prob * 0.15;
        if (!g.chance(pr)) continue;
        size_t n = g.below(8) == 0 ? 1 : big && g.below(6) == 0 ? 8000 + g.below(20000) : 5 + g.below(200);
        s.inputs.push_back(put(p, randomCode(g, n)));
    }
}

void addExtraFiles(Scenario& s, Rng& g, int n) {
    if (s.codeDir.empty()) { s.codeDir = "/work/code"; s.args.insert(s.args.begin(), {"-c", "code"}); }
    static const char* dirs[] = {"", "include/", "include/extra/", "doc/", "a/b/c/d/", "include/", "cmake/", ".hidden/", "x.replace/", "a.append/b/"};
    static const char* names[] = {"Extra", "readme", "data", "x", "CMakeLists", "Some_File", "z.y", "UPPER", ".replace", ".extend", ".public"};
    static const char* exts[] = {".h", ".cpp", ".txt", "", ".bin", ".hpp", ".md", ".in", ".py", ".cmake"};
    for (int i = 0; i < n; ++i) {
        size_t nm = g.below(11); std::string num = std::to_string(g.below(100));
        std::string p = s.codeDir + "/" + dirs[g.below(g.below(3) ? 8 : 10)] + (nm < 8 ? names[nm] + num : "f" + num + names[nm]) + exts[g.below(10)];
        if (nm >= 8 && p.compare(p.size() - std::string(names[nm]).size(), std::string::npos, names[nm]) == 0) p += ".h";
        std::string d;
        size_t sz = g.below(6) == 0 ? 0 : g.below(5) == 0 ? 4096 * (1 + g.below(40)) + g.below(3) - 1 : g.below(3000);
        if (g.below(3) == 0) for (size_t k = 0; k < sz; ++k) d += (char)g.next();
        else if (sz) d = randomCode(g, sz);
        FsEdit f = put(p, d, g.below(6) == 0 ? 0755 : g.below(6) == 0 ? 0444 : g.below(6) == 0 ? 0600 : 0644);
        if (g.below(5) == 0) {      // the directory holds a link, the content is elsewhere
            std::string real = "/work/linked/f" + std::to_string(i) + ".dat", up;
            for (size_t k = 0; k < p.size(); ++k) if (p[k] == '/' && k > 5) up += "../";
            FsEdit l; l.kind = FsEdit::LINK; l.path = p; l.data = g.below(2) ? real : up + real.substr(6);
            f.path = real;
            s.inputs.push_back(f); s.inputs.push_back(l);
            continue;
        }
        s.inputs.push_back(f);
    }
}

void addStale(Scenario& s, Rng& g, double prob) {
    auto r = reference(s.task(), s.inputs, s.out);
    for (auto& e : r->out) {
        if (e.second.type != NT_FILE || !g.chance(prob)) continue;
        size_t sz = e.second.size;
        std::string d;
        switch (g.below(6)) {
        case 0: break;
        case 1: d.assign(sz, 'x'); break;
        case 2: d = randomCode(g, sz + 1 + g.below(3000)); break;
        case 3: d = randomCode(g, sz > 1 ? sz / 2 : 1); break;
        case 4: d.assign(sz, '\0'); break;
        default: d = randomCode(g, 50); break;
        }
        FsEdit f = put(s.out + "/" + e.first, d);
        if (g.below(3) == 0) f.mtime = 4102444800LL * 1000000000LL;       // far future
        else if (g.below(3) == 0) f.mtime = 86400LL * 1000000000LL;       // long ago
        s.inputs.push_back(f);
    }
}

void standardScenarios(std::vector<Scenario>& out, int nVariants, uint64_t seed, bool frag) {
    for (auto* a = appNames(); *a; ++a)
        for (auto& t : g_corpus.tests) {
            if (scenarioDisabled(*a, t)) continue;
            for (int v = 0; v < nVariants; ++v) {
                uint64_t var = v == 0 ? 0 : 1 + subSeed(seed, hashStr(*a), hashStr(t), (uint64_t)v) % 1000000;
                Scenario s = makeScenario(*a, t, var);
                (void)frag;
                out.push_back(s);
            }
        }
}

Case caseOf(const char* prop, const Scenario& s, const std::string& variant) {
    Case c; c.prop = prop; c.variant = s.name + (variant.empty() ? "" : ":" + variant); c.out = s.out;
    Step st; st.edits = s.inputs; st.tasks.push_back(s.task());
    c.steps.push_back(st);
    return c;
}

} // namespace sim

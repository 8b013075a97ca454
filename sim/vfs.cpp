#include "core.h"
#include <cerrno>

namespace sim {

const char* const opNames[OP_NKINDS] = {"open-read", "open-write", "read", "write", "close", "stat", "mkdir", "opendir", "readdir", "copy",
    "lseek", "rename", "unlink", "link", "chmod", "utime", "truncate", "fsync", "readlink", "chdir", "misc"};

Vfs::Vfs() { root = mk(NT_DIR, 0755); }

NodeP Vfs::mk(NodeType t, uint32_t mode) {
    auto n = std::make_shared<Node>();
    n->type = t; n->mode = mode; n->mtime = now; n->ino = nextIno++;
    return n;
}

static const std::string& nextComp(const std::string& p, size_t& i, std::string& out) {
    out.clear();
    while (i < p.size() && p[i] == '/') ++i;
    while (i < p.size() && p[i] != '/') out += p[i++];
    return out;
}

std::string Vfs::canonical(const std::string& cwd, const std::string& path) const {
    std::string full = (!path.empty() && path[0] == '/') ? path : cwd + "/" + path;
    std::vector<std::string> comps; std::string c; size_t i = 0;
    while (true) {
        nextComp(full, i, c);
        if (c.empty()) break;
        if (c == ".") continue;
        if (c == "..") { if (!comps.empty()) comps.pop_back(); continue; }
        comps.push_back(c);
    }
    std::string r;
    for (auto& x : comps) { r += '/'; r += x; }
    return r.empty() ? "/" : r;
}

int Vfs::resolve(const std::string& cwd, const std::string& path, bool followLast, Res& r, bool) const {
    r = Res();
    if (path.empty()) return ENOENT;
    if (path.size() >= 4096) return ENAMETOOLONG;
    std::string rest = path[0] == '/' ? path : cwd + "/" + path;
    r.trailingSlash = path.back() == '/';
    std::vector<std::pair<std::string, NodeP>> stk;   // path to current dir
    NodeP cur = root;
    int links = 0;
    size_t i = 0;
    std::string c;
    auto canonOf = [&](const std::string& last) { std::string s; for (auto& x : stk) { s += '/'; s += x.first; } if (!last.empty()) { s += '/'; s += last; } return s.empty() ? std::string("/") : s; };
    while (true) {
        nextComp(rest, i, c);
        if (c.empty()) { r.node = cur; r.canon = canonOf(""); if (!stk.empty()) { r.name = stk.back().first; r.parent = stk.size() > 1 ? stk[stk.size() - 2].second : root; } return 0; }
        if (c.size() > 255) return ENAMETOOLONG;
        size_t j = i; while (j < rest.size() && rest[j] == '/') ++j;
        bool last = j >= rest.size();
        if (cur->type != NT_DIR) return ENOTDIR;
        if (!(cur->mode & 0100)) return EACCES;
        if (c == ".") continue;
        if (c == "..") { if (!stk.empty()) { stk.pop_back(); cur = stk.empty() ? root : stk.back().second; } continue; }
        auto it = cur->ents.find(c);
        if (it == cur->ents.end()) {
            if (last) { r.parent = cur; r.name = c; r.canon = canonOf(c); }
            return ENOENT;
        }
        NodeP n = it->second;
        if (n->type == NT_LINK && (!last || followLast || r.trailingSlash)) {
            if (++links > 40) return ELOOP;
            std::string tail = rest.substr(i);
            if (!n->data.empty() && n->data[0] == '/') { stk.clear(); cur = root; rest = n->data + tail; }
            else rest = n->data + tail;
            i = 0;
            continue;
        }
        if (last) {
            if (r.trailingSlash && n->type != NT_DIR) return ENOTDIR;
            r.node = n; r.parent = cur; r.name = c; r.canon = canonOf(c);
            return 0;
        }
        stk.emplace_back(c, n);
        cur = n;
    }
}

NodeP Vfs::get(const std::string& abs) const {
    Res r;
    if (resolve("/", abs, false, r) != 0) return nullptr;
    return r.node;
}

void Vfs::mkdirs(const std::string& abs) {
    NodeP cur = root; size_t i = 0; std::string c;
    while (true) {
        nextComp(abs, i, c);
        if (c.empty()) return;
        auto& slot = cur->ents[c];
        if (!slot) slot = mk(NT_DIR, 0755);
        cur = slot;
    }
}

static std::string dirOf(const std::string& p) { auto k = p.find_last_of('/'); return k == std::string::npos || k == 0 ? "/" : p.substr(0, k); }
static std::string baseOf(const std::string& p) { auto k = p.find_last_of('/'); return k == std::string::npos ? p : p.substr(k + 1); }

void Vfs::put(const std::string& abs, const std::string& content, uint32_t mode) {
    mkdirs(dirOf(abs));
    NodeP d = get(dirOf(abs));
    auto n = mk(NT_FILE, mode);
    n->data = content;
    d->ents[baseOf(abs)] = n;
}

void Vfs::putLink(const std::string& abs, const std::string& target) {
    mkdirs(dirOf(abs));
    NodeP d = get(dirOf(abs));
    auto n = mk(NT_LINK, 0777);
    n->data = target;
    d->ents[baseOf(abs)] = n;
}

void Vfs::remove(const std::string& abs) {
    NodeP d = get(dirOf(abs));
    if (d) d->ents.erase(baseOf(abs));
}

static void walkRec(const std::string& p, const NodeP& n, const std::function<void(const std::string&, const NodeP&)>& f) {
    f(p.empty() ? "/" : p, n);
    if (n->type == NT_DIR)
        for (auto& e : n->ents) walkRec(p + "/" + e.first, e.second, f);
}

void Vfs::walk(const std::function<void(const std::string&, const NodeP&)>& f, const std::string& top) const {
    NodeP n = get(top);
    if (n) walkRec(top == "/" ? "" : top, n, f);
}

void Vfs::tree(TreeMap& out, const std::string& top) const {
    walk([&](const std::string& p, const NodeP& n) { out[p] = TreeEntry{n->type, n->mode, n->type == NT_DIR ? 0 : hashStr(n->data), n->type == NT_DIR ? 0 : n->data.size(), n->mtime}; }, top);
}

void Vfs::touchDir(const NodeP& d) {
    if (!d->durEnts) d->durEnts.reset(new std::map<std::string, NodeP>(d->ents));
}
void Vfs::touchData(const NodeP& f) {
    if (!f->dirty) { f->dirty = true; if (!f->bornDirty) f->durData = f->data; }
}

static void syncRec(const NodeP& n) {
    n->dirty = n->bornDirty = false; n->durData.clear(); n->durEnts.reset();
    for (auto& e : n->ents) syncRec(e.second);
}
void Vfs::syncAll() { syncRec(root); }

static void lossRec(Vfs& v, const std::string& path, const NodeP& n, Rng& g, int flavour, std::vector<std::string>* log) {
    if (n->type == NT_DIR) {
        if (n->durEnts) {
            auto cur = n->ents;
            for (auto& e : cur) {
                auto o = n->durEnts->find(e.first);
                if (o != n->durEnts->end() && o->second == e.second) continue;
                // entry is new (or replaced by rename)
                double keep = flavour == 0 ? 0.9 : flavour == 1 ? 0.5 : flavour == 2 ? 1.0 : 0.15;
                if (!g.chance(keep)) {
                    if (o != n->durEnts->end()) { n->ents[e.first] = o->second; if (log) log->push_back("entry reverted " + path + "/" + e.first); }
                    else { n->ents.erase(e.first); if (log) log->push_back("entry lost " + path + "/" + e.first); }
                }
            }
            for (auto& o : *n->durEnts)
                if (!cur.count(o.first) && g.chance(0.5)) { n->ents[o.first] = o.second; if (log) log->push_back("entry returned " + path + "/" + o.first); }
        }
        for (auto& e : n->ents) lossRec(v, path + "/" + e.first, e.second, g, flavour, log);
        return;
    }
    if (n->type != NT_FILE || !n->dirty) return;
    unsigned c = (unsigned)g.below(100);
    if (flavour == 0 && c < 60) return;      // mostly everything made it
    std::string now = n->data;
    const char* what = "";
    c = (unsigned)g.below(8);
    size_t sz = now.size();
    switch (c) {
    case 0: n->data.clear(); what = "empty"; break;
    case 1: if (!n->bornDirty) n->data = n->durData; else n->data.clear(); what = "old content"; break;
    case 2: n->data = now.substr(0, g.below(sz + 1)); what = "byte prefix"; break;
    case 3: n->data = now.substr(0, (g.below(sz / 4096 + 1)) * 4096); what = "block prefix"; break;
    case 4: n->data.assign(sz, '\0'); what = "zeros"; break;
    case 5: { for (size_t b = 0; b < sz; b += 512) if (g.chance(0.5)) for (size_t k = b; k < sz && k < b + 512; ++k) n->data[k] = 0; what = "zero sectors"; break; }
    case 6: { for (size_t b = 0; b < sz; b += 512) if (g.chance(0.5)) for (size_t k = b; k < sz && k < b + 512; ++k) n->data[k] = (char)g.next(); what = "garbage sectors"; break; }
    default: return;
    }
    if (log) log->push_back(std::string(what) + " " + path);
}

void Vfs::powerLoss(uint64_t seed, std::vector<std::string>* log) {
    Rng g(seed);
    int flavour = (int)g.below(4);
    lossRec(*this, "", root, g, flavour, log);
    syncAll();
}

static NodeP cloneRec(const NodeP& n, std::map<Node*, NodeP>& m) {
    auto& s = m[n.get()];
    if (s) return s;
    auto c = std::make_shared<Node>();
    s = c;
    c->type = n->type; c->mode = n->mode; c->mtime = n->mtime; c->ino = n->ino; c->nlink = n->nlink; c->data = n->data;
    c->dirty = n->dirty; c->bornDirty = n->bornDirty; c->durData = n->durData;
    for (auto& e : n->ents) c->ents[e.first] = cloneRec(e.second, m);
    if (n->durEnts) { c->durEnts.reset(new std::map<std::string, NodeP>()); for (auto& e : *n->durEnts) (*c->durEnts)[e.first] = cloneRec(e.second, m); }
    return c;
}
Vfs Vfs::clone() const {
    Vfs v;
    std::map<Node*, NodeP> m;
    v.root = cloneRec(root, m);
    v.nextIno = nextIno; v.now = now; v.byteQuota = byteQuota; v.inodeQuota = inodeQuota;
    return v;
}

// --- serialisation (keeps hard links and durability state)
namespace {
void p64(std::string& o, uint64_t v) { o.append((const char*)&v, 8); }
void pstr(std::string& o, const std::string& s) { p64(o, s.size()); o += s; }
struct Rd {
    const char* p; const char* e;
    uint64_t u64() { if (e - p < 8) abort(); uint64_t v; memcpy(&v, p, 8); p += 8; return v; }
    std::string str() { uint64_t n = u64(); if ((uint64_t)(e - p) < n) abort(); std::string s(p, n); p += n; return s; }
};
void serRec(std::string& o, const NodeP& n, std::map<Node*, uint64_t>& ids) {
    auto it = ids.find(n.get());
    if (it != ids.end()) { p64(o, 1); p64(o, it->second); return; }
    uint64_t id = ids.size(); ids[n.get()] = id;
    p64(o, 0);
    p64(o, n->type | (n->mode << 8)); p64(o, (uint64_t)n->mtime); p64(o, n->ino); p64(o, n->nlink | ((uint64_t)n->dirty << 40) | ((uint64_t)n->bornDirty << 41) | ((uint64_t)(n->durEnts != nullptr) << 42));
    pstr(o, n->data);
    if (n->dirty) pstr(o, n->durData);
    p64(o, n->ents.size());
    for (auto& e : n->ents) { pstr(o, e.first); serRec(o, e.second, ids); }
    if (n->durEnts) { p64(o, n->durEnts->size()); for (auto& e : *n->durEnts) { pstr(o, e.first); serRec(o, e.second, ids); } }
}
NodeP deRec(Rd& r, std::vector<NodeP>& v) {
    if (r.u64() == 1) return v[r.u64()];
    auto n = std::make_shared<Node>();
    v.push_back(n);
    uint64_t a = r.u64(); n->type = (NodeType)(a & 0xff); n->mode = (uint32_t)(a >> 8);
    n->mtime = (int64_t)r.u64(); n->ino = r.u64();
    uint64_t b = r.u64(); n->nlink = (uint32_t)b; n->dirty = (b >> 40) & 1; n->bornDirty = (b >> 41) & 1;
    n->data = r.str();
    if (n->dirty) n->durData = r.str();
    uint64_t c = r.u64();
    while (c--) { std::string k = r.str(); n->ents[k] = deRec(r, v); }
    if ((b >> 42) & 1) { n->durEnts.reset(new std::map<std::string, NodeP>()); uint64_t d = r.u64(); while (d--) { std::string k = r.str(); (*n->durEnts)[k] = deRec(r, v); } }
    return n;
}
}
void Vfs::serialise(std::string& o) const {
    p64(o, nextIno); p64(o, (uint64_t)now);
    std::map<Node*, uint64_t> ids;
    serRec(o, root, ids);
}
Vfs Vfs::deserialise(const char* p, size_t n) {
    Rd r{p, p + n};
    Vfs v;
    v.nextIno = r.u64(); v.now = (int64_t)r.u64();
    std::vector<NodeP> ids;
    v.root = deRec(r, ids);
    return v;
}

} // namespace sim

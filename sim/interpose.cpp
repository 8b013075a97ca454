// libc entry points as seen by the system under test. While a simulated process is current, every one of
// them is answered from the virtual world; otherwise it is passed on to the real C library.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "world.h"
#include <cerrno>
#include <cstdarg>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/sendfile.h>
#include <sys/statvfs.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/sysinfo.h>
#include <sys/utsname.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <utime.h>
#include <random>
#include <unordered_map>

namespace sim {
const char* const mutNames[] = {"create", "truncate", "write", "mkdir", "unlink", "rmdir", "rename-from", "rename-to", "chmod", "utime", "link"};

namespace {
template <class F> F realFn(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(name) ([]{ static auto f = ::sim::realFn<decltype(&::name)>(#name); return f; }())

struct Decision { int err = 0; int64_t limit = -1; bool crashMid = false, line = false; };   // line: transfer whole lines only
int64_t wholeLines(const char* p, int64_t n) { for (int64_t i = n; i > 0; --i) if (p[i - 1] == '\n') return i; return n; }

uint32_t pathIndex(Proc& p, const std::string& path) {
    auto it = p.pathIdx.find(path);
    if (it != p.pathIdx.end()) return it->second;
    uint32_t i = (uint32_t)p.paths.size();
    p.paths.push_back(path); p.pathIdx[path] = i;
    return i;
}

bool isXfer(OpKind k) { return k == OP_READ || k == OP_WRITE || k == OP_COPY; }

// Every operation of a simulated process starts here.
// noErr: there is nothing to transfer, so no storage error can occur (end of an empty file).
Decision opBegin(OpKind k, const std::string& path, uint64_t len, bool exists, bool wr, bool noErr = false) {
    Proc& p = *t_proc;
    schedPoint(40);
    ++p.opn; ++p.opCount[k];
    g_vfs->now += p.knobs->opCost;
    p.logHash = mix64(p.logHash ^ hashStr(path, (uint64_t)k * 977 + len));
    if (p.trace) p.ops.push_back(OpRec{p.opn, k, (uint8_t)exists, (uint8_t)wr, 0, (uint32_t)len, pathIndex(p, path), stackHash(true)});
    if (p.wantTrail) p.trail.push_back("#" + std::to_string(p.opn) + " " + opNames[k] + " " + path + " len=" + std::to_string(len) + (exists ? "" : " (absent)"));
    if (p.fired.size() > 20000 || p.opn - p.firedTransfers > 4000000) { g_active = false; endRun(END_HANG, 0, "operation bound exceeded\n" + stackText()); }
    Decision d;
    auto fire = [&](FaultAct a, int e) { p.fired.push_back(Fired{p.opn, k, a, e, path, (uint8_t)exists}); p.logHash = mix64(p.logHash ^ ((uint64_t)a << 32 | (uint32_t)e)); if (p.wantTrail) p.trail.back() += std::string(" <== FAULT act=") + std::to_string((int)a) + " err=" + strerror(e); };
    for (auto& s : p.sticky)
        if (!noErr && (s.mask & kbit(k)) && s.left != 0 && (s.path.empty() || path == s.path || (path.size() > s.path.size() && path[s.path.size()] == '/' && path.compare(0, s.path.size(), s.path) == 0))) {
            if (s.left > 0) --s.left;
            fire(FA_ERR, s.err); d.err = s.err; return d;
        }
    for (auto& f : p.plan->faults) {
        if (f.op != p.opn) continue;
        if (f.act == FA_CRASH) { fire(FA_CRASH, 0); endRun(END_CRASH, 0, "crash before " + std::string(opNames[k]) + " " + path); }
        if (f.act == FA_CRASH_MID) { if (k == OP_WRITE || k == OP_COPY) { fire(FA_CRASH_MID, 0); d.line = f.arg < 0; d.limit = f.arg < 0 ? -f.arg : f.arg; d.crashMid = true; return d; } fire(FA_CRASH, 0); endRun(END_CRASH, 0, "crash before " + std::string(opNames[k]) + " " + path); }
        if (noErr) continue;
        if (f.act == FA_SHORT) { if (isXfer(k) && len > 1) { fire(FA_SHORT, 0); d.limit = f.arg < 1 ? 1 : f.arg; } continue; }
        if (f.act == FA_PARTIAL_ERR) {
            if (isXfer(k) && len > 1) { fire(FA_PARTIAL_ERR, f.err); d.line = f.arg < 0; d.limit = f.arg < 0 ? -f.arg : f.arg < 1 ? 1 : f.arg; if (d.limit >= (int64_t)len) d.limit = (int64_t)len - 1; p.sticky.push_back({(k == OP_READ ? kbit(OP_READ) : kbit(OP_WRITE) | kbit(OP_COPY) | kbit(OP_READ)) | f.sticky, f.err, f.count ? (int64_t)f.count : (f.sticky ? -1 : 1), f.sticky & SamePath ? path : ""}); return d; }
            fire(FA_ERR, f.err); d.err = f.err; return d;
        }
        fire(FA_ERR, f.err); d.err = f.err;
        if (f.sticky) p.sticky.push_back({f.sticky, f.err, f.count ? (int64_t)f.count : -1, f.sticky & SamePath ? path : ""});
        return d;
    }
    if (p.plan->shortSeed && isXfer(k) && len > 0 && !noErr) {
        bool isR = k == OP_READ;
        if (isR ? p.plan->xferReads : p.plan->xferWrites) {
            // libxml2 / zlib and sendfile() callers do not repeat interrupted calls, nor can they be interrupted on regular files
            bool mayIntr = k == OP_WRITE || (k == OP_READ && (path.size() < 4 || path.compare(path.size() - 4, 4, ".xml") != 0));
            if (mayIntr && p.eintrRun < 5 && p.shortRng.chance(p.plan->eintrProb)) { ++p.eintrRun; ++p.firedTransfers; p.logHash = mix64(p.logHash ^ 4); d.err = EINTR; return d; }
            p.eintrRun = 0;
            if (len > 1 && p.shortRng.chance(p.plan->shortProb)) { ++p.firedTransfers; d.limit = 1 + (int64_t)p.shortRng.below((uint64_t)p.plan->shortMax); p.logHash = mix64(p.logHash ^ (uint64_t)d.limit); }
        }
    }
    return d;
}

void mutated(MutKind k, const std::string& canon) { ++t_proc->muts[{canon, (uint8_t)k}]; }
void opFailed() { if (t_proc->trace && !t_proc->ops.empty()) t_proc->ops.back().failed = 1; }
int fail(int e) { opFailed(); errno = e; return -1; }

FdEnt* fdGet(int fd) { auto& v = t_proc->fds; return fd >= 3 && (size_t)fd < v.size() && v[fd] ? v[fd].get() : nullptr; }
int fdAlloc(std::unique_ptr<FdEnt> e) {
    auto& v = t_proc->fds;
    if (v.size() < 3) v.resize(3);
    size_t i = 3;
    while (i < v.size() && v[i]) ++i;
    if (i >= v.size()) v.resize(i + 1);
    v[i] = std::move(e);
    if (++t_proc->openNow > t_proc->maxOpen) t_proc->maxOpen = t_proc->openNow;
    return (int)i;
}

std::string atPath(int dirfd, const char* path) {
    if (path[0] == '/' || dirfd == AT_FDCWD) return path;
    FdEnt* e = fdGet(dirfd);
    return e ? e->path + "/" + path : std::string(path);
}

int doOpen(const std::string& path, int flags, mode_t mode) {
    InSim g;
    int acc = flags & O_ACCMODE;
    bool wr = acc != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    OpKind k = wr ? OP_OPEN_W : (flags & O_DIRECTORY) ? OP_OPENDIR : OP_OPEN_R;
    Vfs::Res r;
    auto& cwd = t_proc->cwd;
    int e = g_vfs->resolve(cwd, path, !(flags & O_NOFOLLOW), r);
    std::string canon = e == 0 || r.parent ? r.canon : g_vfs->canonical(cwd, path);
    Decision d = opBegin(k, canon, (uint64_t)flags, e == 0, wr);
    if (d.err) return fail(d.err);
    if (g_threaded) e = g_vfs->resolve(cwd, path, !(flags & O_NOFOLLOW), r);   // the world may have moved on
    if (t_proc->openNow >= t_proc->plan->fdLimit - 3) { t_proc->fired.push_back(Fired{t_proc->opn, k, FA_ERR, EMFILE, canon, (uint8_t)(e == 0)}); return fail(EMFILE); }
    if (e == ENOENT && r.parent && (flags & O_CREAT) && !r.trailingSlash) {
        if (!(r.parent->mode & 0200)) return fail(EACCES);
        if (g_vfs->inodeQuota == 0) { t_proc->fired.push_back(Fired{t_proc->opn, k, FA_ERR, ENOSPC, canon, 0}); return fail(ENOSPC); }
        if (g_vfs->inodeQuota > 0) --g_vfs->inodeQuota;
        g_vfs->touchDir(r.parent);
        auto n = g_vfs->mk(NT_FILE, mode & ~022 & 07777);
        n->dirty = n->bornDirty = true;
        r.parent->ents[r.name] = n; r.parent->mtime = g_vfs->now;
        mutated(MU_CREATE, canon); t_proc->created.insert(canon);
        r.node = n;
        auto fe = std::make_unique<FdEnt>(); fe->node = n; fe->flags = flags; fe->path = canon;
        return fdAlloc(std::move(fe));
    }
    if (e) { if (!wr) t_proc->probed.insert(canon); return fail(e); }
    if ((flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST);
    if (r.node->type == NT_LINK) return fail(ELOOP);
    if (r.node->type == NT_DIR) {
        if (acc != O_RDONLY) return fail(EISDIR);
        if (flags & O_CREAT) return fail(EISDIR);
        if (!(r.node->mode & 0400)) return fail(EACCES);
    } else {
        if (flags & O_DIRECTORY) return fail(ENOTDIR);
        if (acc != O_WRONLY && !(r.node->mode & 0400)) return fail(EACCES);
        if (acc != O_RDONLY && !(r.node->mode & 0200)) return fail(EACCES);
        if ((flags & O_TRUNC)) {
            g_vfs->touchData(r.node);
            if (g_vfs->byteQuota >= 0) g_vfs->byteQuota += (int64_t)r.node->data.size();
            r.node->data.clear(); r.node->mtime = g_vfs->now;
            mutated(MU_TRUNC, canon);
        }
        if (acc != O_WRONLY) t_proc->readOk.insert(canon);
    }
    auto fe = std::make_unique<FdEnt>(); fe->node = r.node; fe->flags = flags; fe->path = canon;
    return fdAlloc(std::move(fe));
}

ssize_t doRead(int fd, void* buf, size_t n, int64_t off) {
    InSim g;
    FdEnt* f = fdGet(fd);
    if (!f) { errno = EBADF; return -1; }
    Decision d = opBegin(OP_READ, f->path, n, true, false, f->node->type == NT_FILE && f->node->data.empty());
    if (d.err) return fail(d.err);
    if ((f->flags & O_ACCMODE) == O_WRONLY) return fail(EBADF);
    if (f->node->type == NT_DIR) return fail(EISDIR);
    int64_t pos = off >= 0 ? off : f->pos;
    int64_t avail = (int64_t)f->node->data.size() - pos;
    if (avail < 0) avail = 0;
    int64_t m = (int64_t)n < avail ? (int64_t)n : avail;
    if (d.limit >= 0 && m > d.limit) m = d.limit;
    if (d.line && m > 0) m = wholeLines(f->node->data.data() + pos, m);
    memcpy(buf, f->node->data.data() + pos, (size_t)m);
    if (off < 0) f->pos += m;
    return m;
}

// Appends/overwrites; returns bytes taken or -1.
ssize_t storeBytes(FdEnt* f, const char* buf, size_t n, int64_t pos) {
    auto& data = f->node->data;
    int64_t end = pos + (int64_t)n;
    int64_t growth = end - (int64_t)data.size();
    if (growth > 0 && g_vfs->byteQuota >= 0) {
        if (growth > g_vfs->byteQuota) {
            n -= (size_t)(growth - g_vfs->byteQuota < (int64_t)n ? growth - g_vfs->byteQuota : (int64_t)n);
            t_proc->fired.push_back(Fired{t_proc->opn, OP_WRITE, FA_ERR, ENOSPC, f->path, 1});
            if (n == 0) { errno = ENOSPC; return -1; }
            growth = g_vfs->byteQuota;
        }
        g_vfs->byteQuota -= growth;
    }
    g_vfs->touchData(f->node);
    if ((int64_t)data.size() < pos + (int64_t)n) data.resize((size_t)(pos + (int64_t)n), '\0');
    memcpy(&data[(size_t)pos], buf, n);
    f->node->mtime = g_vfs->now;
    mutated(MU_WRITE, f->path);
    return (ssize_t)n;
}

ssize_t doWrite(int fd, const char* buf, size_t n, int64_t off) {
    InSim g;
    FdEnt* f = fdGet(fd);
    if (!f) { errno = EBADF; return -1; }
    Decision d = opBegin(OP_WRITE, f->path, n, true, true);
    if (d.err) return fail(d.err);
    if ((f->flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
    if (n == 0) return 0;
    size_t m = n;
    if (d.limit >= 0 && (int64_t)m > d.limit) m = (size_t)d.limit;
    if (d.line && m > 0) m = (size_t)wholeLines((const char*)buf, (int64_t)m);
    int64_t pos = off >= 0 ? off : (f->flags & O_APPEND) ? (int64_t)f->node->data.size() : f->pos;
    t_proc->logHash = mix64(t_proc->logHash ^ hashBytes(buf, m));
    ssize_t r = m ? storeBytes(f, buf, m, pos) : 0;
    if (d.crashMid) endRun(END_CRASH, 0, "crash inside write " + f->path);
    if (r < 0) { opFailed(); return r; }
    if (off < 0) f->pos = pos + r;
    return r;
}

int doClose(int fd) {
    InSim g;
    FdEnt* f = fdGet(fd);
    if (!f) { errno = EBADF; return -1; }
    opBegin(OP_CLOSE, f->path, 0, true, (f->flags & O_ACCMODE) != O_RDONLY);   // errors of close are outside the fault model
    t_proc->fds[(size_t)fd].reset(); --t_proc->openNow;
    return 0;
}

uint64_t inoOf(const Node& n) { auto s = t_proc->knobs->inoSeed; return s ? (mix64(n.ino ^ s) & 0x7fffffffff) | 1 : n.ino; }
void fillStat(struct stat* st, const Node& n) {
    memset(st, 0, sizeof *st);
    st->st_dev = 0x801; st->st_ino = inoOf(n); st->st_nlink = n.type == NT_DIR ? 2 : n.nlink;
    st->st_mode = (n.type == NT_DIR ? S_IFDIR : n.type == NT_LINK ? S_IFLNK : S_IFREG) | n.mode;
    st->st_uid = 1000; st->st_gid = 1000; st->st_blksize = 4096;
    st->st_size = n.type == NT_DIR ? 4096 : (off_t)n.data.size(); st->st_blocks = (st->st_size + 511) / 512;
    st->st_mtim.tv_sec = n.mtime / 1000000000; st->st_mtim.tv_nsec = n.mtime % 1000000000;
    st->st_atim = st->st_ctim = st->st_mtim;
}
int doStat(const std::string& path, struct stat* st, bool follow) {
    InSim g;
    Vfs::Res r;
    int e = g_vfs->resolve(t_proc->cwd, path, follow, r);
    Decision d = opBegin(OP_STAT, e == 0 || r.parent ? r.canon : g_vfs->canonical(t_proc->cwd, path), follow, e == 0, false);
    if (d.err) return fail(d.err);
    if (g_threaded) e = g_vfs->resolve(t_proc->cwd, path, follow, r);
    if (e) return fail(e);
    fillStat(st, *r.node);
    return 0;
}
int doFstat(int fd, struct stat* st) {
    InSim g;
    FdEnt* f = fdGet(fd);
    if (!f) { errno = EBADF; return -1; }
    Decision d = opBegin(OP_STAT, f->path, 2, true, false);
    if (d.err) return fail(d.err);
    fillStat(st, *f->node);
    return 0;
}
int doMkdir(const std::string& path, mode_t mode) {
    InSim g;
    Vfs::Res r;
    int e = g_vfs->resolve(t_proc->cwd, path, false, r);
    std::string canon = e == 0 || r.parent ? r.canon : g_vfs->canonical(t_proc->cwd, path);
    Decision d = opBegin(OP_MKDIR, canon, mode, e == 0, true);
    if (d.err) return fail(d.err);
    if (g_threaded) e = g_vfs->resolve(t_proc->cwd, path, false, r);
    if (e == 0) return fail(EEXIST);
    if (e != ENOENT || !r.parent) return fail(e);
    if (!(r.parent->mode & 0200)) return fail(EACCES);
    if (g_vfs->inodeQuota == 0) { t_proc->fired.push_back(Fired{t_proc->opn, OP_MKDIR, FA_ERR, ENOSPC, canon, 0}); return fail(ENOSPC); }
    if (g_vfs->inodeQuota > 0) --g_vfs->inodeQuota;
    g_vfs->touchDir(r.parent);
    r.parent->ents[r.name] = g_vfs->mk(NT_DIR, mode & ~022 & 07777);
    r.parent->mtime = g_vfs->now;
    mutated(MU_MKDIR, canon); t_proc->created.insert(canon);
    return 0;
}
int doUnlink(const std::string& path, bool dir) {
    InSim g;
    Vfs::Res r;
    int e = g_vfs->resolve(t_proc->cwd, path, false, r);
    std::string canon = e == 0 || r.parent ? r.canon : g_vfs->canonical(t_proc->cwd, path);
    Decision d = opBegin(OP_UNLINK, canon, dir, e == 0, true);
    if (d.err) return fail(d.err);
    if (g_threaded) e = g_vfs->resolve(t_proc->cwd, path, false, r);
    if (e) return fail(e);
    if (dir && r.node->type != NT_DIR) return fail(ENOTDIR);
    if (!dir && r.node->type == NT_DIR) return fail(EISDIR);
    if (dir && !r.node->ents.empty()) return fail(ENOTEMPTY);
    if (!r.parent || !(r.parent->mode & 0200)) return fail(EACCES);
    g_vfs->touchDir(r.parent);
    r.parent->ents.erase(r.name);
    mutated(dir ? MU_RMDIR : MU_UNLINK, canon);
    if (!t_proc->created.erase(canon)) t_proc->escapes.push_back("deletes what it did not create: " + canon);
    return 0;
}
int doRename(const std::string& a, const std::string& b) {
    InSim g;
    Vfs::Res ra, rb;
    int ea = g_vfs->resolve(t_proc->cwd, a, false, ra), eb = g_vfs->resolve(t_proc->cwd, b, false, rb);
    std::string ca = ea == 0 || ra.parent ? ra.canon : g_vfs->canonical(t_proc->cwd, a), cb = eb == 0 || rb.parent ? rb.canon : g_vfs->canonical(t_proc->cwd, b);
    Decision d = opBegin(OP_RENAME, ca + " -> " + cb, 0, ea == 0, true);
    if (d.err) return fail(d.err);
    if (g_threaded) { ea = g_vfs->resolve(t_proc->cwd, a, false, ra); eb = g_vfs->resolve(t_proc->cwd, b, false, rb); }
    if (ea) return fail(ea);
    if (eb && !(eb == ENOENT && rb.parent)) return fail(eb);
    if (eb == 0 && rb.node->type == NT_DIR && ra.node->type != NT_DIR) return fail(EISDIR);
    if (eb == 0 && rb.node->type != NT_DIR && ra.node->type == NT_DIR) return fail(ENOTDIR);
    if (eb == 0 && rb.node->type == NT_DIR && !rb.node->ents.empty()) return fail(ENOTEMPTY);
    g_vfs->touchDir(ra.parent); g_vfs->touchDir(rb.parent);
    NodeP n = ra.node;
    ra.parent->ents.erase(ra.name);
    rb.parent->ents[rb.name] = n;
    mutated(MU_RENAME_FROM, ca); mutated(MU_RENAME_TO, cb);
    if (t_proc->created.erase(ca)) { if (eb) t_proc->created.insert(cb); }
    else t_proc->escapes.push_back("renames away what it did not create: " + ca);
    return 0;
}
int doAccess(const std::string& path, int mode) {
    struct stat st;
    if (doStat(path, &st, true) != 0) return -1;
    if ((mode & R_OK) && !(st.st_mode & 0400)) return fail(EACCES);
    if ((mode & W_OK) && !(st.st_mode & 0200)) return fail(EACCES);
    if ((mode & X_OK) && !(st.st_mode & 0100)) return fail(EACCES);
    return 0;
}
off_t doLseek(int fd, off_t off, int wh) {
    InSim g;
    FdEnt* f = fdGet(fd);
    if (!f) { errno = EBADF; return -1; }
    Decision d = opBegin(OP_LSEEK, f->path, (uint64_t)off * 4 + (uint64_t)wh, true, false);
    if (d.err) return fail(d.err);
    int64_t p = wh == SEEK_SET ? off : wh == SEEK_CUR ? f->pos + off : (int64_t)f->node->data.size() + off;
    if (p < 0) return fail(EINVAL);
    f->pos = p;
    return p;
}
ssize_t doCopy(int out, off_t* outOff, int in, off_t* inOff, size_t n) {
    InSim g;
    FdEnt *fo = fdGet(out), *fi = fdGet(in);
    if (!fo || !fi) { errno = EBADF; return -1; }
    Decision d = opBegin(OP_COPY, fi->path + " -> " + fo->path, n, true, true);
    if (d.err) return fail(d.err);
    if (fi->node->type != NT_FILE || fo->node->type != NT_FILE) return fail(EINVAL);
    int64_t pi = inOff ? *inOff : fi->pos, po = outOff ? *outOff : fo->pos;
    int64_t avail = (int64_t)fi->node->data.size() - pi;
    int64_t m = avail < 0 ? 0 : avail < (int64_t)n ? avail : (int64_t)n;
    if (d.limit >= 0 && m > d.limit) m = d.limit;
    if (d.line && m > 0) m = wholeLines(fi->node->data.data() + pi, m);
    std::string tmp = fi->node->data.substr((size_t)pi, (size_t)m);
    ssize_t r = m ? storeBytes(fo, tmp.data(), (size_t)m, po) : 0;
    if (d.crashMid) endRun(END_CRASH, 0, "crash inside copy " + fo->path);
    if (r < 0) { opFailed(); return r; }
    if (inOff) *inOff += r; else fi->pos += r;
    if (outOff) *outOff += r; else fo->pos += r;
    return r;
}
int doChmod(const NodeP& n, const std::string& canon, mode_t m) {
    Decision d = opBegin(OP_CHMOD, canon, m, true, true);
    if (d.err) return fail(d.err);
    if (n->mode != (m & 07777)) { n->mode = m & 07777; mutated(MU_CHMOD, canon); }
    return 0;
}
int doTrunc(const NodeP& n, const std::string& canon, off_t len) {
    Decision d = opBegin(OP_TRUNC, canon, (uint64_t)len, true, true);
    if (d.err) return fail(d.err);
    if (n->type != NT_FILE) return fail(EISDIR);
    g_vfs->touchData(n);
    n->data.resize((size_t)len, '\0'); n->mtime = g_vfs->now;
    mutated(MU_TRUNC, canon);
    return 0;
}
void escape(const std::string& what) { InSim g; t_proc->escapes.push_back(what); t_proc->logHash = mix64(t_proc->logHash ^ hashStr(what)); }

int64_t simClock() {
    InSim g;
    Proc& p = *t_proc;
    if (p.knobs->clockJump) g_vfs->now += (int64_t)p.miscRng.below((uint64_t)p.knobs->clockJump);
    else g_vfs->now += 1000;
    return g_vfs->now;
}

// --- FILE streams on simulated descriptors
std::unordered_map<FILE*, int>& fileMap() { static auto* m = new std::unordered_map<FILE*, int>(); return *m; }
ssize_t ckRead(void* c, char* b, size_t n) { return doRead((int)(intptr_t)c, b, n, -1); }
ssize_t ckWrite(void* c, const char* b, size_t n) { ssize_t r = doWrite((int)(intptr_t)c, b, n, -1); return r < 0 ? 0 : r; }
int ckSeek(void* c, off64_t* o, int w) { off_t r = doLseek((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
int ckClose(void* c) { return doClose((int)(intptr_t)c); }
FILE* wrapFd(int fd, const char* mode) {
    InSim g;
    cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
    FILE* f = ::fopencookie((void*)(intptr_t)fd, mode, io);
    if (f) fileMap()[f] = fd;
    return f;
}
int modeFlags(const char* m) {
    int fl = 0; bool plus = strchr(m, '+') != nullptr;
    if (m[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
    else if (m[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else if (m[0] == 'a') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    else return -1;
    if (strchr(m, 'x')) fl |= O_EXCL;
    return fl;
}
FILE* doFopen(const char* path, const char* mode) {
    int fl = modeFlags(mode);
    if (fl < 0) { errno = EINVAL; return nullptr; }
    std::unique_ptr<std::string> ps; { InSim g; ps.reset(new std::string(path)); }
    int fd = doOpen(*ps, fl, 0666);
    { int e = errno; InSim g; ps.reset(); errno = e; }
    if (fd < 0) return nullptr;
    return wrapFd(fd, mode);
}
// stdout / stderr
int sinkOf(FILE* f) { return f == stdout ? 0 : f == stderr ? 1 : -1; }
bool sinkFails(FILE* f) {
    int s = sinkOf(f);
    if (s < 0 || !t_proc) return false;
    Proc& p = *t_proc;
    int n = p.sinkCalls[s]++;
    int from = p.plan->sinkFrom[s];
    if (from < 0 || n < from || (p.plan->sinkCount[s] && n >= from + p.plan->sinkCount[s])) return false;
    ++p.sinkFails;
    errno = p.plan->sinkErr[s];
    return true;
}

} // namespace

struct DirStream { int fd; std::vector<std::pair<std::string, NodeP>> list; size_t pos = 0; struct dirent de; NodeP self; };

namespace {
// The magic first word tells our directory streams from real ones.
struct DirBox { uint64_t magic; DirStream* s; };
const uint64_t DirMagic = 0x5d1f51a7d1f5ULL;
DIR* dirFromFd(int fd) {
    InSim g;
    FdEnt* f = fdGet(fd);
    if (!f) { errno = EBADF; return nullptr; }
    if (f->node->type != NT_DIR) { errno = ENOTDIR; return nullptr; }
    auto* s = new DirStream; s->fd = fd; s->self = f->node;
    s->list.emplace_back(".", f->node); s->list.emplace_back("..", f->node);
    for (auto& e : f->node->ents) s->list.push_back(e);
    if (uint64_t ds = t_proc->knobs->dirSeed) { Rng r(mix64(ds) ^ hashStr(f->path)); r.shuffle(s->list); }
    auto* b = new DirBox{DirMagic, s};
    return (DIR*)b;
}
DirBox* boxOf(DIR* d) { auto* b = (DirBox*)d; return b && b->magic == DirMagic ? b : nullptr; }
struct dirent* doReaddir(DirBox* b) {
    InSim g;
    auto* s = b->s;
    Decision d = opBegin(OP_READDIR, fdGet(s->fd) ? fdGet(s->fd)->path : "?", s->pos, true, false);
    if (d.err) { fail(d.err); return nullptr; }
    while (s->pos < s->list.size()) {
        auto& e = s->list[s->pos++];
        if (e.first != "." && e.first != ".." && !s->self->ents.count(e.first)) continue;
        memset(&s->de, 0, sizeof s->de);
        s->de.d_ino = inoOf(*e.second); s->de.d_off = (off_t)s->pos; s->de.d_reclen = sizeof s->de;
        s->de.d_type = t_proc->knobs->dtUnknown ? DT_UNKNOWN : e.second->type == NT_DIR ? DT_DIR : e.second->type == NT_LINK ? DT_LNK : DT_REG;
        strncpy(s->de.d_name, e.first.c_str(), 255);
        return &s->de;
    }
    return nullptr;
}
std::string S(const char* p) { return p ? p : ""; }
} // namespace
} // namespace sim

using namespace sim;
#define PATHCALL(expr) ([&]{ std::unique_ptr<std::string> ps_; { InSim g_; ps_.reset(new std::string(S(path))); } const std::string& P = *ps_; auto r_ = (expr); int e_ = errno; { InSim g_; ps_.reset(); } errno = e_; return r_; }())
#define ATCALL(expr) ([&]{ std::unique_ptr<std::string> ps_; { InSim g_; ps_.reset(new std::string(atPath(dfd, path))); } const std::string& P = *ps_; auto r_ = (expr); int e_ = errno; { InSim g_; ps_.reset(); } errno = e_; return r_; }())

extern "C" {

// ------------------------------------------------------------------ open / close
static mode_t vaMode(int flags, va_list ap) { return (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, mode_t) : 0; }
int open(const char* path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = vaMode(flags, ap); va_end(ap); return simOn() ? PATHCALL(doOpen(P, flags, m)) : (int)syscall(SYS_openat, AT_FDCWD, path, flags, m); }
int open64(const char* path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = vaMode(flags, ap); va_end(ap); return simOn() ? PATHCALL(doOpen(P, flags, m)) : (int)syscall(SYS_openat, AT_FDCWD, path, flags, m); }
int __open_2(const char* path, int flags) { return simOn() ? PATHCALL(doOpen(P, flags, 0)) : (int)syscall(SYS_openat, AT_FDCWD, path, flags, 0); }
int __open64_2(const char* path, int flags) { return __open_2(path, flags); }
int openat(int dfd, const char* path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = vaMode(flags, ap); va_end(ap); return simOn() ? ATCALL(doOpen(P, flags, m)) : (int)syscall(SYS_openat, dfd, path, flags, m); }
int openat64(int dfd, const char* path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = vaMode(flags, ap); va_end(ap); return simOn() ? ATCALL(doOpen(P, flags, m)) : (int)syscall(SYS_openat, dfd, path, flags, m); }
int __openat_2(int dfd, const char* path, int flags) { return simOn() ? ATCALL(doOpen(P, flags, 0)) : (int)syscall(SYS_openat, dfd, path, flags, 0); }
int __openat64_2(int dfd, const char* path, int flags) { return __openat_2(dfd, path, flags); }
int creat(const char* path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char* path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) { return simOn() && fd > 2 ? doClose(fd) : (int)syscall(SYS_close, fd); }

// ------------------------------------------------------------------ transfers
ssize_t read(int fd, void* b, size_t n) { return simOn() && fd > 2 ? doRead(fd, b, n, -1) : simOn() && fd == 0 ? 0 : syscall(SYS_read, fd, b, n); }
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { return simOn() ? doRead(fd, b, n, o) : syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t write(int fd, const void* b, size_t n) { return simOn() && fd > 2 ? doWrite(fd, (const char*)b, n, -1) : syscall(SYS_write, fd, b, n); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return simOn() ? doWrite(fd, (const char*)b, n, o) : syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (!simOn() || fd <= 2) return syscall(SYS_writev, fd, v, c);
    std::unique_ptr<std::string> all; { InSim g; all.reset(new std::string()); for (int i = 0; i < c; ++i) all->append((const char*)v[i].iov_base, v[i].iov_len); }
    ssize_t r = doWrite(fd, all->data(), all->size(), -1);
    int e = errno; { InSim g; all.reset(); } errno = e;
    return r;
}
ssize_t readv(int fd, const struct iovec* v, int c) {
    if (!simOn() || fd <= 2) return syscall(SYS_readv, fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; ++i) { ssize_t r = doRead(fd, v[i].iov_base, v[i].iov_len, -1); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
off_t lseek(int fd, off_t o, int w) { return simOn() && fd > 2 ? doLseek(fd, o, w) : syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
ssize_t sendfile(int out, int in, off_t* off, size_t n) { return simOn() ? doCopy(out, nullptr, in, off, n) : syscall(SYS_sendfile, out, in, off, n); }
ssize_t sendfile64(int out, int in, off64_t* off, size_t n) { return sendfile(out, in, off, n); }
ssize_t copy_file_range(int in, off64_t* io, int out, off64_t* oo, size_t n, unsigned fl) { return simOn() ? doCopy(out, oo, in, io, n) : syscall(SYS_copy_file_range, in, io, out, oo, n, fl); }
static int simSync(int fd) { InSim g; FdEnt* f = fdGet(fd); if (!f) { errno = EBADF; return -1; } Decision d = opBegin(OP_FSYNC, f->path, 0, true, true); if (d.err) return fail(d.err); f->node->dirty = f->node->bornDirty = false; f->node->durData.clear(); f->node->durEnts.reset(); return 0; }
int fsync(int fd) { return simOn() ? simSync(fd) : (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return simOn() ? simSync(fd) : (int)syscall(SYS_fdatasync, fd); }
int ftruncate(int fd, off_t l) { if (!simOn()) return (int)syscall(SYS_ftruncate, fd, l); InSim g; FdEnt* f = fdGet(fd); if (!f) { errno = EBADF; return -1; } return doTrunc(f->node, f->path, l); }
int ftruncate64(int fd, off64_t l) { return ftruncate(fd, l); }
int truncate(const char* path, off_t l) { if (!simOn()) return (int)syscall(SYS_truncate, path, l); InSim g; Vfs::Res r; int e = g_vfs->resolve(t_proc->cwd, path, true, r); if (e) { errno = e; return -1; } return doTrunc(r.node, r.canon, l); }
int truncate64(const char* path, off64_t l) { return truncate(path, l); }
int posix_fadvise(int fd, off_t o, off_t l, int a) { return simOn() ? 0 : (int)syscall(SYS_fadvise64, fd, o, l, a); }
int posix_fadvise64(int fd, off64_t o, off64_t l, int a) { return posix_fadvise(fd, o, l, a); }
int posix_fallocate(int fd, off_t o, off_t l) { return simOn() ? EOPNOTSUPP : (int)syscall(SYS_fallocate, fd, 0, o, l); }

// ------------------------------------------------------------------ metadata
int stat(const char* path, struct stat* st) { return simOn() ? PATHCALL(doStat(P, st, true)) : (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, 0); }
int lstat(const char* path, struct stat* st) { return simOn() ? PATHCALL(doStat(P, st, false)) : (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW); }
int fstat(int fd, struct stat* st) {
    if (!simOn()) return (int)syscall(SYS_fstat, fd, st);
    if (fd <= 2) { memset(st, 0, sizeof *st); st->st_mode = S_IFIFO | 0600; return 0; }
    return doFstat(fd, st);
}
int stat64(const char* path, struct stat64* st) { return stat(path, (struct stat*)st); }
int lstat64(const char* path, struct stat64* st) { return lstat(path, (struct stat*)st); }
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int fstatat(int dfd, const char* path, struct stat* st, int fl) {
    if (!simOn()) return (int)syscall(SYS_newfstatat, dfd, path, st, fl);
    if ((fl & AT_EMPTY_PATH) && !*path) return doFstat(dfd, st);
    return ATCALL(doStat(P, st, !(fl & AT_SYMLINK_NOFOLLOW)));
}
int fstatat64(int dfd, const char* path, struct stat64* st, int fl) { return fstatat(dfd, path, (struct stat*)st, fl); }
int __xstat(int, const char* path, struct stat* st) { return stat(path, st); }
int __xstat64(int, const char* path, struct stat64* st) { return stat(path, (struct stat*)st); }
int __lxstat(int, const char* path, struct stat* st) { return lstat(path, st); }
int __lxstat64(int, const char* path, struct stat64* st) { return lstat(path, (struct stat*)st); }
int __fxstat(int, int fd, struct stat* st) { return fstat(fd, st); }
int __fxstat64(int, int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int statx(int dfd, const char* path, int fl, unsigned mask, struct statx* sx) {
    if (!simOn()) return (int)syscall(SYS_statx, dfd, path, fl, mask, sx);
    struct stat st;
    if (fstatat(dfd, path, &st, fl & (AT_SYMLINK_NOFOLLOW | AT_EMPTY_PATH)) != 0) return -1;
    memset(sx, 0, sizeof *sx);
    sx->stx_mask = STATX_BASIC_STATS; sx->stx_mode = (uint16_t)st.st_mode; sx->stx_size = (uint64_t)st.st_size; sx->stx_nlink = (uint32_t)st.st_nlink; sx->stx_ino = st.st_ino; sx->stx_blksize = 4096; sx->stx_blocks = (uint64_t)st.st_blocks;
    sx->stx_mtime.tv_sec = st.st_mtim.tv_sec; sx->stx_mtime.tv_nsec = (uint32_t)st.st_mtim.tv_nsec; sx->stx_atime = sx->stx_ctime = sx->stx_mtime; sx->stx_uid = 1000; sx->stx_gid = 1000;
    return 0;
}
int access(const char* path, int m) { return simOn() ? PATHCALL(doAccess(P, m)) : (int)syscall(SYS_faccessat, AT_FDCWD, path, m); }
int euidaccess(const char* path, int m) { return access(path, m); }
int eaccess(const char* path, int m) { return access(path, m); }
int faccessat(int dfd, const char* path, int m, int fl) { return simOn() ? ATCALL(doAccess(P, m)) : (int)syscall(SYS_faccessat, dfd, path, m, fl); }
int mkdir(const char* path, mode_t m) { return simOn() ? PATHCALL(doMkdir(P, m)) : (int)syscall(SYS_mkdir, path, m); }
int mkdirat(int dfd, const char* path, mode_t m) { return simOn() ? ATCALL(doMkdir(P, m)) : (int)syscall(SYS_mkdirat, dfd, path, m); }
int rmdir(const char* path) { return simOn() ? PATHCALL(doUnlink(P, true)) : (int)syscall(SYS_rmdir, path); }
int unlink(const char* path) { return simOn() ? PATHCALL(doUnlink(P, false)) : (int)syscall(SYS_unlink, path); }
int unlinkat(int dfd, const char* path, int fl) { return simOn() ? ATCALL(doUnlink(P, fl & AT_REMOVEDIR)) : (int)syscall(SYS_unlinkat, dfd, path, fl); }
int remove(const char* path) {
    if (!simOn()) return REAL(remove)(path);
    int r = PATHCALL(doUnlink(P, false));
    if (r != 0 && errno == EISDIR) r = PATHCALL(doUnlink(P, true));
    return r;
}
static int rename2(const char* path, const char* b) { std::unique_ptr<std::string> pb; { InSim g; pb.reset(new std::string(S(b))); } int r = PATHCALL(doRename(P, *pb)); int e = errno; { InSim g; pb.reset(); } errno = e; return r; }
int rename(const char* a, const char* b) { return simOn() ? rename2(a, b) : (int)syscall(SYS_rename, a, b); }
int renameat(int d1, const char* a, int d2, const char* b) { if (!simOn()) return (int)syscall(SYS_renameat2, d1, a, d2, b, 0); InSim g; std::string x = atPath(d1, a), y = atPath(d2, b); return doRename(x, y); }
int renameat2(int d1, const char* a, int d2, const char* b, unsigned fl) { if (!simOn()) return (int)syscall(SYS_renameat2, d1, a, d2, b, fl); return renameat(d1, a, d2, b); }
static int simLink(const std::string& a, const std::string& b) {
    InSim g; Vfs::Res ra, rb; int ea = g_vfs->resolve(t_proc->cwd, a, false, ra), eb = g_vfs->resolve(t_proc->cwd, b, false, rb);
    std::string cb = eb == 0 || rb.parent ? rb.canon : b;
    Decision d = opBegin(OP_LINK, cb, 0, ea == 0, true); if (d.err) return fail(d.err);
    if (ea) return fail(ea);
    if (eb == 0) return fail(EEXIST);
    if (!rb.parent) return fail(eb);
    g_vfs->touchDir(rb.parent); rb.parent->ents[rb.name] = ra.node; ++ra.node->nlink; mutated(MU_LINK, cb); t_proc->created.insert(cb); return 0;
}
int link(const char* a, const char* b) { if (!simOn()) return (int)syscall(SYS_link, a, b); InSim g; std::string x = S(a), y = S(b); return simLink(x, y); }
int linkat(int d1, const char* a, int d2, const char* b, int fl) { if (!simOn()) return (int)syscall(SYS_linkat, d1, a, d2, b, fl); InSim g; std::string x = atPath(d1, a), y = atPath(d2, b); return simLink(x, y); }
static int simSymlink(const std::string& target, const std::string& b) {
    InSim g; Vfs::Res rb; int eb = g_vfs->resolve(t_proc->cwd, b, false, rb);
    std::string cb = eb == 0 || rb.parent ? rb.canon : b;
    Decision d = opBegin(OP_LINK, cb, 1, eb == 0, true); if (d.err) return fail(d.err);
    if (eb == 0) return fail(EEXIST);
    if (!rb.parent) return fail(eb);
    g_vfs->touchDir(rb.parent); auto n = g_vfs->mk(NT_LINK, 0777); n->data = target; rb.parent->ents[rb.name] = n; mutated(MU_LINK, cb); t_proc->created.insert(cb); return 0;
}
int symlink(const char* t, const char* b) { if (!simOn()) return (int)syscall(SYS_symlink, t, b); InSim g; std::string x = S(t), y = S(b); return simSymlink(x, y); }
int symlinkat(const char* t, int d2, const char* b) { if (!simOn()) return (int)syscall(SYS_symlinkat, t, d2, b); InSim g; std::string x = S(t), y = atPath(d2, b); return simSymlink(x, y); }
ssize_t readlink(const char* path, char* buf, size_t n) {
    if (!simOn()) return syscall(SYS_readlink, path, buf, n);
    InSim g; Vfs::Res r; int e = g_vfs->resolve(t_proc->cwd, path, false, r);
    Decision d = opBegin(OP_READLINK, path, 0, e == 0, false); if (d.err) return fail(d.err);
    if (e) return fail(e);
    if (r.node->type != NT_LINK) return fail(EINVAL);
    size_t m = std::min(n, r.node->data.size()); memcpy(buf, r.node->data.data(), m); return (ssize_t)m;
}
ssize_t readlinkat(int dfd, const char* path, char* buf, size_t n) { if (!simOn()) return syscall(SYS_readlinkat, dfd, path, buf, n); InSim g; std::string x = atPath(dfd, path); --t_inSim; ssize_t r = readlink(x.c_str(), buf, n); ++t_inSim; return r; }
static int simChmod(const std::string& p, mode_t m) { InSim g; Vfs::Res r; int e = g_vfs->resolve(t_proc->cwd, p, true, r); if (e) { opBegin(OP_CHMOD, p, m, false, true); return fail(e); } return doChmod(r.node, r.canon, m); }
int chmod(const char* path, mode_t m) { return simOn() ? PATHCALL(simChmod(P, m)) : (int)syscall(SYS_chmod, path, m); }
int fchmod(int fd, mode_t m) { if (!simOn()) return (int)syscall(SYS_fchmod, fd, m); InSim g; FdEnt* f = fdGet(fd); if (!f) { errno = EBADF; return -1; } return doChmod(f->node, f->path, m); }
int fchmodat(int dfd, const char* path, mode_t m, int fl) { return simOn() ? ATCALL(simChmod(P, m)) : (int)syscall(SYS_fchmodat, dfd, path, m, fl); }
int chown(const char* path, uid_t u, gid_t gr) { return simOn() ? 0 : (int)syscall(SYS_chown, path, u, gr); }
int fchown(int fd, uid_t u, gid_t gr) { return simOn() ? 0 : (int)syscall(SYS_fchown, fd, u, gr); }
static int simUtime(const std::string& p, int64_t t) { InSim g; Vfs::Res r; int e = g_vfs->resolve(t_proc->cwd, p, true, r); Decision d = opBegin(OP_UTIME, p, 0, e == 0, true); if (d.err) return fail(d.err); if (e) return fail(e); r.node->mtime = t; mutated(MU_UTIME, r.canon); return 0; }
int utimensat(int dfd, const char* path, const struct timespec ts[2], int fl) { if (!simOn()) return (int)syscall(SYS_utimensat, dfd, path, ts, fl); int64_t t = ts && ts[1].tv_nsec < 1000000000 ? ts[1].tv_sec * 1000000000LL + ts[1].tv_nsec : g_vfs->now; return ATCALL(simUtime(P, t)); }
int utimes(const char* path, const struct timeval tv[2]) { if (!simOn()) return REAL(utimes)(path, tv); int64_t t = tv ? tv[1].tv_sec * 1000000000LL + tv[1].tv_usec * 1000 : g_vfs->now; return PATHCALL(simUtime(P, t)); }
int utime(const char* path, const struct utimbuf* ub) { if (!simOn()) return REAL(utime)(path, ub); int64_t t = ub ? ub->modtime * 1000000000LL : g_vfs->now; return PATHCALL(simUtime(P, t)); }
int futimens(int fd, const struct timespec ts[2]) { if (!simOn()) return (int)syscall(SYS_utimensat, fd, nullptr, ts, 0); InSim g; FdEnt* f = fdGet(fd); if (!f) { errno = EBADF; return -1; } return simUtime(f->path, ts ? ts[1].tv_sec * 1000000000LL + ts[1].tv_nsec : g_vfs->now); }
int statvfs(const char* path, struct statvfs* b) { if (!simOn()) return REAL(statvfs)(path, b); memset(b, 0, sizeof *b); b->f_bsize = b->f_frsize = 4096; b->f_blocks = b->f_bfree = b->f_bavail = 1 << 20; b->f_namemax = 255; return 0; }
int statvfs64(const char* path, struct statvfs64* b) { return statvfs(path, (struct statvfs*)b); }
int fstatvfs(int fd, struct statvfs* b) { if (!simOn()) return REAL(fstatvfs)(fd, b); return statvfs("/", b); }
mode_t umask(mode_t m) { return simOn() ? 022 : (mode_t)syscall(SYS_umask, m); }

// ------------------------------------------------------------------ directories
DIR* fdopendir(int fd) { return simOn() ? dirFromFd(fd) : REAL(fdopendir)(fd); }
DIR* opendir(const char* path) {
    if (!simOn()) return REAL(opendir)(path);
    int fd = PATHCALL(doOpen(P, O_RDONLY | O_DIRECTORY, 0));
    return fd < 0 ? nullptr : dirFromFd(fd);
}
struct dirent* readdir(DIR* d) { DirBox* b = boxOf(d); return b ? doReaddir(b) : REAL(readdir)(d); }
struct dirent64* readdir64(DIR* d) { DirBox* b = boxOf(d); return b ? (struct dirent64*)doReaddir(b) : REAL(readdir64)(d); }
void rewinddir(DIR* d) { DirBox* b = boxOf(d); if (b) b->s->pos = 0; else REAL(rewinddir)(d); }
int dirfd(DIR* d) { DirBox* b = boxOf(d); return b ? b->s->fd : REAL(dirfd)(d); }
int closedir(DIR* d) {
    DirBox* b = boxOf(d);
    if (!b) return REAL(closedir)(d);
    int r = doClose(b->s->fd);
    InSim g; b->magic = 0; delete b->s; delete b;
    return r;
}
char* getcwd(char* buf, size_t n) {
    if (!simOn()) { return REAL(getcwd)(buf, n); }
    std::unique_ptr<std::string> c; int err; { InSim g; Decision d = opBegin(OP_CWD, t_proc->cwd, 0, true, false); err = d.err; c.reset(new std::string(t_proc->cwd)); }
    size_t need = c->size() + 1;
    if (!err && buf && n < need) err = ERANGE;
    if (!err) { if (!buf) buf = (char*)malloc(n > need ? n : need); if (buf) memcpy(buf, c->c_str(), need); else err = ENOMEM; }
    { InSim g; c.reset(); }
    if (err) { fail(err); return nullptr; }
    return buf;
}
char* __getcwd_chk(char* b, size_t n, size_t) { return getcwd(b, n); }
char* get_current_dir_name(void) { return simOn() ? getcwd(nullptr, 0) : REAL(get_current_dir_name)(); }
int chdir(const char* path) { if (!simOn()) return (int)syscall(SYS_chdir, path); InSim g; Vfs::Res r; int e = g_vfs->resolve(t_proc->cwd, path, true, r); Decision d = opBegin(OP_CWD, path, 1, e == 0, false); if (d.err) return fail(d.err); if (e) return fail(e); if (r.node->type != NT_DIR) return fail(ENOTDIR); t_proc->cwd = r.canon; return 0; }
int fchdir(int fd) { if (!simOn()) return (int)syscall(SYS_fchdir, fd); InSim g; FdEnt* f = fdGet(fd); if (!f) { errno = EBADF; return -1; } t_proc->cwd = f->path; return 0; }
char* realpath(const char* path, char* out) {
    if (!simOn()) return REAL(realpath)(path, out);
    std::unique_ptr<std::string> c; int err;
    { InSim g; Vfs::Res r; err = g_vfs->resolve(t_proc->cwd, path, true, r); Decision d = opBegin(OP_STAT, err == 0 ? r.canon : S(path), 3, err == 0, false); if (d.err) err = d.err; c.reset(new std::string(r.canon)); }
    if (!err) { if (!out) out = (char*)malloc(PATH_MAX); if (out) strcpy(out, c->c_str()); else err = ENOMEM; }
    { InSim g; c.reset(); }
    if (err) { fail(err); return nullptr; }
    return out;
}
char* __realpath_chk(const char* p, char* o, size_t) { return realpath(p, o); }
char* canonicalize_file_name(const char* p) { return realpath(p, nullptr); }

// ------------------------------------------------------------------ descriptors
int dup(int fd) { if (!simOn()) return (int)syscall(SYS_dup, fd); InSim g; FdEnt* f = fdGet(fd); if (!f) { errno = EBADF; return -1; } auto e = std::make_unique<FdEnt>(*f); return fdAlloc(std::move(e)); }
static int simFcntl(int fd, int cmd) { FdEnt* f = fdGet(fd); if (fd > 2 && !f) { errno = EBADF; return -1; } if (cmd == F_GETFL) return f ? f->flags : O_RDWR; return 0; }
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap); if (!simOn()) return (int)syscall(SYS_fcntl, fd, cmd, a); if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return dup(fd); return simFcntl(fd, cmd); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap); if (!simOn()) return (int)syscall(SYS_fcntl, fd, cmd, a); if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return dup(fd); return simFcntl(fd, cmd); }
int ioctl(int fd, unsigned long rq, ...) { va_list ap; va_start(ap, rq); void* a = va_arg(ap, void*); va_end(ap); if (!simOn()) return (int)syscall(SYS_ioctl, fd, rq, a); errno = ENOTTY; return -1; }
int isatty(int fd) { if (!simOn()) return REAL(isatty)(fd); errno = ENOTTY; return 0; }
int flock(int fd, int op) { return simOn() ? 0 : (int)syscall(SYS_flock, fd, op); }
int poll(struct pollfd* p, nfds_t n, int t) { if (!simOn()) return (int)syscall(SYS_poll, p, n, t); for (nfds_t i = 0; i < n; ++i) p[i].revents = p[i].events; return (int)n; }

// ------------------------------------------------------------------ streams
FILE* fopen(const char* path, const char* m) { return simOn() ? doFopen(path, m) : REAL(fopen)(path, m); }
FILE* fopen64(const char* path, const char* m) { return simOn() ? doFopen(path, m) : REAL(fopen64)(path, m); }
FILE* freopen(const char* path, const char* m, FILE* f) { if (!simOn()) return REAL(freopen)(path, m, f); escape("freopen"); errno = EINVAL; return nullptr; }
FILE* fdopen(int fd, const char* m) { return simOn() && fd > 2 ? wrapFd(fd, m) : REAL(fdopen)(fd, m); }
int fileno(FILE* f) { if (simOn()) { InSim g; auto it = fileMap().find(f); if (it != fileMap().end()) return it->second; } return REAL(fileno)(f); }
int fclose(FILE* f) { if (simOn()) { InSim g; fileMap().erase(f); --t_inSim; int r = REAL(fclose)(f); ++t_inSim; return r; } return REAL(fclose)(f); }
FILE* tmpfile(void) { if (!simOn()) return REAL(tmpfile)(); escape("tmpfile"); errno = EACCES; return nullptr; }
static int simTemp(char* t, int suffix, bool dir, int flags) {
    size_t n = strlen(t);
    if (n < 6u + (size_t)suffix) { errno = EINVAL; return -1; }
    for (int tries = 0; tries < 50; ++tries) {
        uint64_t v; { InSim g; v = t_proc->miscRng.next(); }
        for (int i = 0; i < 6; ++i) { t[n - (size_t)suffix - 6 + (size_t)i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[v % 62]; v /= 62; }
        int r = dir ? mkdir(t, 0700) : open(t, O_RDWR | O_CREAT | O_EXCL | flags, 0600);
        if (r >= 0 || errno != EEXIST) return r;
    }
    return -1;
}
int mkstemp(char* t) { return simOn() ? simTemp(t, 0, false, 0) : REAL(mkstemp)(t); }
int mkstemp64(char* t) { return mkstemp(t); }
int mkostemp(char* t, int fl) { return simOn() ? simTemp(t, 0, false, fl) : REAL(mkostemp)(t, fl); }
char* mkdtemp(char* t) { if (!simOn()) return REAL(mkdtemp)(t); return simTemp(t, 0, true, 0) == 0 ? t : nullptr; }
char* tmpnam(char* s) { if (!simOn()) return nullptr; static char b[64]; char* o = s ? s : b; InSim g; snprintf(o, 20, "/tmp/file%06llu", (unsigned long long)(t_proc->miscRng.next() % 1000000)); return o; }
size_t fwrite(const void* p, size_t s, size_t n, FILE* f) { if (simOn() && sinkFails(f)) return 0; return REAL(fwrite)(p, s, n, f); }
int fputc(int c, FILE* f) { if (simOn() && sinkFails(f)) return EOF; return REAL(fputc)(c, f); }
#undef putc
int putc(int c, FILE* f) { if (simOn() && sinkFails(f)) return EOF; return REAL(fputc)(c, f); }
int fputs(const char* s, FILE* f) { if (simOn() && sinkFails(f)) return EOF; return REAL(fputs)(s, f); }
int fflush(FILE* f) { if (simOn() && f && sinkOf(f) >= 0 && t_proc->plan->sinkFrom[sinkOf(f)] >= 0 && sinkFails(f)) return EOF; return REAL(fflush)(f); }

// ------------------------------------------------------------------ time, identity, randomness
int clock_gettime(clockid_t c, struct timespec* ts) { if (!simOn()) return (int)syscall(SYS_clock_gettime, c, ts); int64_t t = simClock(); ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0; }
time_t time(time_t* t) { if (!simOn()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; } time_t v = simClock() / 1000000000; if (t) *t = v; return v; }
int gettimeofday(struct timeval* tv, void*) { if (!simOn()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; } int64_t v = simClock(); tv->tv_sec = v / 1000000000; tv->tv_usec = v % 1000000000 / 1000; return 0; }
clock_t clock(void) { if (!simOn()) return REAL(clock)(); return (clock_t)(simClock() / 1000 % 1000000000); }
int timespec_get(struct timespec* ts, int b) { if (!simOn()) return REAL(timespec_get)(ts, b); clock_gettime(CLOCK_REALTIME, ts); return b; }
int nanosleep(const struct timespec* a, struct timespec* r) { if (!simOn()) return (int)syscall(SYS_nanosleep, a, r); g_vfs->now += a->tv_sec * 1000000000LL + a->tv_nsec; return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* r) { if (!simOn()) return (int)-syscall(SYS_clock_nanosleep, c, fl, a, r); g_vfs->now += fl ? 1000000 : a->tv_sec * 1000000000LL + a->tv_nsec; return 0; }
int usleep(useconds_t u) { if (!simOn()) return REAL(usleep)(u); g_vfs->now += u * 1000LL; return 0; }
unsigned sleep(unsigned s) { if (!simOn()) return REAL(sleep)(s); g_vfs->now += s * 1000000000LL; return 0; }
pid_t getpid(void) { return simOn() ? t_proc->knobs->pid : (pid_t)syscall(SYS_getpid); }
pid_t getppid(void) { return simOn() ? t_proc->knobs->pid - 1 : (pid_t)syscall(SYS_getppid); }
uid_t getuid(void) { return simOn() ? 1000 : (uid_t)syscall(SYS_getuid); }
uid_t geteuid(void) { return simOn() ? 1000 : (uid_t)syscall(SYS_geteuid); }
// A variable the program asks for and that is not among the common ones: whatever the (perturbed) environment may hold.
static const char* odd(const char* name) {
    if (t_proc->knobs->miscSeed == Knobs().miscSeed) return nullptr;
    static const char* v[] = {"1", "0", "", "yes", "/tmp", "/work/other", "tr_TR.UTF-8", "abc", "-5", "2000000000"};
    uint64_t h = mix64(hashStr(name) ^ t_proc->knobs->miscSeed);
    return h % 3 == 0 ? nullptr : v[h / 3 % 10];
}
char* getenv(const char* name) {
    static char* (*f)(const char*) = (char* (*)(const char*))dlsym(RTLD_NEXT, "getenv");
    char* r = f(name);
    if (r || !simOn()) return r;
    uintptr_t c = (uintptr_t)__builtin_return_address(0);
    if (c < g_textLo || c >= g_textHi) return r;
    InSim g; return (char*)odd(name);
}
char* secure_getenv(const char* name) { return getenv(name); }
int get_nprocs(void) { return simOn() ? 1 + t_proc->knobs->pid % 16 : (int)REAL(get_nprocs)(); }
int get_nprocs_conf(void) { return simOn() ? 1 + t_proc->knobs->pid % 16 : (int)REAL(get_nprocs_conf)(); }
int uname(struct utsname* u) { if (!simOn()) return (int)syscall(SYS_uname, u); memset(u, 0, sizeof *u); strcpy(u->sysname, "Linux"); strcpy(u->machine, t_proc->knobs->pid % 2 ? "x86_64" : "aarch64"); snprintf(u->release, sizeof u->release, "6.%d", t_proc->knobs->pid % 13); snprintf(u->nodename, sizeof u->nodename, "host%d", t_proc->knobs->pid % 97); return 0; }
char* getlogin(void) { static char b[16]; if (!simOn()) return REAL(getlogin)(); snprintf(b, sizeof b, "user%d", t_proc->knobs->pid % 7); return b; }
int gethostname(char* b, size_t n) { if (!simOn()) return REAL(gethostname)(b, n); snprintf(b, n, "host%d", t_proc->knobs->pid % 97); return 0; }
ssize_t getrandom(void* b, size_t n, unsigned fl) { if (!simOn()) return syscall(SYS_getrandom, b, n, fl); InSim g; for (size_t i = 0; i < n; ++i) ((char*)b)[i] = (char)t_proc->miscRng.next(); return (ssize_t)n; }
int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }
uint32_t arc4random(void) { uint32_t v = 0; getrandom(&v, 4, 0); return v; }

// ------------------------------------------------------------------ effects a code generator must not have
#define ESC(what, ret) do { escape(what); errno = EPERM; return ret; } while (0)
int system(const char* c) { if (!simOn()) return REAL(system)(c); std::unique_ptr<std::string> w; { InSim g; w.reset(new std::string("system: " + S(c))); } ESC(*w, -1); }
FILE* popen(const char* c, const char* m) { if (!simOn()) return REAL(popen)(c, m); ESC("popen", nullptr); }
int execve(const char* p, char* const* a, char* const* e) { if (!simOn()) return (int)syscall(SYS_execve, p, a, e); ESC("execve", -1); }
int kill(pid_t p, int s) { if (!simOn()) return (int)syscall(SYS_kill, p, s); ESC("kill", -1); }
int socket(int a, int b, int c) { if (!simOn()) return (int)syscall(SYS_socket, a, b, c); ESC("socket", -1); }

void exit(int c) {
    if (g_active && t_proc && t_inSim == 0 && !g_threaded) { ++t_inSim; endRun(END_EXIT, c, ""); }
    typedef void (*F)(int); static F f = (F)dlsym(RTLD_NEXT, "exit"); f(c); __builtin_unreachable();
}
void _exit(int c) {
    if (g_active && t_proc && t_inSim == 0 && !g_threaded) { ++t_inSim; endRun(END_EXIT, c, ""); }
    syscall(SYS_exit_group, c); __builtin_unreachable();
}
} // extern "C"

// std::random_device draws from the simulated machine as well.
#include <bits/functexcept.h>
namespace std {
unsigned int random_device::_M_getval() { uint32_t v = 0; ::getrandom(&v, 4, 0); return v; }
}

// The simulated file system: inodes, a page cache with explicit durability, scheduled faults, crashes.
#include "world.hpp"
#include "os.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/stat.h>
#include <unistd.h>

namespace sim {

FsCfg g_fs; u64 g_fs_calls = 0, g_fs_faults = 0;
typedef std::shared_ptr<Inode> Ino;
static Ino g_root; static u64 g_inos = 100; static int g_uran = 0;
static Ino mk(bool dir) { auto i = std::make_shared<Inode>(); i->ino = ++g_inos; i->dir = dir; i->mode = dir ? 0755 : 0640; i->mtime = real_now() / 1000000; return i; }
void fs_reset() { g_root = mk(true); }
static Ino root() { if (!g_root) fs_reset(); return g_root; }
void fs_set_urandom(int m) { g_uran = m; }
static std::string* g_uran_next; static u64 g_uran_seed;
void fs_urandom_next(const std::string& b) { if (!g_uran_next) g_uran_next = new std::string; *g_uran_next += b; }
void fs_urandom_reseed(u64 s) { g_uran_seed = s | 1; }

static int walk(const std::string& path, Ino& parent, std::string& last, Ino& out) {
	Ino cur = root(); parent = nullptr; last = ""; out = nullptr;
	if (path.empty()) return ENOENT;
	if (path.size() >= PATH_MAX) return ENAMETOOLONG;
	size_t p = 0; std::vector<std::string> comps;
	while (p < path.size()) { size_t e = path.find('/', p); if (e == std::string::npos) e = path.size(); if (e > p) { std::string c = path.substr(p, e - p); if (c != ".") comps.push_back(c); } p = e + 1; }
	for (auto& c : comps) if (c.size() > 255) return ENAMETOOLONG;
	if (comps.empty()) { out = cur; return 0; }
	for (size_t i = 0; i < comps.size(); ++i) {
		if (!cur->dir) return ENOTDIR;
		bool fin = i + 1 == comps.size();
		if (comps[i] == "..") { auto up = cur->parent.lock(); Ino n = up ? up : cur; if (fin) { out = n; parent = n->parent.lock(); return 0; } cur = n; continue; }
		auto it = cur->ents.find(comps[i]);
		if (fin) { parent = cur; last = comps[i]; if (it == cur->ents.end()) return ENOENT; out = it->second; if (path.back() == '/' && !out->dir) return ENOTDIR; return 0; }
		if (it == cur->ents.end()) return ENOENT;
		cur = it->second;
	}
	return ENOENT;
}
Ino fs_lookup(const std::string& path) { Ino p, o; std::string l; return walk(path, p, l, o) == 0 ? o : nullptr; }
bool fs_exists(const std::string& p) { return bool(fs_lookup(p)); }
bool fs_isdir(const std::string& p) { auto i = fs_lookup(p); return i && i->dir; }
bool fs_get(const std::string& p, std::string& o) { auto i = fs_lookup(p); if (!i || i->dir) return false; o = i->data; return true; }
void fs_mkdirs(const std::string& path) { size_t p = 1; while (p <= path.size()) { size_t e = path.find('/', p); if (e == std::string::npos) e = path.size(); std::string sub = path.substr(0, e); Ino par, o; std::string l; if (walk(sub, par, l, o) == ENOENT && par) { auto d = mk(true); d->parent = par; par->ents[l] = d; } p = e + 1; } }
void fs_put(const std::string& path, const std::string& d) { size_t s = path.rfind('/'); if (s) fs_mkdirs(path.substr(0, s)); Ino par, o; std::string l; int e = walk(path, par, l, o); if (e == ENOENT && par) { o = mk(false); o->parent = par; par->ents[l] = o; } if (o) { o->data = o->durable = d; o->synced = true; } }
std::vector<std::string> fs_list(const std::string& d) { std::vector<std::string> v; auto i = fs_lookup(d); if (i && i->dir) for (auto& x : i->ents) v.push_back(x.first); return v; }
static void tree(const std::string& pre, Ino i, std::map<std::string, std::string>& m) { for (auto& x : i->ents) { std::string p = pre + "/" + x.first; if (x.second->dir) { m[p] = "<dir>"; tree(p, x.second, m); } else m[p] = x.second->data; } }
std::map<std::string, std::string> fs_tree(const std::string& d) { std::map<std::string, std::string> m; auto i = fs_lookup(d); if (i && i->dir) tree(d == "/" ? "" : d, i, m); return m; }
void fs_remove(const std::string& path) { Ino p, o; std::string l; if (walk(path, p, l, o) == 0 && p) p->ents.erase(l); }
bool fs_rename(const std::string& a, const std::string& b) { Ino p, o, q, r; std::string l, k; if (walk(a, p, l, o) != 0) return false; walk(b, q, k, r); if (!q) return false; p->ents.erase(l); q->ents[k] = o; o->parent = q; return true; }

static void crash_inode(Ino i) {
	if (i->dir) { for (auto& x : i->ents) crash_inode(x.second); return; }
	if (i->data == i->durable) return;
	u32 k = choose(4, "crash.torn");
	std::string before = i->data;
	if (k == 0) i->data = i->durable;                                       // nothing since the last fsync survived
	else if (k == 1) { }                                                    // everything had been written back by chance
	else if (k == 2) { size_t n = i->durable.size() + choose(u32(std::max<size_t>(1, i->data.size() - std::min(i->data.size(), i->durable.size()) + 1)), "crash.prefix"); if (n < i->data.size()) i->data.resize(n); }
	else { size_t n = choose(u32(i->data.size() + 1), "crash.zero"); for (size_t j = std::max(n, i->durable.size()); j < i->data.size(); ++j) i->data[j] = 0; }
	count(i->data == before ? "fault.crash.kept_unsynced" : "fault.crash.lost_unsynced");
	tr("after the crash: inode with %zu bytes (%zu durable) has %zu", before.size(), i->durable.size(), i->data.size());
	i->durable = i->data;
}
void fs_crash_recover() { crash_inode(root()); }
static u64 used(Ino i) { u64 n = i->data.size(); for (auto& x : i->ents) n += used(x.second); return n; }

// ------------------------------------------------------------------ faults
static int fault(u32 cls, const char* what, const std::string& path) {
	step(what);
	++g_fs_calls;
	if (g_fs.crash_at >= 0 && int(g_fs_calls) > g_fs.crash_at && !killed()) {
		g_fs.crash_at = -1; count("fault.crash"); tr("CRASH before %s(%s)", what, path.c_str()); nontrivial();
		kill_threads(); step("crash");
	}
	for (auto& f : g_fs.fails) {
		if (!(f.mask & cls)) continue;
		if (f.thread >= 0 && f.thread != cur_thread()) continue;
		if (!f.path.empty() && path.find(f.path) == std::string::npos) continue;
		if (f.fired && !f.sticky) continue;
		if (f.seen++ < f.nth) continue;
		f.fired = true; ++g_fs_faults; nontrivial();
		count(f.err == ENOSPC ? "fault.fs.enospc" : f.err == EMFILE ? "fault.fs.emfile" : f.err == EACCES ? "fault.fs.eacces" : f.err == EINTR ? "fault.fs.eintr" : "fault.fs.eio");
		tr("fault: %s(%s) fails: %s", what, path.c_str(), strerror(f.err));
		return f.err;
	}
	return 0;
}

struct VFileReg : VFile {
	Ino i; off_t pos = 0; int oflags = 0; std::string path;
	const char* kind() const override { return i->dir ? "dirfd" : "file"; }
	ssize_t read(void* b, size_t n) override { return pread_(b, n, -1); }
	ssize_t pread_(void* b, size_t n, off_t at) {
		if ((oflags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
		if (i->dir) { errno = EISDIR; return -1; }
		if (int e = fault(FC_READ, "read", path)) { errno = e; return -1; }
		if (g_fs.eintr && chance(g_fs.eintr, "fs.eintr")) { count("fault.eintr"); errno = EINTR; return -1; }
		off_t p = at >= 0 ? at : pos;
		size_t k = p < off_t(i->data.size()) ? std::min(n, i->data.size() - size_t(p)) : 0;
		if (k > 1 && g_fs.shortrd && chance(g_fs.shortrd, "fs.shortrd")) { k = 1 + choose(u32(k - 1), "fs.shortrd.n"); count("fault.fs.short_read"); }
		memcpy(b, i->data.data() + p, k); if (at < 0) pos += k;
		return k;
	}
	ssize_t write(const void* b, size_t n) override { return pwrite_(b, n, -1); }
	ssize_t pwrite_(const void* b, size_t n, off_t at) {
		if ((oflags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
		if (int e = fault(FC_WRITE, "write", path)) { errno = e; return -1; }
		if (g_fs.eintr && chance(g_fs.eintr, "fs.eintr")) { count("fault.eintr"); errno = EINTR; return -1; }
		if (n == 0) return 0;
		off_t p = at >= 0 ? at : (oflags & O_APPEND) ? off_t(i->data.size()) : pos;
		size_t k = n;
		if (k > 1 && g_fs.shortwr && chance(g_fs.shortwr, "fs.shortwr")) { k = 1 + choose(u32(k - 1), "fs.shortwr.n"); count("fault.fs.short_write"); }
		if (g_fs.capacity) {
			u64 u = used(root()); u64 grow = p + off_t(k) > off_t(i->data.size()) ? p + k - i->data.size() : 0;
			if (u + grow > g_fs.capacity) {
				u64 room = g_fs.capacity > u ? g_fs.capacity - u : 0; count("fault.fs.enospc"); ++g_fs_faults; nontrivial();
				if (room == 0 || p != off_t(i->data.size())) { tr("disk full"); errno = ENOSPC; return -1; }
				k = std::min<size_t>(k, room); count("fault.fs.short_write");
			}
		}
		if (i->data.size() < size_t(p) + k) i->data.resize(p + k);
		memcpy(&i->data[p], b, k); if (at < 0) pos = p + k;
		i->mtime = real_now() / 1000000;
		if (oflags & (O_SYNC | O_DSYNC)) i->durable = i->data;
		tr("write %s +%zu", path.c_str(), k);
		return k;
	}
	short poll_events() override { return 0x5; }
};
struct VUrandom : VFile {
	const char* kind() const override { return "urandom"; }
	ssize_t read(void* b, size_t n) override {
		step("read(urandom)");
		static std::map<int, Rng>* rngs; if (!rngs) rngs = new std::map<int, Rng>;
		int key = g_uran == 3 ? -1 : 0;
		if (!rngs->count(key)) rngs->emplace(key, key ? Rng(12345) : subrng("urandom"));
		if (g_uran == 3) { (*rngs).at(key) = Rng(12345); } else if (g_uran_seed) { (*rngs).at(key) = Rng(g_uran_seed); g_uran_seed = 0; }
		if (g_fs.eintr && chance(g_fs.eintr, "fs.eintr")) { count("fault.eintr"); errno = EINTR; return -1; }
		size_t k = n; if (g_uran == 1 && n > 1) { k = 1 + choose(u32(n - 1), "urandom.short"); count("fault.fs.short_read"); }
		for (size_t j = 0; j < k; ++j) { if (g_uran_next && !g_uran_next->empty()) { static_cast<unsigned char*>(b)[j] = (unsigned char) (*g_uran_next)[0]; g_uran_next->erase(0, 1); } else static_cast<unsigned char*>(b)[j] = (unsigned char) (*rngs).at(key).next(); }
		return k;
	}
};
struct VDir { Ino d; std::string path; std::vector<std::pair<std::string, u64>> snap; size_t pos = 0; bool late = false; struct dirent de; std::shared_ptr<VFile> f; int fd; };
static std::map<DIR*, std::shared_ptr<VDir>>* g_dirs;

static int do_open(const char* path, int fl, mode_t mode) {
	std::string p = path;
	if (p == "/dev/urandom" || p == "/dev/random") { if (g_uran == 2) { errno = ENOENT; return -1; } auto u = std::make_shared<VUrandom>(); return vfd_new(u); }
	Ino par, o; std::string last;
	int e = walk(p, par, last, o);
	if (int f = fault((fl & O_CREAT) && e == ENOENT ? FC_CREAT | FC_OPEN : FC_OPEN, "open", p)) { errno = f; return -1; }
	e = walk(p, par, last, o);                     // the world may have changed while other clients ran
	if (e == 0) {
		if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
		if (o->dir && (fl & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
		if ((fl & O_DIRECTORY) && !o->dir) { errno = ENOTDIR; return -1; }
	} else if (e == ENOENT && (fl & O_CREAT) && par) {
		o = mk(false); o->mode = mode; o->parent = par;
	} else { errno = e; return -1; }
	auto f = std::make_shared<VFileReg>(); f->i = o; f->oflags = fl; f->flags = fl & ~(O_CREAT | O_EXCL | O_TRUNC); f->path = p; f->cloexec = fl & O_CLOEXEC;
	int fd = vfd_new(f); if (fd < 0) return -1;
	if (e == ENOENT) { par->ents[last] = o; tr("create %s", p.c_str()); }
	if ((fl & O_TRUNC) && !o->dir && (fl & O_ACCMODE) != O_RDONLY) { o->data.clear(); tr("truncate %s", p.c_str()); }
	return fd;
}
static void fill_stat(Ino i, struct stat* s) { memset(s, 0, sizeof *s); s->st_ino = i->ino; s->st_mode = (i->dir ? S_IFDIR : S_IFREG) | i->mode; s->st_nlink = i->nlink; s->st_size = i->dir ? 4096 : i->data.size(); s->st_mtime = s->st_ctime = s->st_atime = i->mtime; s->st_dev = 7; s->st_blksize = 4096; s->st_blocks = (s->st_size + 511) / 512; }
static int do_rename(const char* a, const char* b, unsigned flags) {
	if (flags && g_fs.norename2) { count("fs.norename2"); errno = g_fs.norename2; return -1; }
	if (int f = fault(FC_RENAME, "rename", std::string(a) + " -> " + b)) { errno = f; return -1; }
	Ino p, o, q, r; std::string l, k; int e = walk(a, p, l, o); if (e) { errno = e; return -1; }
	int e2 = walk(b, q, k, r); if (e2 && !(e2 == ENOENT && q)) { errno = e2; return -1; }
	if (!p || !q) { errno = EBUSY; return -1; }
	for (Ino x = q; x; x = x->parent.lock()) if (x == o) { errno = EINVAL; return -1; }
	if (r && (flags & 1)) { errno = EEXIST; return -1; }
	if (r == o) return 0;
	if (r) { if (r->dir && !o->dir) { errno = EISDIR; return -1; } if (!r->dir && o->dir) { errno = ENOTDIR; return -1; } if (r->dir && !r->ents.empty()) { errno = ENOTEMPTY; return -1; } --r->nlink; }
	p->ents.erase(l); q->ents[k] = o; o->parent = q;
	tr("rename %s -> %s%s", a, b, r ? " (replaces)" : "");
	return 0;
}
static int do_unlink(const char* path, bool dir) {
	if (int f = fault(FC_UNLINK, dir ? "rmdir" : "unlink", path)) { errno = f; return -1; }
	Ino p, o; std::string l; int e = walk(path, p, l, o); if (e) { errno = e; return -1; }
	if (!p) { errno = EBUSY; return -1; }
	if (dir) { if (!o->dir) { errno = ENOTDIR; return -1; } if (!o->ents.empty()) { errno = ENOTEMPTY; return -1; } } else if (o->dir) { errno = EISDIR; return -1; }
	p->ents.erase(l); --o->nlink; tr("%s %s", dir ? "rmdir" : "unlink", path); return 0;
}
static int do_link(const char* a, const char* b) {
	if (int f = fault(FC_RENAME, "link", std::string(a) + " -> " + b)) { errno = f; return -1; }
	Ino p, o, q, r; std::string l, k; int e = walk(a, p, l, o); if (e) { errno = e; return -1; }
	int e2 = walk(b, q, k, r); if (e2 == 0) { errno = EEXIST; return -1; } if (e2 != ENOENT || !q) { errno = e2; return -1; }
	if (o->dir) { errno = EPERM; return -1; }
	q->ents[k] = o; ++o->nlink; tr("link %s -> %s", a, b); return 0;
}
} // sim
using namespace sim;

extern "C" {
#define REAL(ret, name, args) ret __real_##name args
REAL(int, open, (const char*, int, ...)); REAL(int, openat, (int, const char*, int, ...)); REAL(int, creat, (const char*, mode_t)); REAL(int, stat, (const char*, struct stat*)); REAL(int, lstat, (const char*, struct stat*)); REAL(int, fstat, (int, struct stat*));
REAL(int, access, (const char*, int)); REAL(int, rename, (const char*, const char*)); REAL(int, unlink, (const char*)); REAL(int, rmdir, (const char*)); REAL(int, remove, (const char*)); REAL(int, mkdir, (const char*, mode_t));
REAL(int, link, (const char*, const char*)); REAL(int, renameat2, (int, const char*, int, const char*, unsigned)); REAL(int, renameat, (int, const char*, int, const char*)); REAL(DIR*, opendir, (const char*)); REAL(struct dirent*, readdir, (DIR*)); REAL(int, closedir, (DIR*)); REAL(void, rewinddir, (DIR*)); REAL(int, dirfd, (DIR*));
REAL(off_t, lseek, (int, off_t, int)); REAL(int, fsync, (int)); REAL(int, fdatasync, (int)); REAL(int, ftruncate, (int, off_t)); REAL(int, truncate, (const char*, off_t)); REAL(ssize_t, pread, (int, void*, size_t, off_t)); REAL(ssize_t, pwrite, (int, const void*, size_t, off_t));
REAL(int, chmod, (const char*, mode_t)); REAL(int, fchmod, (int, mode_t)); REAL(int, posix_fallocate, (int, off_t, off_t)); REAL(int, fstatat, (int, const char*, struct stat*, int)); REAL(int, unlinkat, (int, const char*, int)); REAL(int, mkdirat, (int, const char*, mode_t)); REAL(char*, realpath, (const char*, char*)); REAL(int, posix_fadvise, (int, off_t, off_t, int)); REAL(int, utime, (const char*, const void*)); REAL(void, sync, ()); REAL(int, flock, (int, int));

int fs_close_fault(int fd) { auto f = std::dynamic_pointer_cast<VFileReg>(vfd_get(fd)); if (!f || f->i->dir) return 0; return fault(FC_CLOSE, "close", f->path); }
int __wrap_open(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a); if (!active()) return __real_open(p, fl, m); return do_open(p, fl, m); }
int __wrap_open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a); if (!active()) return __real_open(p, fl, m); return do_open(p, fl, m); }
int __wrap_openat(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a); if (!active()) return __real_openat(d, p, fl, m); auto f = std::dynamic_pointer_cast<VFileReg>(vfd_get(d)); std::string q = p[0] == '/' || !f ? std::string(p) : f->path + "/" + p; return do_open(q.c_str(), fl, m); }
int __wrap_creat(const char* p, mode_t m) { if (!active()) return __real_creat(p, m); return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int __wrap_stat(const char* p, struct stat* s) { if (!active()) return __real_stat(p, s); if (int f = fault(FC_STAT, "stat", p)) { errno = f; return -1; } Ino q, o; std::string l; int e = walk(p, q, l, o); if (e) { errno = e; return -1; } fill_stat(o, s); return 0; }
int __wrap_lstat(const char* p, struct stat* s) { if (!active()) return __real_lstat(p, s); return __wrap_stat(p, s); }
int __wrap_fstatat(int d, const char* p, struct stat* s, int f) { if (!active()) return __real_fstatat(d, p, s, f); return __wrap_stat(p, s); }
int __wrap_fstat(int fd, struct stat* s) { if (!active() || !is_vfd(fd)) return __real_fstat(fd, s); auto f = std::dynamic_pointer_cast<VFileReg>(vfd_get(fd)); if (!f) { if (!vfd_get(fd)) { errno = EBADF; return -1; } memset(s, 0, sizeof *s); s->st_mode = S_IFIFO; return 0; } if (int e = fault(FC_STAT, "fstat", f->path)) { errno = e; return -1; } fill_stat(f->i, s); return 0; }
int __wrap_access(const char* p, int m) { if (!active()) return __real_access(p, m); if (int f = fault(FC_ACCESS, "access", p)) { errno = f; return -1; } Ino q, o; std::string l; int e = walk(p, q, l, o); if (e) { errno = e; return -1; } return 0; }
int __wrap_rename(const char* a, const char* b) { if (!active()) return __real_rename(a, b); return do_rename(a, b, 0); }
int __wrap_renameat(int x, const char* a, int y, const char* b) { if (!active()) return __real_renameat(x, a, y, b); return do_rename(a, b, 0); }
int __wrap_renameat2(int x, const char* a, int y, const char* b, unsigned f) { if (!active()) return __real_renameat2(x, a, y, b, f); return do_rename(a, b, f); }
int __wrap_link(const char* a, const char* b) { if (!active()) return __real_link(a, b); return do_link(a, b); }
int __wrap_linkat(int, const char* a, int, const char* b, int) { return do_link(a, b); }
int __wrap_unlink(const char* p) { if (!active()) return __real_unlink(p); return do_unlink(p, false); }
int __wrap_rmdir(const char* p) { if (!active()) return __real_rmdir(p); return do_unlink(p, true); }
int __wrap_unlinkat(int d, const char* p, int f) { if (!active()) return __real_unlinkat(d, p, f); return do_unlink(p, f & AT_REMOVEDIR); }
int __wrap_remove(const char* p) { if (!active()) return __real_remove(p); return do_unlink(p, fs_isdir(p)); }
int __wrap_mkdir(const char* p, mode_t m) { if (!active()) return __real_mkdir(p, m); if (int f = fault(FC_MKDIR, "mkdir", p)) { errno = f; return -1; } Ino q, o; std::string l; int e = walk(p, q, l, o); if (e == 0) { errno = EEXIST; return -1; } if (e != ENOENT || !q) { errno = e; return -1; } auto d = mk(true); d->mode = m; d->parent = q; q->ents[l] = d; tr("mkdir %s", p); return 0; }
int __wrap_mkdirat(int d, const char* p, mode_t m) { if (!active()) return __real_mkdirat(d, p, m); return __wrap_mkdir(p, m); }
off_t __wrap_lseek(int fd, off_t o, int w) { if (!active() || !is_vfd(fd)) return __real_lseek(fd, o, w); auto f = std::dynamic_pointer_cast<VFileReg>(vfd_get(fd)); if (!f) { errno = vfd_get(fd) ? ESPIPE : EBADF; return -1; } if (int e = fault(FC_SEEK, "lseek", f->path)) { errno = e; return -1; } off_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? f->pos : off_t(f->i->data.size()); if (b + o < 0) { errno = EINVAL; return -1; } return f->pos = b + o; }
int __wrap_fsync(int fd) { if (!active() || !is_vfd(fd)) return __real_fsync(fd); auto f = std::dynamic_pointer_cast<VFileReg>(vfd_get(fd)); if (!f) { step("fsync"); errno = vfd_get(fd) ? EINVAL : EBADF; return -1; } if (int e = fault(FC_FSYNC, "fsync", f->path)) { errno = e; return -1; } if (g_fs.eintr && chance(g_fs.eintr / 2, "fs.eintr.fsync")) { count("fault.eintr"); errno = EINTR; return -1; } if (!f->i->dir) { f->i->durable = f->i->data; f->i->synced = true; } tr("fsync %s", f->path.c_str()); return 0; }
int __wrap_fdatasync(int fd) { if (!active() || !is_vfd(fd)) return __real_fdatasync(fd); return __wrap_fsync(fd); }
void __wrap_sync() { if (!active()) __real_sync(); }
int __wrap_ftruncate(int fd, off_t n) { if (!active() || !is_vfd(fd)) return __real_ftruncate(fd, n); auto f = std::dynamic_pointer_cast<VFileReg>(vfd_get(fd)); if (!f) { errno = EBADF; return -1; } if (int e = fault(FC_WRITE, "ftruncate", f->path)) { errno = e; return -1; } f->i->data.resize(n); return 0; }
int __wrap_truncate(const char* p, off_t n) { if (!active()) return __real_truncate(p, n); if (int e = fault(FC_WRITE, "truncate", p)) { errno = e; return -1; } auto i = fs_lookup(p); if (!i) { errno = ENOENT; return -1; } i->data.resize(n); return 0; }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { if (!active() || !is_vfd(fd)) return __real_pread(fd, b, n, o); auto f = std::dynamic_pointer_cast<VFileReg>(vfd_get(fd)); if (!f) { errno = EBADF; return -1; } return f->pread_(b, n, o); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { if (!active() || !is_vfd(fd)) return __real_pwrite(fd, b, n, o); auto f = std::dynamic_pointer_cast<VFileReg>(vfd_get(fd)); if (!f) { errno = EBADF; return -1; } return f->pwrite_(b, n, o); }
int __wrap_chmod(const char* p, mode_t m) { if (!active()) return __real_chmod(p, m); return fs_exists(p) ? 0 : (errno = ENOENT, -1); }
int __wrap_fchmod(int fd, mode_t m) { if (!active() || !is_vfd(fd)) return __real_fchmod(fd, m); return 0; }
int __wrap_posix_fallocate(int fd, off_t a, off_t b) { if (!active() || !is_vfd(fd)) return __real_posix_fallocate(fd, a, b); return 0; }
int __wrap_posix_fadvise(int fd, off_t a, off_t b, int c) { if (!active() || !is_vfd(fd)) return __real_posix_fadvise(fd, a, b, c); return 0; }
int __wrap_flock(int fd, int c) { if (!active() || !is_vfd(fd)) return __real_flock(fd, c); return 0; }
char* __wrap_realpath(const char* p, char* o) { if (!active()) return __real_realpath(p, o); if (!fs_exists(p)) { errno = ENOENT; return nullptr; } if (!o) return strdup(p); return strcpy(o, p); }

DIR* __wrap_opendir(const char* p) {
	if (!active()) return __real_opendir(p);
	if (int f = fault(FC_OPENDIR, "opendir", p)) { errno = f; return nullptr; }
	Ino q, o; std::string l; int e = walk(p, q, l, o); if (e) { errno = e; return nullptr; } if (!o->dir) { errno = ENOTDIR; return nullptr; }
	auto d = std::make_shared<VDir>(); d->d = o; d->path = p;
	auto fr = std::make_shared<VFileReg>(); fr->i = o; fr->path = p; fr->cloexec = true; d->fd = vfd_new(fr); if (d->fd < 0) return nullptr; d->f = fr;
	d->snap.push_back({".", 1}); d->snap.push_back({"..", 1});
	for (auto& x : o->ents) d->snap.push_back({x.first, x.second->ino});
	if (g_fs.shuffle_dirs && d->snap.size() > 2) { Rng r = subrng("fs.dirorder"); for (size_t i = d->snap.size() - 1; i > 0; --i) std::swap(d->snap[i], d->snap[r.below(u32(i + 1))]); }
	if (!g_dirs) g_dirs = new std::map<DIR*, std::shared_ptr<VDir>>;
	DIR* h = reinterpret_cast<DIR*>(d.get()); (*g_dirs)[h] = d; return h;
}
struct dirent* __wrap_readdir(DIR* h) {
	if (!active() || !g_dirs || !g_dirs->count(h)) return __real_readdir(h);
	auto d = (*g_dirs)[h];
	if (int f = fault(FC_READDIR, "readdir", d->path)) { errno = f; return nullptr; }
	while (d->pos < d->snap.size()) {
		auto& s = d->snap[d->pos++];
		// an entry removed since opendir() may or may not still be returned
		if (s.second != 1 && !d->d->ents.count(s.first) && chance(500, "fs.readdir.stale")) continue;
		memset(&d->de, 0, sizeof d->de); d->de.d_ino = s.second; snprintf(d->de.d_name, sizeof d->de.d_name, "%s", s.first.c_str());
		auto it = d->d->ents.find(s.first); d->de.d_type = it == d->d->ents.end() ? DT_UNKNOWN : it->second->dir ? DT_DIR : DT_REG;
		return &d->de;
	}
	// an entry added since opendir() may or may not be returned
	if (!d->late) { d->late = true; std::set<std::string> had; for (auto& x : d->snap) had.insert(x.first); for (auto& x : d->d->ents) if (!had.count(x.first) && chance(500, "fs.readdir.late")) d->snap.push_back({x.first, x.second->ino}); if (d->pos < d->snap.size()) return __wrap_readdir(h); }
	return nullptr;
}
int __wrap_closedir(DIR* h) { if (!active() || !g_dirs || !g_dirs->count(h)) return __real_closedir(h); auto d = (*g_dirs)[h]; step("closedir"); g_dirs->erase(h); vfd_close(d->fd); memset(&d->de, 0xdd, sizeof d->de); return 0; }
void __wrap_rewinddir(DIR* h) { if (!active() || !g_dirs || !g_dirs->count(h)) { __real_rewinddir(h); return; } (*g_dirs)[h]->pos = 0; }
int __wrap_dirfd(DIR* h) { if (!active() || !g_dirs || !g_dirs->count(h)) return __real_dirfd(h); return (*g_dirs)[h]->fd; }
}

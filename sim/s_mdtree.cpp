// M05: folder trees of a maildir store in both layouts.
#include "maildir.hpp"
using namespace sim;
namespace sim { std::string mutf7_dec(const std::string& s); }
namespace {
typedef std::vector<std::string> Path;
std::string show(const Path& p) { std::string s; for (auto& c : p) s += "/" + c; return s.empty() ? "/" : s; }
bool under(const Path& a, const Path& p) { return p.size() >= a.size() && std::equal(a.begin(), a.end(), p.begin()); }   // p is a or below it
Path parent(Path p) { p.pop_back(); return p; }
Path moved(const Path& p, const Path& from, const Path& to) { Path r = to; r.insert(r.end(), p.begin() + long(from.size()), p.end()); return r; }
bool g_courier; const char* ROOT = "/home/user/Mail";
std::string enc(const std::string& u) {               // modified UTF-7 as described by Courier
	std::string o; std::u32string cp; for (size_t i = 0; i < u.size();) { unsigned char c = u[i]; int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; char32_t v = n == 1 ? c : c & (0x7f >> n); for (int k = 1; k < n; ++k) v = v << 6 | (u[i + k] & 0x3f); cp += v; i += n; }
	for (size_t i = 0; i < cp.size();) {
		auto direct = [&](char32_t c) { return c >= 0x20 && c < 0x7f && c != '.' && c != '/' && c != '&'; };
		if (direct(cp[i])) { o += char(cp[i++]); continue; } if (cp[i] == '&') { o += "&-"; ++i; continue; }
		std::string raw; for (; i < cp.size() && !direct(cp[i]) && cp[i] != '&'; ++i) { char32_t c = cp[i]; auto u16 = [&](unsigned x) { raw += char(x >> 8); raw += char(x); }; if (c > 0xffff) { c -= 0x10000; u16(0xd800 + (c >> 10)); u16(0xdc00 + (c & 0x3ff)); } else u16(c); }
		std::string b = b64(raw); while (!b.empty() && b.back() == '=') b.pop_back(); for (char& c : b) if (c == '/') c = ','; o += "&" + b + "-";
	}
	return o;
}
std::string dir(const Path& p) { std::string d = ROOT; if (p.empty()) return d; if (g_courier) { d += "/"; for (auto& c : p) d += "." + enc(c); return d; } for (size_t i = 0; i + 1 < p.size(); ++i) d += "/." + p[i] + ".directory"; return d + "/" + p.back(); }
typedef std::map<Path, std::multiset<std::string>> Tree;
std::multiset<std::string> messages(const std::string& d) { std::multiset<std::string> s; for (auto w : {"/new", "/cur"}) if (fs_isdir(d + w)) for (auto& f : fs_list(d + w)) { std::string x; fs_get(d + w + "/" + f, x); std::string t = g_md->tok_of(x); CHECK(!t.empty(), "tree.partial", "%s%s/%s is %s", d.c_str(), w, f.c_str(), g_md->what_is(x).c_str()); s.insert(t); } return s; }
bool complete(const std::string& d) { for (auto w : {"/new", "/cur", "/tmp"}) if (!fs_isdir(d + w)) return false; return !g_courier || fs_exists(d + "/maildirfolder"); }
void scan_kmail(const Path& p, const std::string& d, Tree& t, Tree& broken) { for (auto& n : fs_list(d)) { if (!fs_isdir(d + "/" + n)) continue; if (n[0] != '.') { Path q = p; q.push_back(n); (complete(d + "/" + n) ? t : broken)[q] = messages(d + "/" + n); } else if (n.size() > 11 && n.compare(n.size() - 10, 10, ".directory") == 0) { Path q = p; q.push_back(n.substr(1, n.size() - 11)); scan_kmail(q, d + "/" + n, t, broken); } } }
Tree disk(Tree* broken = nullptr) {
	Tree t, b; if (!g_courier) scan_kmail(Path(), ROOT, t, b);
	else for (auto& n : fs_list(ROOT)) { if (n[0] != '.' || n.size() < 2 || !fs_isdir(std::string(ROOT) + "/" + n) || n.find("odd") != std::string::npos) continue; Path p; for (auto& c : split(n.substr(1), '.')) p.push_back(mutf7_dec(c)); CHECK("." + [&] { std::string e; for (auto& c : p) e += (e.empty() ? "" : ".") + enc(c); return e; }() == n, "tree.encoding", "directory name %s is not the encoding of %s", n.c_str(), show(p).c_str()); (complete(std::string(ROOT) + "/" + n) ? t : b)[p] = messages(std::string(ROOT) + "/" + n); }
	if (broken) *broken = b; return t;
}
std::string describe(const Tree& t) { std::string s; for (auto& x : t) s += (s.empty() ? "" : ", ") + show(x.first) + fmt("(%zu)", x.second.size()); return s.size() > 600 ? s.substr(0, 600) + "..." : s; }
vn::folder::path vpath(const Path& p) { vn::folder::path r; for (auto& c : p) r /= vn::folder::path::component(c, vmime::charset("utf-8")); return r; }
Path unvpath(const vn::folder::path& p) { Path r; for (size_t i = 0; i < p.getSize(); ++i) r.push_back(p[i].getBuffer()); return r; }
const std::vector<std::string> NAMES = {"a", "ab", "a b", "b", "foo", "foobar", "foo.bar", "x.y", "a&b", "a+b", "&", "-", "&-", "r\xc3\xa9sum\xc3\xa9", "\xc3\xa9", "\xc3\xa9.", "\xc3\xa9.x", "\xc3\xa9&x", "\xc3\xa9-", "\xe6\x97\xa5\xe6\x9c\xac", "\xf0\x9f\x98\x80", "+AOk-", "&AOk-", "a-", "cur", "x.directory", "A", "~", "a,b", "\xc3\xa9,b"};
std::string name() { return chance(700, "name.few") ? NAMES[choose(8, "name")] : NAMES[choose(u32(NAMES.size()), "name.any")]; }
struct Watch : vn::events::folderListener {
	shared_ptr<vn::folder> f; Path p; std::vector<std::string> ev; bool gone = false;
	~Watch() { if (f) f->removeFolderListener(this); }
	void folderCreated(const shared_ptr<vn::events::folderEvent>&) override { ev.push_back("created"); }
	void folderRenamed(const shared_ptr<vn::events::folderEvent>&) override { ev.push_back("renamed"); }
	void folderDeleted(const shared_ptr<vn::events::folderEvent>&) override { ev.push_back("deleted"); }
};
struct W5 {
	MdCl c; Tree model; std::vector<std::unique_ptr<Watch>> ws; bool faulty = false; Path kept;
	shared_ptr<vn::folder> folder(const Path& p) { return chance(300, "fresh store") ? [&] { MdCl d; d.make(); FsCfg k = g_fs; g_fs.fails.clear(); Out o = d.connect(); g_fs = k; extra.push_back(d.st); CHECK(o.ok, "tree.connect", "connect() failed: %s", o.what.c_str()); return d.st->getFolder(vpath(p)); }() : c.st->getFolder(vpath(p)); }
	std::vector<shared_ptr<vn::store>> extra;
	Path pick() { std::vector<Path> v; for (auto& x : model) v.push_back(x.first); return v.empty() ? Path() : v[choose(u32(v.size()), "folder")]; }
	Path fresh() { Path p; if (!model.empty() && chance(600, "nested")) p = pick(); if (p.size() > 3) p.resize(3); p.push_back(name()); return p; }
	std::set<Path> children(const Path& p, bool rec) { std::set<Path> s; for (auto& x : model) if (x.first != p && under(p, x.first) && (rec || x.first.size() == p.size() + 1)) s.insert(x.first); return s; }
	void verify(const char* when, const Path* skip = nullptr, const Path* skip2 = nullptr) {
		Tree broken, t = disk(&broken);
		for (auto& m : model) { if ((skip && under(*skip, m.first)) || (skip2 && under(*skip2, m.first))) continue; CHECK(t.count(m.first), broken.count(m.first) ? "tree.broken" : "tree.lost", "%s: folder %s is gone (left: %s)", when, show(m.first).c_str(), describe(t).c_str()); CHECK(t[m.first] == m.second, "tree.messages", "%s: folder %s holds %zu messages instead of %zu, or others", when, show(m.first).c_str(), t[m.first].size(), m.second.size()); }
		for (auto& x : t) { if ((skip && under(*skip, x.first)) || (skip2 && under(*skip2, x.first))) continue; CHECK(model.count(x.first), "tree.extra", "%s: there is a folder %s which nobody created (all: %s)", when, show(x.first).c_str(), describe(t).c_str()); }
		if (!skip) for (auto& x : broken) violate("tree.debris", "%s: there is half a folder at %s", when, show(x.first).c_str());
	}
	bool faults(u32 pm) {
		g_fs.fails.clear(); if (!chance(pm, "fault")) return false; FsFail x; x.mask = oneof<u32>({FC_ALL, FC_OPEN, FC_CREAT, FC_FSYNC, FC_STAT, FC_OPENDIR, FC_READDIR, FC_RENAME, FC_UNLINK, FC_MKDIR}, "fail.mask"); x.nth = sized(x.mask == FC_ALL ? 60 : 12, "fail.nth"); x.err = oneof<int>({EIO, ENOSPC, EACCES, EMFILE, EROFS}, "fail.err"); x.sticky = chance(250, "fail.sticky"); g_fs.fails.push_back(x); g_fs_faults = 0; return true;
	}
	void heal() { g_fs.fails.clear(); }
	void list(const Path& p, bool fl) {
		bool rec = chance(500, "recursive"); auto f = folder(p); std::vector<shared_ptr<vn::folder>> v; Out r = call("list " + show(p), [&] { v = f->getFolders(rec); }); bool hit = g_fs_faults != 0; heal();
		if (!r.ok) { CHECK(fl && hit, "tree.list", "listing %s failed: %s %s", show(p).c_str(), r.type.c_str(), r.what.c_str()); return; }
		std::set<Path> want = children(p, rec), got; for (auto& x : v) { Path q = unvpath(x->getFullPath()); if (show(q).find("odd") != std::string::npos) continue; CHECK(got.insert(q).second, "tree.list.twice", "listing %s gives %s twice", show(p).c_str(), show(q).c_str()); CHECK(x->getName().getBuffer() == q.back(), "tree.list.name", "folder %s is named %s", show(q).c_str(), x->getName().getBuffer().c_str()); }
		auto orphan = [&](Path q) { while (q.size() > p.size() + 1) { q.pop_back(); if (!model.count(q)) return true; } return false; };   // its parent moved away in a rename that failed and could not be undone
		for (auto& q : want) if (!orphan(q)) CHECK(got.count(q), "tree.list.missing", "listing %s%s does not show %s (it shows %zu folders)", show(p).c_str(), rec ? " recursively" : "", show(q).c_str(), got.size()); for (auto& q : got) CHECK(want.count(q), "tree.list.extra", "listing %s%s shows %s", show(p).c_str(), rec ? " recursively" : "", show(q).c_str());
		if (!v.empty() && chance(500, "use listed")) { auto& x = v[choose(u32(v.size()), "listed")]; Path q = unvpath(x->getFullPath()); if (model.count(q)) open_and_compare(x, q); }
	}
	void open_and_compare(shared_ptr<vn::folder> f, const Path& p) {
		Out r = call("open " + show(p), [&] { f->open(vn::folder::MODE_READ_WRITE); }); CHECK(r.ok, "tree.open", "open(%s) failed: %s %s", show(p).c_str(), r.type.c_str(), r.what.c_str()); std::vector<MView> v; r = read_all(f, v); CHECK(r.ok, "tree.read", "reading %s failed", show(p).c_str()); std::multiset<std::string> s; for (auto& e : v) { CHECK(e.ok, "tree.read", "message %zu of %s cannot be read: %s", e.num, show(p).c_str(), e.err.c_str()); s.insert(g_md->tok_of(e.data)); } CHECK(s == model[p], "tree.messages", "folder %s shows %zu messages instead of %zu, or others", show(p).c_str(), s.size(), model[p].size());
		if (chance(400, "add")) { MMsg m = g_md->gen(300); r = call("add", [&] { Source src(m.data); f->addMessage(src, m.data.size(), chance(500, "recent") ? int(vn::message::FLAG_RECENT) : 0); }); CHECK(r.ok, "tree.add", "addMessage() to %s failed: %s %s", show(p).c_str(), r.type.c_str(), r.what.c_str()); model[p].insert(m.tok); }
		call("close", [&] { f->close(false); });
	}
	void op() {
		bool fl = faulty && faults(500); FsCfg k = g_fs; if (!fl) k.fails.clear(); g_fs.fails.clear(); auto arm = [&] { g_fs.fails = k.fails; g_fs_faults = 0; };
		switch (weighted({6, 4, 5, 4, 2, 2, 3}, "op")) {
			case 0: {
				Path p = fresh(); bool bad = chance(100, "bad name"); if (bad) p.back() = oneof<std::string>({" a", "a ", ".a", "..", "x/y", "a*b", "."}, "bad"); bool ex = model.count(p) != 0; auto f = folder(p); std::unique_ptr<Watch> w(new Watch); w->f = f; w->p = p; f->addFolderListener(w.get()); arm();
				Out r = call("create " + show(p), [&] { f->create(vn::folderAttributes()); }); bool hit = g_fs_faults != 0; heal();
				if (bad) { CHECK(!r.ok, "tree.badname", "a folder named \"%s\" can be created", p.back().c_str()); break; } if (ex) { CHECK(!r.ok, "tree.create.exists", "create(%s) of an existing folder returned normally", show(p).c_str()); break; }
				if (r.ok) { model[p]; CHECK(w->ev == std::vector<std::string>{"created"}, "tree.event", "create() told the listener %zu things", w->ev.size()); }
				else { CHECK(fl && hit, "tree.create", "create(%s) failed: %s %s", show(p).c_str(), r.type.c_str(), r.what.c_str()); verify("after a failed create()", &p); CHECK(w->ev.empty(), "tree.event", "a failed create() told the listener about a creation"); auto g = folder(p); if (!g->exists()) { r = call("create again", [&] { g->create(vn::folderAttributes()); }); CHECK(r.ok, "tree.create.retry", "create(%s) cannot be repeated after a failure: %s %s", show(p).c_str(), r.type.c_str(), r.what.c_str()); } model[p]; }
				if (ws.size() < 6 && chance(500, "keep object")) { w->ev.clear(); ws.push_back(std::move(w)); }
				break;
			}
			case 1: {
				if (model.empty()) break; Path p = pick(); if (under(p, kept)) break; auto f = folder(p); arm(); Out r = call("destroy " + show(p), [&] { f->destroy(); }); bool hit = g_fs_faults != 0; heal();
				if (!r.ok) { CHECK(fl && hit, "tree.destroy", "destroy(%s) failed: %s %s", show(p).c_str(), r.type.c_str(), r.what.c_str()); verify("after a failed destroy()", &p); r = call("destroy again", [&] { f->destroy(); }); CHECK(r.ok, "tree.destroy.retry", "destroy(%s) cannot be repeated after a failure: %s %s", show(p).c_str(), r.type.c_str(), r.what.c_str()); }
				for (auto i = model.begin(); i != model.end();) if (under(p, i->first)) i = model.erase(i); else ++i;
				ws.erase(std::remove_if(ws.begin(), ws.end(), [&](auto& w) { return under(p, w->p); }), ws.end());
				break;
			}
			case 2: {
				if (model.empty()) break; Path a = pick(), b = chance(150, "onto") ? pick() : fresh(); if (chance(80, "into itself")) { b = a; b.push_back(name()); } if (under(a, kept)) break; bool into = under(a, b), ex = model.count(b) != 0, bad = chance(60, "bad name"); if (bad) b.back() = oneof<std::string>({" a", "a ", ".a", "x/y", "a*b"}, "bad");
				bool needs = !g_courier && b.size() > 1 && !fs_isdir([&] { std::string d = ROOT; for (size_t i = 0; i + 1 < b.size(); ++i) d += "/." + b[i] + ".directory"; return d; }());
				bool local = chance(700, "same store"); auto f = local ? c.st->getFolder(vpath(a)) : folder(a); bool same = std::find_if(extra.begin(), extra.end(), [&](auto& s) { return s.get() == f->getStore().get(); }) == extra.end(); for (auto& w : ws) w->ev.clear(); arm();
				Out r = call("rename " + show(a) + " to " + show(b), [&] { f->rename(vpath(b)); }); bool hit = g_fs_faults != 0, sticky = !k.fails.empty() && k.fails[0].sticky; heal();
				if (into || ex || bad) { CHECK(!r.ok, "tree.rename.bad", "renaming %s to %s returned normally", show(a).c_str(), show(b).c_str()); break; }
				if (r.ok) {
					Tree n; for (auto& x : model) n[under(a, x.first) ? moved(x.first, a, b) : x.first] = x.second; model = n; CHECK(unvpath(f->getFullPath()) == b, "tree.rename.path", "getFullPath() after rename() gives %s", show(unvpath(f->getFullPath())).c_str());
					if (same) for (auto& w : ws) if (w->f->getStore().get() == f->getStore().get() && under(a, w->p)) { w->p = moved(w->p, a, b); CHECK(unvpath(w->f->getFullPath()) == w->p, "tree.rename.object", "a folder object for a renamed folder has path %s instead of %s", show(unvpath(w->f->getFullPath())).c_str(), show(w->p).c_str()); CHECK(w->ev == std::vector<std::string>{"renamed"}, "tree.event", "a folder object for a renamed folder was told %zu things", w->ev.size()); }
					if (!same) ws.erase(std::remove_if(ws.begin(), ws.end(), [&](auto& w) { return under(a, w->p); }), ws.end()); nontrivial();
				} else {
					CHECK((fl && hit) || needs, "tree.rename", "renaming %s to %s failed: %s %s", show(a).c_str(), show(b).c_str(), r.type.c_str(), r.what.c_str());
					if (!(fl && hit) || !sticky) verify("after a failed rename()");
					else { verify("after a failed rename()", &a, &b); Tree br, t = disk(&br); for (auto& x : model) if (under(a, x.first)) { Path q = moved(x.first, a, b); bool old = t.count(x.first) && t[x.first] == x.second, nw = t.count(q) && t[q] == x.second; CHECK(old || nw, "tree.rename.lost", "after a failed rename() of %s to %s, the messages of %s are at neither place", show(a).c_str(), show(b).c_str(), show(x.first).c_str()); } model = t; ws.clear(); }
				}
				break;
			}
			case 3: { Path p = chance(300, "root") || model.empty() ? Path() : pick(); arm(); list(p, fl); break; }
			case 4: {
				Path p = chance(500, "existing") && !model.empty() ? pick() : fresh(); auto f = folder(p); bool ex = false; arm(); Out r = call("exists " + show(p), [&] { ex = f->exists(); }); bool hit = g_fs_faults != 0; heal(); if (r.ok) CHECK(ex == (model.count(p) != 0), "tree.exists", "exists(%s) says %s", show(p).c_str(), ex ? "yes" : "no"); else CHECK(fl && hit, "tree.exists.fail", "exists() failed: %s %s", r.type.c_str(), r.what.c_str());
				if (!model.count(p)) { r = call("open missing", [&] { f->open(vn::folder::MODE_READ_WRITE); }); CHECK(!r.ok, "tree.open.missing", "open(%s) of a folder that does not exist returned normally", show(p).c_str()); break; }
				bool has = false; arm(); r = call("attributes", [&] { has = (f->getAttributes().getFlags() & vn::folderAttributes::FLAG_HAS_CHILDREN) != 0; }); hit = g_fs_faults != 0; heal(); bool orphan = children(p, false).empty() && !children(p, true).empty();   // left by a rename that could not be undone
				if (r.ok) CHECK(orphan || has == !children(p, false).empty(), "tree.haschildren", "getAttributes(%s) says it has %s", show(p).c_str(), has ? "sub-folders" : "no sub-folders"); else CHECK(fl && hit, "tree.attributes", "getAttributes() failed: %s %s", r.type.c_str(), r.what.c_str());
				break;
			}
			case 5: { if (model.empty()) break; Path p = pick(); MMsg m = g_md->gen(300); fs_put(dir(p) + "/new/" + g_md->file_name(), m.data); model[p].insert(m.tok); break; }
			default: { if (model.empty()) break; Path p = pick(); open_and_compare(folder(p), p); }
		}
		heal(); verify("after the operation"); for (auto& w : ws) CHECK(unvpath(w->f->getFullPath()) == w->p, "tree.object", "a folder object has path %s instead of %s", show(unvpath(w->f->getFullPath())).c_str(), show(w->p).c_str());
		u64 h = 1469598103934665603ull; for (auto& x : model) h = (h ^ std::hash<std::string>()(show(x.first)) ^ x.second.size()) * 1099511628211ull; state(h);
	}
};
void tree(bool faulty) {
	g_md = new MdWorld; g_courier = chance(500, "layout"); g_md->courier = g_courier; g_md->maxlen = 300; fs_mkdirs(ROOT); g_fs.shuffle_dirs = chance(500, "fs.shuffle"); if (!faulty && chance(300, "fs.norename2")) g_fs.norename2 = oneof<int>({ENOSYS, EINVAL}, "fs.norename2.errno"); app_init(); W5 w; w.faulty = faulty;
	auto mk = [&](const Path& p) { for (auto s : {"/new", "/cur", "/tmp"}) fs_mkdirs(dir(p) + s); if (g_courier) fs_put(dir(p) + "/maildirfolder", ""); w.model[p]; };
	if (g_courier) { w.kept = {"keep"}; mk(w.kept); for (auto s : {"/new", "/cur", "/tmp"}) if (chance(500, "inbox")) fs_mkdirs(std::string(ROOT) + s); }   // one sub-folder shows which layout it is
	else { w.kept = {"inbox"}; mk(w.kept); }
	u32 n = sized(10, "pre.folders"); for (u32 i = 0; i < n; ++i) { Path p = w.fresh(); mk(p); u32 k = choose(3, "pre.msgs"); for (u32 j = 0; j < k; ++j) { MMsg m = g_md->gen(300); fs_put(dir(p) + (chance(500, "cur") ? "/cur/" : "/new/") + g_md->file_name(), m.data); w.model[p].insert(m.tok); } }
	if (chance(300, "odd")) { fs_put(std::string(ROOT) + "/.oddfile", "x"); fs_put(std::string(ROOT) + "/oddfile", "x"); if (g_courier) { fs_mkdirs(std::string(ROOT) + "/.odd&!!-x"); fs_mkdirs(std::string(ROOT) + "/odddir"); fs_mkdirs(std::string(ROOT) + "/.odd&x"); fs_mkdirs(std::string(ROOT) + "/.odd\xff\xfe"); } }
	w.c.make(); Out r = w.c.connect(); CHECK(r.ok, "tree.connect", "connect() failed: %s", r.what.c_str()); w.verify("before");
	u32 ops = 2 + sized(20, "ops"); for (u32 i = 0; i < ops; ++i) w.op();
	w.ws.clear(); nontrivial(); finish_checks();
}
}
SCENARIO(M05, tree, 10) { tree(false); }
SCENARIO(M05, faults, 10) { tree(true); }

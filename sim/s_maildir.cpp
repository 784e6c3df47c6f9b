// Maildir properties M01..M04 (folder trees: s_mdtree.cpp)
#include "maildir.hpp"
using namespace sim;
namespace sim {
MdWorld* g_md;
std::string MdWorld::dir(const std::string& name) const {
	if (name.empty()) return root;
	auto c = split(name, '/'); std::string d = root;
	if (courier) { d += "/"; for (auto& x : c) d += "." + x; return d; }
	for (size_t i = 0; i + 1 < c.size(); ++i) d += "/." + c[i] + ".directory";
	return d + "/" + c.back();
}
void MdWorld::mkfolder(const std::string& name) const { for (auto s : {"/new", "/cur", "/tmp"}) fs_mkdirs(dir(name) + s); if (courier) fs_put(dir(name) + "/maildirfolder", ""); }
std::string MdWorld::flagstr(int f) { std::string s; if (f & vn::message::FLAG_DRAFT) s += 'D'; if (f & vn::message::FLAG_MARKED) s += 'F'; if (f & vn::message::FLAG_PASSED) s += 'P'; if (f & vn::message::FLAG_REPLIED) s += 'R'; if (f & vn::message::FLAG_SEEN) s += 'S'; if (f & vn::message::FLAG_DELETED) s += 'T'; return s; }
int MdWorld::flags_of(const std::string& file) { size_t p = file.rfind(":2,"); if (p == std::string::npos) return 0; int f = 0; for (size_t i = p + 3; i < file.size(); ++i) switch (file[i]) { case 'D': f |= vn::message::FLAG_DRAFT; break; case 'F': f |= vn::message::FLAG_MARKED; break; case 'P': f |= vn::message::FLAG_PASSED; break; case 'R': f |= vn::message::FLAG_REPLIED; break; case 'S': f |= vn::message::FLAG_SEEN; break; case 'T': f |= vn::message::FLAG_DELETED; break; } return f; }
MMsg MdWorld::gen(size_t maxlen) {
	MMsg m; Rng r = subrng("msg"); m.tok = "tk" + rnd_token(r, 9); std::string nl = r.below(4) == 0 ? "\n" : "\r\n";
	std::string h = "Message-Id: <" + m.tok + "@id>" + nl + "From: <a@b.c>" + nl + "Subject: " + m.tok + nl;
	u32 ex = r.below(5); for (u32 i = 0; i < ex; ++i) h += "X-Extra-" + rnd_token(r, 4) + ": " + std::string(r.below(200), 'x') + nl;
	if (r.below(4) == 0) {
		std::string b = "bnd" + rnd_token(r, 8); h += "MIME-Version: 1.0" + nl + "Content-Type: multipart/mixed; boundary=\"" + b + "\"" + nl + nl; u32 n = 1 + r.below(3);
		for (u32 i = 0; i < n; ++i) { std::string p; u32 l = r.below(6); if (maxlen >= 300 && r.below(8) == 0) l = u32(20 + r.below(400)); for (u32 k = 0; k < l; ++k) p += rnd_token(r, 1 + r.below(60)) + (k + 1 < l ? nl : ""); m.parts.push_back(p); h += "--" + b + nl + "Content-Type: text/plain" + nl + "X-Part: " + fmt("%u", i) + nl + nl + p + nl; }
		m.data = h + "--" + b + "--" + nl;
	} else m.data = h + nl + draw_text(maxlen, m.tok);
	known[m.data] = m.tok; all[m.tok] = m; return m;
}
std::string MdWorld::file_name() { Rng r = subrng("file"); static u32 n = 0; ++n; switch (r.below(5)) { case 0: return fmt("17000000%02u.M%uP%u-%u.my-host.example", r.below(100), r.below(1000000), r.below(90000), n); case 1: return fmt("17000000%02u.%u_%u.mail-fst.DRS", r.below(100), r.below(90000), n); case 2: return fmt("17000000%02u.V801I%u.host,S=%u", r.below(100), n, r.below(5000)); case 3: return fmt("1700000000.4242.seq-%u", n); default: return fmt("17000000%02u.%u.%s.localhost", r.below(100), 100 + n, rnd_token(r, 6).c_str()); } }
std::string MdWorld::deliver(const std::string& name, const MMsg& m, bool cur, int flags) { std::string f = file_name(); std::string p = dir(name) + (cur ? "/cur/" : "/new/") + f + (cur && flags >= 0 ? ":2," + flagstr(flags) : ""); fs_put(p, m.data); return p; }
std::vector<DM> MdWorld::disk(const std::string& name) const { std::vector<DM> v; for (auto w : {"new", "cur"}) for (auto& f : fs_list(dir(name) + "/" + w)) if (f[0] != '.') { DM d; d.file = f; d.where = w; fs_get(dir(name) + "/" + w + "/" + f, d.data); d.flags = flags_of(f); v.push_back(d); } return v; }
std::string MdWorld::tok_of(const std::string& data) const { auto i = known.find(data); return i == known.end() ? "" : i->second; }
std::string MdWorld::what_is(const std::string& data) const { if (data.empty()) return "nothing (an empty message)"; for (auto& k : known) if (data.size() < k.first.size() && k.first.compare(0, data.size(), data) == 0) return fmt("only the first %zu of %zu bytes of %s", data.size(), k.first.size(), k.second.c_str()); return fmt("%zu bytes that are no message ever stored: \"%s\"", data.size(), esc(data, 80).c_str()); }
std::map<std::string, int> MdWorld::disk_tokens(const std::string& name, const char* when) const { std::map<std::string, int> m; for (auto& d : disk(name)) { std::string t = tok_of(d.data); CHECK(!t.empty(), "md.partial", "%s: %s/%s/%s holds %s", when, name.c_str(), d.where.c_str(), d.file.c_str(), what_is(d.data).c_str()); ++m[t]; } return m; }
void MdCl::make() { sess = vn::session::create(); st = sess->getStore(vmime::utility::url(std::string("maildir://localhost") + g_md->root)); }
vn::folder::path md_path(const std::string& name) { vn::folder::path p; if (!name.empty()) for (auto& c : split(name, '/')) p /= vn::folder::path::component(c, vmime::charset("utf-8")); return p; }
shared_ptr<vn::folder> MdCl::folder(const std::string& name) { return st->getFolder(md_path(name)); }
Out MdCl::connect() { return call("connect", [&] { st->connect(); }); }
// everything a folder shows; entries that cannot be read have ok == false
Out read_all(shared_ptr<vn::folder> f, std::vector<MView>& v) {
	return call("read all", [&] {
		v.clear(); size_t n = f->getMessageCount(); if (!n) return; std::vector<shared_ptr<vn::message>> ms = f->getMessages(vn::messageSet::byNumber(1, size_t(-1)));
		for (auto& m : ms) { MView e; e.num = m->getNumber(); try { f->fetchMessage(m, vn::fetchAttributes(vn::fetchAttributes::UID | vn::fetchAttributes::FLAGS | vn::fetchAttributes::SIZE)); e.uid = std::string(m->getUID()); e.flags = m->getFlags(); e.size = m->getSize(); Sink s; m->extract(s); e.data = s.d; e.ok = true; } catch (vmime::exception& x) { e.err = x.what(); } v.push_back(e); }
	});
}
}
namespace {
const int FL[] = {vn::message::FLAG_SEEN, vn::message::FLAG_REPLIED, vn::message::FLAG_MARKED, vn::message::FLAG_PASSED, vn::message::FLAG_DRAFT, vn::message::FLAG_DELETED};
int draw_flags(bool del) { int f = 0; for (int x : FL) if ((x != vn::message::FLAG_DELETED || del) && chance(300, "flag")) f |= x; return f; }
size_t draw_len() { return oneof<size_t>({200, 3000, 70000, 200000}, "maxlen"); }
void setup() { g_md = new MdWorld; g_md->courier = chance(500, "layout"); fs_mkdirs(g_md->root); g_md->mkfolder("inbox"); g_md->mkfolder("other"); g_md->maxlen = draw_len(); set_hostname(oneof<std::string>({"localhost", "my-host.example", "mail-fst"}, "hostname")); g_fs.shuffle_dirs = chance(500, "fs.shuffle"); }
void prefill(const std::string& name, u32 max) { u32 n = sized(max, "pre.n"); for (u32 i = 0; i < n; ++i) { MMsg m = g_md->gen(g_md->maxlen); bool cur = chance(500, "pre.cur"); g_md->deliver(name, m, cur, cur ? chance(100, "noinfo") ? -1 : draw_flags(false) : 0); } }
vn::messageSet draw_set(size_t n, std::vector<size_t>& nums) {
	nums.clear();
	switch (choose(4, "set")) {
		case 0: { size_t k = 1 + choose(u32(n), "set.one"); nums = {k}; return vn::messageSet::byNumber(k); }
		case 1: { size_t a = 1 + choose(u32(n), "set.a"), b = a + choose(u32(n - a + 1), "set.b"); for (size_t i = a; i <= b; ++i) nums.push_back(i); return vn::messageSet::byNumber(a, b); }
		case 2: { size_t a = 1 + choose(u32(n), "set.a"); for (size_t i = a; i <= n; ++i) nums.push_back(i); return vn::messageSet::byNumber(a, size_t(-1)); }
		default: { std::set<size_t> s; u32 k = 1 + choose(4, "set.k"); for (u32 i = 0; i < k; ++i) s.insert(1 + choose(u32(n), "set.x")); nums.assign(s.begin(), s.end()); return vn::messageSet::byNumber(nums); }
	}
}
Out add(shared_ptr<vn::folder> f, const MMsg& m, int flags, Progress* p = nullptr, SrcCfg sc = SrcCfg(), bool* srcfail = nullptr) { return call(fmt("add %s (%zu bytes, flags %d)", m.tok.c_str(), m.data.size(), flags), [&] { Source s(m.data, sc); try { f->addMessage(s, m.data.size(), flags, nullptr, p); } catch (...) { if (srcfail) *srcfail = s.failed; throw; } if (srcfail) *srcfail = s.failed; }); }
}
// ------------------------------------------------------------------ M01
namespace {
struct Exp { int min = 0, max = 0; };                 // copies of a message that may be there
struct CrashModel {
	std::map<std::string, std::map<std::string, Exp>> f;                       // folder -> token
	std::map<std::string, std::set<int>> flags;                                // "inbox/token" -> allowed flags (only tracked while there is one copy)
};
}
SCENARIO(M01, crash, 10) {
	setup(); app_init(); prefill("inbox", 5); prefill("other", 3); if (chance(300, "partial")) { g_fs.shortwr = 200; g_fs.eintr = chance(300, "eintr") ? 30 : 0; }
	CrashModel cm; for (auto n : {"inbox", "other"}) for (auto& d : g_md->disk(n)) { cm.f[n][g_md->tok_of(d.data)] = Exp{1, 1}; cm.flags[std::string(n) + "/" + g_md->tok_of(d.data)] = {d.flags}; }
	g_fs_calls = 0; g_fs.crash_at = int(sized(800, "crash.at")); bool machine = chance(750, "crash.machine");
	spawn("client", [&] {
		MdCl c; c.make(); if (!c.connect().ok) violate("md.connect", "connect() failed on a healthy disk");
		std::string name = "inbox"; auto f = c.folder(name); Out o = call("open", [&] { f->open(vn::folder::MODE_READ_WRITE); }); CHECK(o.ok, "md.open", "open() failed on a healthy disk: %s %s", o.type.c_str(), o.what.c_str());
		u32 n = 1 + sized(12, "ops");
		for (u32 i = 0; i < n; ++i) {
			size_t cnt = f->getMessageCount(); std::vector<MView> v;
			switch (weighted({5, 3, 3, 2, 1, 1, 1}, "op")) {
				case 0: { MMsg m = g_md->gen(g_md->maxlen); int fl = chance(400, "recent") ? int(vn::message::FLAG_RECENT) : chance(400, "none") ? -1 : draw_flags(false); cm.f[name][m.tok].max = 1; cm.flags[name + "/" + m.tok] = {fl == vn::message::FLAG_RECENT || fl == -1 ? 0 : fl}; o = add(f, m, fl); CHECK(o.ok, "md.add", "addMessage() failed on a healthy disk: %s %s", o.type.c_str(), o.what.c_str()); cm.f[name][m.tok].min = 1; break; }
				case 1: { if (!cnt) break; if (!read_all(f, v).ok) violate("md.read", "the messages cannot be listed"); std::vector<size_t> nums; auto s = draw_set(cnt, nums); std::string to = chance(700, "copy.to") ? (name == "inbox" ? "other" : "inbox") : name; for (auto k : nums) { std::string t = g_md->tok_of(v[k - 1].data); ++cm.f[to][t].max; cm.flags[to + "/" + t].insert(v[k - 1].flags); } o = call("copy", [&] { f->copyMessages(md_path(to), s); }); CHECK(o.ok, "md.copy", "copyMessages() failed on a healthy disk: %s %s", o.type.c_str(), o.what.c_str()); for (auto k : nums) ++cm.f[to][g_md->tok_of(v[k - 1].data)].min; break; }
				case 2: { if (!cnt) break; if (!read_all(f, v).ok) break; std::vector<size_t> nums; auto s = draw_set(cnt, nums); int fl = draw_flags(true), mode = int(choose(3, "mode")); std::vector<std::pair<std::string, int>> nf; for (auto k : nums) { std::string t = name + "/" + g_md->tok_of(v[k - 1].data); int x = mode == 0 ? fl : mode == 1 ? v[k - 1].flags | fl : v[k - 1].flags & ~fl; cm.flags[t].insert(x); nf.push_back({t, x}); } o = call("flags", [&] { f->setMessageFlags(s, fl, mode); }); CHECK(o.ok, "md.flags", "setMessageFlags() failed on a healthy disk: %s %s", o.type.c_str(), o.what.c_str()); for (auto& x : nf) if (cm.f[x.first.substr(0, x.first.find('/'))][x.first.substr(x.first.find('/') + 1)].max == 1) cm.flags[x.first] = {x.second}; break; }
				case 3: { if (!read_all(f, v).ok) break; std::vector<std::string> del; for (auto& e : v) if (e.flags & vn::message::FLAG_DELETED) del.push_back(g_md->tok_of(e.data)); for (auto& t : del) --cm.f[name][t].min; o = call("expunge", [&] { f->expunge(); }); CHECK(o.ok, "md.expunge", "expunge() failed on a healthy disk: %s %s", o.type.c_str(), o.what.c_str()); for (auto& t : del) --cm.f[name][t].max; break; }
				case 4: { size_t a, b; call("status", [&] { f->status(a, b); }); break; }
				case 5: { call("close", [&] { f->close(false); }); f = vmime::null; name = chance(500, "swap") ? "other" : "inbox"; f = c.folder(name); o = call("open", [&] { f->open(vn::folder::MODE_READ_WRITE); }); CHECK(o.ok, "md.open", "open() failed on a healthy disk: %s %s", o.type.c_str(), o.what.c_str()); break; }
				default: { MMsg m = g_md->gen(300); g_md->deliver(name, m, false, 0); cm.f[name][m.tok] = Exp{1, 1}; cm.flags[name + "/" + m.tok] = {0}; }
			}
		}
		o = call("close", [&] { f->close(false); });
	});
	join_all(); bool crashed = killed(); if (!crashed) count("run.no_crash");
	g_fs = FsCfg(); if (crashed && machine) fs_crash_recover();
	for (auto n : {"inbox", "other"}) {
		auto have = g_md->disk_tokens(n, "after the crash");
		for (auto& e : cm.f[n]) { int k = have.count(e.first) ? have[e.first] : 0; CHECK(k >= e.second.min, "md.lost", "after the crash %s holds %d copies of %s instead of at least %d", n, k, e.first.c_str(), e.second.min); CHECK(k <= e.second.max, "md.dup", "after the crash %s holds %d copies of %s instead of at most %d", n, k, e.first.c_str(), e.second.max); }
		for (auto& d : g_md->disk(n)) { auto& al = cm.flags[std::string(n) + "/" + g_md->tok_of(d.data)]; CHECK(al.count(d.flags), "md.flags.lost", "after the crash message %s in %s has flags \"%s\"", g_md->tok_of(d.data).c_str(), n, MdWorld::flagstr(d.flags).c_str()); }
		MdCl c; c.make(); Out o = c.connect(); CHECK(o.ok, "md.connect", "connect() after the crash failed: %s", o.what.c_str()); auto f = c.folder(n); o = call("open after crash", [&] { f->open(vn::folder::MODE_READ_WRITE); }); CHECK(o.ok, "md.open", "open() after the crash failed: %s %s", o.type.c_str(), o.what.c_str());
		std::vector<MView> v; o = read_all(f, v); CHECK(o.ok, "md.read", "reading after the crash failed: %s %s", o.type.c_str(), o.what.c_str()); std::map<std::string, int> seen; for (auto& e : v) { CHECK(e.ok, "md.read", "message %zu cannot be read after the crash: %s", e.num, e.err.c_str()); std::string t = g_md->tok_of(e.data); CHECK(!t.empty(), "md.partial", "after the crash message %zu of %s is %s", e.num, n, g_md->what_is(e.data).c_str()); ++seen[t]; }
		CHECK(seen == have, "md.listing", "after the crash %s lists %zu messages, the disk holds %zu", n, v.size(), g_md->disk(n).size());
	}
	if (!crashed) finish_checks();
	nontrivial();
}
// ------------------------------------------------------------------ M02
SCENARIO(M02, errors, 10) {
	setup(); app_init(); prefill("inbox", 5); prefill("other", 3);
	std::map<std::string, std::map<std::string, int>> model; std::map<std::string, std::set<int>> flags; std::map<std::string, std::set<std::string>> fuzzy;   // fuzzy: may or may not be gone
	for (auto n : {"inbox", "other"}) for (auto& d : g_md->disk(n)) { model[n][g_md->tok_of(d.data)] = 1; flags[std::string(n) + "/" + g_md->tok_of(d.data)] = {d.flags}; }
	auto faults = [&] {
		g_fs.fails.clear(); g_fs.capacity = 0; g_fs.shortwr = g_fs.shortrd = g_fs.eintr = 0;
		switch (choose(4, "fault.kind")) {
			case 0: case 1: { FsFail x; x.mask = oneof<u32>({FC_ALL, FC_OPEN, FC_CREAT, FC_READ, FC_WRITE, FC_FSYNC, FC_CLOSE, FC_STAT, FC_OPENDIR, FC_READDIR, FC_RENAME, FC_UNLINK, FC_MKDIR, FC_SEEK}, "fail.mask"); x.nth = sized(x.mask == FC_ALL ? 120 : 12, "fail.nth"); x.err = oneof<int>({EIO, ENOSPC, EACCES, EMFILE, EROFS}, "fail.err"); x.sticky = chance(250, "fail.sticky"); g_fs.fails.push_back(x); break; }
			case 2: { u64 u = 0; for (auto& x : fs_tree("/")) if (x.second != "<dir>") u += x.second.size(); g_fs.capacity = u + 1 + sized(100000, "capacity"); break; }
			default: break;
		}
		if (chance(500, "partial")) { g_fs.shortwr = 300; g_fs.shortrd = 300; g_fs.eintr = chance(400, "eintr") ? 50 : 0; }
	};
	MdCl c; c.make(); CHECK(c.connect().ok, "md.connect", "connect() failed on a healthy disk"); std::string name = "inbox"; shared_ptr<vn::folder> f; u32 n = 2 + sized(10, "ops"); Out o; bool stale = false;   // stale: a failed operation may have left entries that a re-scan would change
	auto total = [&](const std::string& nm) { size_t k = 0; for (auto& e : model[nm]) k += e.second; return k; };
	auto verify_disk = [&](const char* when) {
		for (auto nm : {"inbox", "other"}) { auto have = g_md->disk_tokens(nm, when); for (auto& e : model[nm]) { int k = have.count(e.first) ? have[e.first] : 0; if (fuzzy[nm].count(e.first)) { CHECK(k <= e.second, "md.dup", "%s %s holds %d copies of %s", when, nm, k, e.first.c_str()); e.second = k; continue; } CHECK(k == e.second, k < e.second ? "md.lost" : "md.dup", "%s %s holds %d copies of %s instead of %d", when, nm, k, e.first.c_str(), e.second); } for (auto& h : have) CHECK(model[nm].count(h.first), "md.failed_but_there", "%s %s holds message %s although storing it failed", when, nm, h.first.c_str());
			fuzzy[nm].clear(); for (auto& d : g_md->disk(nm)) { auto& al = flags[std::string(nm) + "/" + g_md->tok_of(d.data)]; CHECK(al.count(d.flags), "md.flags.wrong", "%s message %s in %s has flags \"%s\"", when, g_md->tok_of(d.data).c_str(), nm, MdWorld::flagstr(d.flags).c_str()); if (model[nm][g_md->tok_of(d.data)] == 1) al = {d.flags}; } }
	};
	for (u32 i = 0; i < n; ++i) {
		bool fl = chance(700, "faulty"); if (fl) faults(); else g_fs = FsCfg(); size_t vfd0 = vfd_open_count();
		if (!f) { auto g = c.folder(name); o = call("open", [&] { g->open(vn::folder::MODE_READ_WRITE); }); if (o.ok) { f = g; stale = false; CHECK(f->getMessageCount() == total(name), "md.hidden", "open() succeeded but shows %zu of %zu messages", f->getMessageCount(), total(name)); } else CHECK(fl, "md.open", "open() failed on a healthy disk: %s %s", o.type.c_str(), o.what.c_str()); g_fs = FsCfg(); verify_disk("after open"); continue; }
		size_t cnt = f->getMessageCount(); std::vector<MView> v; FsCfg keep = g_fs; g_fs = FsCfg(); o = read_all(f, v); CHECK(o.ok && v.size() == cnt, "md.read", "listing failed: %s", o.what.c_str()); bool allok = true; for (auto& e : v) { if (!e.ok) { CHECK(stale, "md.read", "message %zu cannot be read on a healthy disk: %s", e.num, e.err.c_str()); allok = false; } }
		u32 op = weighted({5, 3, 3, 3, 2, 2, 2, 1}, "op"); if (!allok && (op == 1 || op == 2 || op == 3 || op == 6)) op = 4;
		g_fs = keep; g_fs_faults = 0;
		switch (op) {
			case 0: { MMsg m = g_md->gen(g_md->maxlen); int fg = chance(250, "recent") ? int(vn::message::FLAG_RECENT) : chance(400, "none") ? -1 : draw_flags(false); SrcCfg sc = draw_src(chance(150, "src.fault"), m.data.size()); bool sf = false; Progress p; bool up = chance(400, "prog"); flags[name + "/" + m.tok] = {fg == vn::message::FLAG_RECENT || fg == -1 ? 0 : fg}; auto tmp0 = fs_list(g_md->dir(name) + "/tmp");
				if (sc.eof_at < m.data.size()) sc.eof_at = ~0ull; o = add(f, m, fg, up ? &p : nullptr, sc, &sf);
				if (o.ok) { CHECK(!sf, "md.src_error_swallowed", "addMessage() returned normally although reading the message failed"); model[name][m.tok] = 1; if (up) CHECK(p.bad.empty() && p.st == 2, "md.progress", "progress listener: %s", p.bad.empty() ? "never stopped" : p.bad.c_str()); } else CHECK(fl || sf, "md.add", "addMessage() failed on a healthy disk: %s %s", o.type.c_str(), o.what.c_str());
				if (o.ok && fg == vn::message::FLAG_RECENT) stale = true;
				if (g_fs_faults <= (sf ? 0u : 1u) && (g_fs.fails.empty() || !g_fs.fails[0].sticky)) CHECK(fs_list(g_md->dir(name) + "/tmp").size() == tmp0.size(), "md.debris", "addMessage() (%s) left a temporary file behind although nothing kept it from removing it", o.ok ? "ok" : o.type.c_str());
				break; }
			case 1: { if (!cnt) break; std::vector<size_t> nums; auto s = draw_set(cnt, nums); std::string to = name == "inbox" ? "other" : "inbox"; o = call("copy", [&] { f->copyMessages(md_path(to), s); }); for (auto k : nums) { std::string t = g_md->tok_of(v[k - 1].data); auto al = flags[name + "/" + t]; flags[to + "/" + t].insert(al.begin(), al.end()); ++model[to][t]; if (!o.ok) fuzzy[to].insert(t); } if (!o.ok) CHECK(fl, "md.copy", "copyMessages() failed on a healthy disk: %s %s", o.type.c_str(), o.what.c_str());
				if (!o.ok) { auto have = g_md->disk_tokens(to, "after a failed copy"); bool stopped = false; for (auto k : nums) { std::string t = g_md->tok_of(v[k - 1].data); (void) t; (void) stopped; } for (auto& e : model[to]) if (fuzzy[to].count(e.first)) { int k = have.count(e.first) ? have[e.first] : 0, was = e.second; for (auto q : nums) if (g_md->tok_of(v[q - 1].data) == e.first) --was; CHECK(k >= was, "md.lost", "after a failed copy %s holds %d copies of %s instead of at least %d", to.c_str(), k, e.first.c_str(), was); } }
				break; }
			case 2: { if (!cnt) break; std::vector<size_t> nums; auto s = draw_set(cnt, nums); int fg = draw_flags(true), mode = int(choose(3, "mode")); std::vector<std::pair<std::string, int>> nf; for (auto k : nums) nf.push_back({name + "/" + g_md->tok_of(v[k - 1].data), mode == 0 ? fg : mode == 1 ? v[k - 1].flags | fg : v[k - 1].flags & ~fg}); o = call("flags", [&] { f->setMessageFlags(s, fg, mode); }); for (auto& x : nf) { if (o.ok && model[name][x.first.substr(x.first.find('/') + 1)] == 1) flags[x.first] = {x.second}; else flags[x.first].insert(x.second); } if (!o.ok) CHECK(fl, "md.flags", "setMessageFlags() failed on a healthy disk: %s %s", o.type.c_str(), o.what.c_str()); break; }
			case 3: { std::set<std::string> del; for (auto& e : v) if (e.flags & vn::message::FLAG_DELETED) del.insert(g_md->tok_of(e.data)); o = call("expunge", [&] { f->expunge(); }); std::map<std::string, int> cn; for (auto& e : v) if (e.flags & vn::message::FLAG_DELETED) ++cn[g_md->tok_of(e.data)]; if (o.ok) { for (auto& x : cn) { model[name][x.first] -= x.second; } } else { CHECK(fl, "md.expunge", "expunge() failed on a healthy disk: %s %s", o.type.c_str(), o.what.c_str()); for (auto& t : del) fuzzy[name].insert(t); } break; }
			case 4: { size_t a = 0, b = 0; o = call("status", [&] { f->status(a, b); }); if (o.ok) { stale = false; CHECK(a == total(name), "md.hidden", "status() succeeded but counts %zu of %zu messages", a, total(name)); } else CHECK(fl, "md.status", "status() failed on a healthy disk: %s %s", o.type.c_str(), o.what.c_str()); break; }
			case 5: { o = call("close", [&] { f->close(false); }); CHECK(o.ok, "md.close", "close() failed: %s %s", o.type.c_str(), o.what.c_str()); f = vmime::null; if (chance(400, "swap")) name = name == "inbox" ? "other" : "inbox"; break; }
			case 6: { if (!cnt) break; size_t k = choose(u32(cnt), "which"); auto m = f->getMessage(k + 1); Sink s; o = call("extract", [&] { m->extract(s); }); if (o.ok) CHECK(s.d == v[k].data, "md.content", "extract() returned normally but delivered something else: %s", diff_at(s.d, v[k].data).c_str()); else CHECK(fl, "md.extract", "extract() failed on a healthy disk: %s %s", o.type.c_str(), o.what.c_str()); o = call("fetch", [&] { f->fetchMessage(m, vn::fetchAttributes(vn::fetchAttributes::SIZE | vn::fetchAttributes::FULL_HEADER | vn::fetchAttributes::STRUCTURE)); }); if (o.ok) { CHECK(m->getSize() == v[k].data.size(), "md.size", "size %zu instead of %zu", m->getSize(), v[k].data.size()); CHECK(m->getHeader()->Subject()->getValue<vmime::text>()->getWholeBuffer() == g_md->tok_of(v[k].data), "md.header", "the header fetched is not that of the message"); } else CHECK(fl, "md.fetch", "fetch() failed on a healthy disk: %s %s", o.type.c_str(), o.what.c_str()); break; }
			default: { MMsg m = g_md->gen(2000); g_md->deliver(name, m, false, 0); model[name][m.tok] = 1; flags[name + "/" + m.tok] = {0}; stale = true; { size_t a, b; FsCfg k2 = g_fs; g_fs = FsCfg(); call("status", [&] { f->status(a, b); }); g_fs = k2; stale = false; } }
		}
		if (o.ok || !fl) {} else count("op.failed"); if (g_fs_faults) nontrivial();
		g_fs = FsCfg(); verify_disk("after the operation"); if (!f) continue; CHECK(vfd_open_count() <= vfd0, "md.fdleak", "descriptors left open by the operation: %s", vfd_list().c_str());
	}
	f = vmime::null; c.st = vmime::null;
	for (auto nm : {"inbox", "other"}) { MdCl d; d.make(); d.connect(); auto g = d.folder(nm); o = call("open at the end", [&] { g->open(vn::folder::MODE_READ_WRITE); }); CHECK(o.ok, "md.open", "open() failed on a healthy disk: %s %s", o.type.c_str(), o.what.c_str()); std::vector<MView> v; o = read_all(g, v); CHECK(o.ok, "md.read", "reading failed: %s", o.what.c_str()); std::map<std::string, int> seen, want; for (auto& e : v) { CHECK(e.ok, "md.read", "message %zu cannot be read: %s", e.num, e.err.c_str()); ++seen[g_md->tok_of(e.data)]; } for (auto& e : model[nm]) if (e.second) want[e.first] = e.second; CHECK(seen == want, "md.listing", "%s lists %zu messages instead of %zu", nm, v.size(), total(nm)); }
	finish_checks();
}
// ------------------------------------------------------------------ M03
namespace {
struct Share { std::map<std::string, int> adds, copies; std::set<std::string> flagged, quiet; std::map<std::string, int> other_adds; };
}
SCENARIO(M03, clients, 10) {
	setup(); app_init(); g_md->maxlen = std::min<size_t>(g_md->maxlen, 3000); prefill("inbox", 6); prefill("other", 2); if (chance(200, "partial")) g_fs.shortwr = 200;
	Share sh; std::set<std::string> quiet; std::map<std::string, int> base_in, base_ot; for (auto& d : g_md->disk("inbox")) { ++base_in[g_md->tok_of(d.data)]; if (chance(500, "quiet") && d.where == "cur") quiet.insert(g_md->tok_of(d.data)); } for (auto& d : g_md->disk("other")) ++base_ot[g_md->tok_of(d.data)];
	u32 nc = 2 + choose(3, "clients"); set_preempt(oneof<u32>({50, 200, 500, 900}, "preempt")); bool ext = chance(400, "external");
	std::map<std::string, int> may_in, may_ot;                                   // copies whose outcome is unknown
	std::set<std::string> deletable;                                             // some client marked it as deleted
	for (u32 ci = 0; ci < nc; ++ci) spawn(fmt("client%u", ci), [&, ci] {
		MdCl c; c.make(); Out o = c.connect(); CHECK(o.ok, "md.connect", "connect() failed: %s", o.what.c_str()); shared_ptr<vn::folder> f; u32 n = 2 + sized(8, "ops");
		for (u32 i = 0; i < n; ++i) {
			std::vector<MView> v;
			if (!f) { auto g = c.folder("inbox"); o = call("open", [&] { g->open(vn::folder::MODE_READ_WRITE); }); CHECK(o.ok, "md.open", "open() failed because of other clients: %s %s", o.type.c_str(), o.what.c_str()); f = g; goto listed; }
			switch (weighted({4, 3, 3, 2, 2, 2, 1}, "op")) {
				case 0: { MMsg m; { m = g_md->gen(g_md->maxlen); } int fl = chance(400, "recent") ? int(vn::message::FLAG_RECENT) : draw_flags(false); o = add(f, m, fl); CHECK(o.ok, "md.add", "addMessage() failed because of other clients: %s %s", o.type.c_str(), o.what.c_str()); ++sh.adds[m.tok]; break; }
				case 1: { size_t a, b; o = call("status", [&] { f->status(a, b); }); CHECK(o.ok, "md.status", "status() failed because of other clients: %s %s", o.type.c_str(), o.what.c_str()); goto listed; }
				case 2: { size_t cnt = f->getMessageCount(); if (!cnt) break; read_all(f, v); std::vector<size_t> nums; draw_set(cnt, nums); std::vector<size_t> ok; for (auto k : nums) if (k <= v.size() && v[k - 1].ok && !quiet.count(g_md->tok_of(v[k - 1].data))) ok.push_back(k); if (ok.empty()) break; int fl = draw_flags(true), mode = int(choose(3, "mode")); if (fl & vn::message::FLAG_DELETED && mode != 2) for (auto k : ok) deletable.insert(g_md->tok_of(v[k - 1].data)); o = call("flags", [&] { f->setMessageFlags(vn::messageSet::byNumber(ok), fl, mode); }); break; }
				case 3: { o = call("expunge", [&] { f->expunge(); }); break; }
				case 4: { size_t cnt = f->getMessageCount(); if (!cnt) break; read_all(f, v); size_t k = choose(u32(cnt), "copy"); if (k >= v.size() || !v[k].ok) break; std::string t = g_md->tok_of(v[k].data); bool same = chance(300, "copy.same"); if (v[k].flags & vn::message::FLAG_DELETED) { } o = call("copy", [&] { f->copyMessages(md_path(same ? "inbox" : "other"), vn::messageSet::byNumber(k + 1)); }); if (o.ok) ++(same ? sh.adds[t] : sh.other_adds[t]); else { ++(same ? may_in[t] : may_ot[t]); CHECK(!quiet.count(t), "md.copy", "copying an undisturbed message failed: %s %s", o.type.c_str(), o.what.c_str()); } break; }
				case 5: { o = call("close", [&] { f->close(chance(300, "close.expunge")); }); f = vmime::null; break; }
				default: if (ext) { MMsg m = g_md->gen(1000); std::string p = g_md->deliver("inbox", m, false, 0); ++sh.adds[m.tok]; }
			}
			continue;
		listed:
			std::set<std::string> q0 = quiet; o = read_all(f, v); CHECK(o.ok, "md.read", "listing failed because of other clients: %s %s", o.type.c_str(), o.what.c_str()); std::map<std::string, int> seen;
			for (auto& e : v) { if (!e.ok) continue; std::string t = g_md->tok_of(e.data); CHECK(!t.empty(), "md.partial", "client %u sees message %zu as %s", ci, e.num, g_md->what_is(e.data).c_str()); CHECK(e.size == e.data.size(), "md.size", "client %u: message %zu has size %zu, %zu bytes are delivered", ci, e.num, e.size, e.data.size()); ++seen[t]; }
			for (auto& t : q0) CHECK(seen[t] >= 1, "md.sight", "client %u lost sight of message %s, which nobody touched", ci, t.c_str());
			std::set<std::string> uids; for (auto& e : v) if (e.ok) CHECK(uids.insert(e.uid).second, "md.twice", "client %u sees the message %s twice", ci, g_md->tok_of(e.data).c_str());
			nontrivial();
		}
		if (f && chance(700, "close")) call("close", [&] { f->close(false); });
	});
	join_all(); set_preempt(0);
	auto in = g_md->disk_tokens("inbox", "in the end"), ot = g_md->disk_tokens("other", "in the end"); std::set<std::string> toks; for (auto& a : g_md->all) toks.insert(a.first);
	for (auto& t : toks) {
		int lo = base_in[t] + sh.adds[t], hi = lo + may_in[t]; if (deletable.count(t)) lo = 0; CHECK(in[t] >= lo, "md.lost", "in the end %d copies of %s are left in inbox instead of %d", in[t], t.c_str(), lo); CHECK(in[t] <= hi, "md.dup", "in the end there are %d copies of %s in inbox instead of at most %d", in[t], t.c_str(), hi);
		lo = base_ot[t] + sh.other_adds[t]; hi = lo + may_ot[t]; CHECK(ot[t] >= lo, "md.lost", "in the end %d copies of %s are left in other instead of %d", ot[t], t.c_str(), lo); CHECK(ot[t] <= hi, "md.dup", "in the end there are %d copies of %s in other instead of at most %d", ot[t], t.c_str(), hi);
	}
	for (auto n : {"inbox", "other"}) { MdCl c; c.make(); c.connect(); auto f = c.folder(n); Out o = call("open", [&] { f->open(vn::folder::MODE_READ_WRITE); }); CHECK(o.ok, "md.open", "open() failed: %s %s", o.type.c_str(), o.what.c_str()); std::vector<MView> v; o = read_all(f, v); CHECK(o.ok, "md.read", "reading failed"); std::map<std::string, int> seen; for (auto& e : v) { CHECK(e.ok, "md.read", "message %zu cannot be read: %s", e.num, e.err.c_str()); ++seen[g_md->tok_of(e.data)]; } auto& want = std::string(n) == "inbox" ? in : ot; for (auto& t : toks) CHECK(seen[t] == want[t], "md.listing", "%s shows %d copies of %s, the disk holds %d", n, seen[t], t.c_str(), want[t]); }
	finish_checks();
}

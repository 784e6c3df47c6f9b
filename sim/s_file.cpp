// F01: the file API on a disk with partial transfers, interrupted calls and errors.
#include "app.hpp"
#include "vmime/contentDispositionField.hpp"
#include "vmime/platforms/posix/posixFile.hpp"
using namespace sim;
namespace vu = vmime::utility;
namespace {
shared_ptr<vu::fileSystemFactory> fsf() { return vmime::platform::getHandler()->getFileSystemFactory(); }
shared_ptr<vu::file> file(const std::string& p) { return fsf()->create(fsf()->stringToPath(p)); }
void draw_disk(bool errors) {
	g_fs = FsCfg(); g_fs.shuffle_dirs = chance(300, "fs.shuffle");
	if (chance(500, "fs.partial")) { g_fs.shortrd = oneof<u32>({0, 200, 800}, "fs.shortrd"); g_fs.shortwr = oneof<u32>({0, 200, 800}, "fs.shortwr"); }
	if (chance(300, "fs.eintr")) g_fs.eintr = oneof<u32>({20, 300}, "fs.eintr.pm");
	if (chance(300, "fs.norename2")) g_fs.norename2 = oneof<int>({ENOSYS, EINVAL}, "fs.norename2.errno");
	(void) errors;
}
void arm(u32 pm, const std::vector<u32>& masks, u32 maxnth) { g_fs_faults = 0; if (!chance(pm, "fault")) return; FsFail x; x.mask = oneof<u32>(masks, "fail.mask"); x.nth = sized(maxnth, "fail.nth"); x.err = oneof<int>({EIO, ENOSPC, EACCES, EMFILE, EROFS, ENOMEM}, "fail.err"); x.sticky = chance(250, "fail.sticky"); g_fs.fails.push_back(x); }
void heal() { g_fs.fails.clear(); g_fs.capacity = 0; }
std::string gen(size_t max) { size_t n = sized(u32(max), "len"); Rng r = subrng("bytes"); return gen_bytes(r, n, 0); }
}
// ---- one file: writers and readers
static void streams(bool errors) {
	app_init(); draw_disk(errors); std::string path = "/data/f.bin"; fs_mkdirs("/data"); size_t max = oneof<size_t>({30, 5000, 200000}, "max");
	std::string disk; bool pre = chance(500, "exists"); if (pre) { disk = gen(max); fs_put(path, disk); }
	bool crash = chance(250, "crash"); std::string durable = disk; std::string pending; bool in_write = false; size_t wpos = 0, dirty = ~size_t(0); u32 ops = 1 + sized(25, "ops");
	if (!pre) { auto f = file(path); if (errors) arm(200, {FC_ALL, FC_OPEN, FC_FSYNC, FC_CLOSE, FC_CREAT}, 3); size_t v0 = vfd_open_count(); Out o = call("createFile", [&] { f->createFile(); }); bool hit = g_fs_faults != 0; heal(); CHECK(vfd_open_count() == v0, "file.fdleak", "createFile() left a descriptor open: %s", vfd_list().c_str());
		if (!o.ok) { CHECK(hit, "file.create", "createFile() failed on a healthy disk: %s", o.what.c_str()); CHECK(!fs_exists(path) || g_fs_faults > 1, "file.stray", "a failed createFile() left a file"); fs_put(path, ""); } else { std::string c; CHECK(fs_get(path, c) && c.empty(), "file.create.none", "createFile() returned normally but there is no empty file"); } }
	std::function<void()> body = [&] {
		shared_ptr<vu::file> f = file(path); shared_ptr<vu::outputStream> w; shared_ptr<vu::seekableInputStream> r; size_t rpos = 0, rend = 0;   // rend: the end of the file (as it was then) was reached
		for (u32 i = 0; i < ops; ++i) {
			size_t v0 = vfd_open_count();
			switch (weighted({3, 8, 3, 2, 3, 8, 2, 2, 2, 2, 3}, "op")) {
				case 0: { if (w) { w = vmime::null; break; } if (errors) arm(200, {FC_OPEN}, 0); Out o = call("getOutputStream", [&] { w = f->getFileWriter()->getOutputStream(); }); bool hit = g_fs_faults != 0; heal(); CHECK(o.ok || hit, "file.open", "getOutputStream() failed: %s", o.what.c_str()); if (!o.ok) { w = vmime::null; CHECK(vfd_open_count() == v0, "file.fdleak", "a failed getOutputStream() left a descriptor open"); } else CHECK(!hit, "file.open.swallowed", "getOutputStream() ignored an error"); wpos = 0; break; }
				case 1: case 2: {
					if (!w) break; std::string s = gen(max); if (errors) { arm(200, {FC_WRITE}, 3); if (g_fs.fails.empty() && chance(100, "full")) { u64 u = 0; for (auto& x : fs_tree("/")) if (x.second != "<dir>") u += x.second.size(); g_fs.capacity = u + 1 + sized(u32(s.size()), "room"); } } pending = s; in_write = true; dirty = std::min(dirty, wpos); bool str = chance(300, "string");
					Out o = call(fmt("write %zu", s.size()), [&] { if (str) *w << s; else w->write(s.data(), s.size()); }); in_write = false; bool hit = g_fs_faults != 0; heal(); std::string c; fs_get(path, c);
					auto put = [&](std::string d, const std::string& x) { if (d.size() < wpos + x.size() && x.size()) d.resize(wpos + x.size()); memcpy(&d[0] + wpos, x.data(), x.size()); return d; };
					if (o.ok) { disk = put(disk, s); wpos += s.size(); CHECK(c == disk, "file.write", "write() of %zu bytes returned normally but the file is wrong: %s", s.size(), diff_at(c, disk).c_str()); if (s.size()) nontrivial(); }
					else { CHECK(hit, "file.write.failed", "write() failed on a healthy disk: %s", o.what.c_str()); bool ok = false; size_t k = 0; for (; k <= s.size() && !ok; ++k) { if (wpos + k > c.size() && k) break; if (c.size() == std::max(disk.size(), k ? wpos + k : 0) && put(disk, s.substr(0, k)) == c) ok = true; if (k > 300 && !ok) k = std::max(k, c.size() > wpos + 1 ? std::min(s.size() - 1, c.size() - wpos - 1) : k); } CHECK(ok || s.size() > 200, "file.write.garbage", "a failed write() left something else than the start of the data in the file"); disk = c; w = vmime::null; }
					break; }
				case 3: { if (!w) break; if (errors) arm(300, {FC_FSYNC}, 0); Out o = call("flush", [&] { w->flush(); }); bool hit = g_fs_faults != 0; heal(); CHECK(o.ok == !hit, o.ok ? "file.flush.swallowed" : "file.flush", "flush() %s: %s", o.ok ? "ignored an error" : "failed on a healthy disk", o.what.c_str()); if (o.ok) { durable = disk; dirty = ~size_t(0); } break; }
				case 4: { r = vmime::null; v0 = vfd_open_count(); if (errors) arm(200, {FC_OPEN}, 0); Out o = call("getInputStream", [&] { r = vmime::dynamicCast<vu::seekableInputStream>(f->getFileReader()->getInputStream()); }); bool hit = g_fs_faults != 0; heal(); CHECK(o.ok == !hit, "file.open", "getInputStream() %s", o.ok ? "ignored an error" : "failed"); if (!o.ok) { r = vmime::null; CHECK(vfd_open_count() == v0, "file.fdleak", "a failed getInputStream() left a descriptor open"); } rpos = rend = 0; break; }
				case 5: case 6: {
					if (!r) break; size_t n = chance(100, "zero") ? 0 : 1 + sized(u32(max), "rlen"); std::vector<vmime::byte_t> b(n + 1, 0xEE); size_t k = 0; if (errors) arm(200, {FC_READ}, 1); Out o = call(fmt("read %zu", n), [&] { k = r->read(b.data(), n); }); bool hit = g_fs_faults != 0; heal();
					if (!o.ok) { CHECK(hit, "file.read.failed", "read() failed on a healthy disk: %s", o.what.c_str()); size_t p = 0; call("getPosition", [&] { p = r->getPosition(); }); CHECK(p == rpos, "file.read.position", "a failed read() moved the position"); break; }
					CHECK(!hit, "file.read.swallowed", "read() ignored an error and gave %zu bytes", k); size_t left = rpos < disk.size() ? disk.size() - rpos : 0; CHECK(k <= n && k <= left, "file.read.more", "read() gave %zu bytes, %zu are left", k, left); CHECK(k > 0 || left == 0 || n == 0, "file.read.none", "read() gave nothing, %zu bytes are left", left); CHECK(!memcmp(b.data(), disk.data() + std::min(rpos, disk.size()), k), "file.read", "read() gave other bytes than the file holds"); CHECK(b[n] == 0xEE && (k == n || true), "file.read.beyond", "read() wrote past the buffer"); rpos += k; if (rpos >= disk.size()) rend = 1; CHECK(!r->eof() || rend, "file.eof", "eof() at %zu of %zu", rpos, disk.size()); if (k == 0 && n) CHECK(r->eof(), "file.eof.never", "read() gave nothing but eof() is false"); if (k) nontrivial(); break; }
				case 7: { if (!r) break; size_t n = sized(u32(max), "skip"), k = 0; if (errors) arm(100, {FC_SEEK}, 1); Out o = call(fmt("skip %zu", n), [&] { k = r->skip(n); }); bool hit = g_fs_faults != 0; heal(); if (!o.ok) { CHECK(hit, "file.skip.failed", "skip() failed: %s", o.what.c_str()); call("seek", [&] { r->seek(rpos); }); break; } size_t left = rpos < disk.size() ? disk.size() - rpos : 0; CHECK(k <= n && k <= left, "file.skip.more", "skip(%zu) says %zu bytes were skipped, %zu are left", n, k, left); CHECK(k == std::min(n, left), "file.skip.less", "skip(%zu) skipped %zu bytes, %zu are left", n, k, left); rpos += k; if (rpos >= disk.size()) rend = 1; CHECK(!r->eof() || rend, "file.eof", "eof() at %zu of %zu after skip()", rpos, disk.size()); break; }
				case 8: { if (!r) break; size_t n = sized(u32(disk.size()), "seek"); if (errors) arm(100, {FC_SEEK}, 0); Out o = call(fmt("seek %zu", n), [&] { r->seek(n); }); bool hit = g_fs_faults != 0; heal(); if (!o.ok) { CHECK(hit, "file.seek.failed", "seek() failed: %s", o.what.c_str()); break; } CHECK(!hit, "file.seek.swallowed", "seek() ignored an error"); rpos = n; rend = 0; if (rpos >= disk.size()) rend = 1; CHECK(!r->eof() || rend, "file.eof", "eof() at %zu of %zu after seek()", rpos, disk.size()); break; }
				case 9: { if (!r) break; if (chance(500, "reset")) { if (errors) arm(100, {FC_SEEK}, 0); Out o = call("reset", [&] { r->reset(); }); bool hit = g_fs_faults != 0; heal(); CHECK(o.ok == !hit, "file.reset", "reset() %s", o.ok ? "ignored an error" : "failed"); if (o.ok) { rpos = 0; rend = 0; CHECK(!r->eof() || disk.empty(), "file.eof", "eof() after reset()"); } } else { size_t p = 0; Out o = call("getPosition", [&] { p = r->getPosition(); }); CHECK(o.ok && p == rpos, "file.position", "getPosition() gives %zu instead of %zu", p, rpos); } break; }
				default: {   // copy what is left
					if (!r) break; if (r->eof()) r->seek(rpos); Sink s; s.bs = oneof<size_t>({32768, 1, 7, 4096}, "block"); if (s.bs == 1 && disk.size() > 5000) s.bs = 4096; if (errors) { arm(250, {FC_READ}, 4); if (chance(100, "sink fails")) s.fail_at = sized(u32(max), "sink.at"); } Progress pr; bool up = chance(400, "progress"); size_t total = 0; Out o = call("copy", [&] { total = up ? vu::bufferedStreamCopy(*r, s, disk.size() - std::min(rpos, disk.size()), &pr) : vu::bufferedStreamCopy(*r, s); }); bool hit = g_fs_faults != 0; heal(); std::string want = disk.substr(std::min(rpos, disk.size()));
					if (o.ok) { CHECK(!hit && !s.failed, "file.copy.swallowed", "bufferedStreamCopy() ignored an error"); CHECK(s.d == want, "file.copy", "bufferedStreamCopy(): %s", diff_at(s.d, want).c_str()); CHECK(total == want.size(), "file.copy.count", "bufferedStreamCopy() says %zu bytes instead of %zu", total, want.size()); rpos = disk.size(); rend = 1; if (up) CHECK(pr.bad.empty() && pr.st == 2 && pr.total == want.size(), "file.copy.progress", "progress listener: %s", pr.bad.c_str()); }
					else { CHECK(hit || s.failed, "file.copy.failed", "bufferedStreamCopy() failed on a healthy disk: %s", o.what.c_str()); CHECK(want.compare(0, s.d.size(), s.d) == 0, "file.copy", "a failed bufferedStreamCopy() delivered something else than the start of the file"); rpos = r->getPosition(); }
				}
			}
			u64 len = 0; call("getLength", [&] { len = f->getLength(); }); CHECK(len == disk.size(), "file.length", "getLength() gives %llu instead of %zu", (unsigned long long) len, disk.size()); state(disk.size() * 31 + rpos);
		}
		w = vmime::null; r = vmime::null;
	};
	if (!crash) { body(); CHECK(vfd_open_count() == 0, "file.fdleak", "descriptors left open: %s", vfd_list().c_str()); finish_checks(); return; }
	fs_lookup(path)->durable = fs_lookup(path)->data; g_fs_calls = 0; g_fs.crash_at = int(sized(120, "crash.at")); spawn("program", body); join_all(); if (!killed()) { count("run.no_crash"); return; }
	g_fs = FsCfg(); fs_crash_recover(); std::string c; CHECK(fs_get(path, c), "file.crash.gone", "the file is gone after a crash"); size_t eq = 0; while (eq < c.size() && eq < durable.size() && c[eq] == durable[eq]) ++eq; CHECK(c.size() >= durable.size(), "file.crash.lost", "%zu bytes had been flushed, %zu are left after a crash", durable.size(), c.size()); (void) in_write;
	CHECK(eq >= std::min(durable.size(), dirty), "file.crash.lost", "flushed data is different after a crash");
	nontrivial();
}
SCENARIO(F01, streams, 10) { streams(false); }
SCENARIO(F01, errors, 10) { streams(true); }
// ---- a tree of files and directories
SCENARIO(F01, tree, 8) {
	app_init(); draw_disk(true); fs_mkdirs("/data"); std::map<std::string, std::string> m;   // path -> content or "<dir>"
	auto disk = [] { auto t = fs_tree("/data"); return t; }; const std::vector<std::string> N = {"a", "b", "c", "a b", "\xc3\xa9"}; std::vector<shared_ptr<vu::file>> keep; u32 ops = 2 + sized(30, "ops"), serial = 0;
	auto path = [&] { std::string p = "/data"; u32 d = 1 + choose(3, "depth"); for (u32 i = 0; i < d; ++i) p += "/" + oneof<std::string>(N, "name"); return p; };
	auto any = [&] { if (m.empty() || chance(300, "new")) return path(); auto i = m.begin(); std::advance(i, choose(u32(m.size()), "pick")); return i->first; };
	auto par = [](const std::string& p) { return p.substr(0, p.rfind('/')); }; auto isdir = [&](const std::string& p) { return p == "/data" || (m.count(p) && m[p] == "<dir>"); }; auto viafile = [&](const std::string& p) { for (std::string q = par(p); q.size() > 5; q = par(q)) if (m.count(q) && m[q] != "<dir>") return true; return false; };
	auto empty = [&](const std::string& p) { auto i = m.upper_bound(p + "/"); return i == m.end() || i->first.compare(0, p.size() + 1, p + "/") != 0; };
	for (u32 i = 0; i < ops; ++i) {
		std::string p = any(); auto f = file(p); size_t v0 = vfd_open_count(); auto before = disk(); bool have = m.count(p) != 0; CHECK(before == m, "file.model", "the simulated disk and the model differ");
		auto done = [&](const Out& o, bool can, bool hit, const char* what) { if (o.ok) { CHECK(can, "file.op.impossible", "%s %s returned normally", what, p.c_str()); } else CHECK(hit || !can, "file.op", "%s %s failed: %s", what, p.c_str(), o.what.c_str()); CHECK(vfd_open_count() == v0, "file.fdleak", "%s left a descriptor open: %s", what, vfd_list().c_str()); return o.ok; };
		switch (weighted({4, 3, 5, 3, 3, 3}, "op")) {
			case 0: { bool can = !have && isdir(par(p)); arm(250, {FC_ALL, FC_CREAT, FC_FSYNC, FC_CLOSE}, 3); Out o = call("createFile " + p, [&] { f->createFile(); }); bool hit = g_fs_faults; bool many = g_fs_faults > 1; heal(); if (done(o, can, hit, "createFile()")) { m[p] = fmt("content %u", ++serial); fs_put(p, m[p]); } else if (many && disk() != m) { auto t = disk(); t.erase(p); CHECK(t == m, "file.stray", "a failed createFile() changed something else"); fs_remove(p); } break; }
			case 1: { bool all = chance(400, "all"), can = !have && !viafile(p) && (all || isdir(par(p))) ; bool same = have && m[p] == "<dir>"; if (same) can = true; arm(250, {FC_ALL, FC_MKDIR, FC_STAT}, 3); Out o = call("createDirectory " + p, [&] { f->createDirectory(all); }); bool hit = g_fs_faults; heal();
				std::vector<std::string> mk; for (std::string q = p; q != "/data"; q = par(q)) if (!m.count(q)) mk.push_back(q); if (done(o, can, hit, "createDirectory()")) for (auto& q : mk) m[q] = "<dir>"; else { auto t = disk(); for (auto& q : mk) if (all && q != p && t.count(q)) { CHECK(t[q] == "<dir>", "file.stray", "%s is no directory", q.c_str()); m[q] = "<dir>"; } } break; }
			case 2: {
				std::string q = any(); if (q.compare(0, p.size() + 1, p + "/") == 0 && have) { }
				bool can = have && !m.count(q) && isdir(par(q)) && q.compare(0, p.size() + 1, p + "/") != 0; bool same = p == q && have; arm(250, {FC_ALL, FC_RENAME, FC_STAT}, 2); Out o = call("rename " + p + " to " + q, [&] { f->rename(fsf()->stringToPath(q)); }); bool hit = g_fs_faults; bool many = g_fs_faults > 1; heal(); if (!o.ok && many && !m.count(q) && disk().count(q)) fs_remove(q);  // the error lasted: even the placeholder could not be taken back
				if (same) { CHECK(disk() == m, "file.rename.self", "renaming a file to its own name changed something"); break; }
				if (done(o, can, hit, "rename()")) { std::map<std::string, std::string> n; for (auto& x : m) n[x.first == p || x.first.compare(0, p.size() + 1, p + "/") == 0 ? q + x.first.substr(p.size()) : x.first] = x.second; m = n; CHECK(fsf()->pathToString(f->getFullPath()) == q, "file.rename.path", "getFullPath() after rename() is %s", fsf()->pathToString(f->getFullPath()).c_str()); nontrivial(); }
				else CHECK(fsf()->pathToString(f->getFullPath()) == p, "file.rename.path", "getFullPath() after a failed rename() is %s", fsf()->pathToString(f->getFullPath()).c_str());
				break; }
			case 3: { bool can = have && (m[p] != "<dir>" || empty(p)); arm(250, {FC_ALL, FC_UNLINK, FC_STAT}, 1); Out o = call("remove " + p, [&] { f->remove(); }); bool hit = g_fs_faults; heal(); if (done(o, can, hit, "remove()")) { m.erase(p); nontrivial(); } break; }
			case 4: {
				arm(250, {FC_ALL, FC_STAT, FC_ACCESS}, 0); u32 k = choose(5, "query"); bool v = false; Out o = call(fmt("query %u ", k) + p, [&] { v = k == 0 ? f->exists() : k == 1 ? f->isFile() : k == 2 ? f->isDirectory() : k == 3 ? f->canRead() : f->canWrite(); }); bool hit = g_fs_faults; heal(); bool isf = have && m[p] != "<dir>", want = k == 0 ? have : k == 2 ? have && !isf : isf;
				if (o.ok) CHECK(v == want || (hit && k >= 3 && !v), "file.query", "%s(%s) says %s", k == 0 ? "exists" : k == 1 ? "isFile" : k == 2 ? "isDirectory" : k == 3 ? "canRead" : "canWrite", p.c_str(), v ? "yes" : "no"); else CHECK(hit || viafile(p), "file.query.failed", "a query for %s failed: %s", p.c_str(), o.what.c_str()); break; }
			default: {
				std::string d = chance(300, "top") ? "/data" : p; auto g = file(d); arm(250, {FC_ALL, FC_OPENDIR, FC_READDIR, FC_STAT}, 4); std::vector<std::string> got; Out o = call("getFiles " + d, [&] { auto it = g->getFiles(); while (it->hasMoreElements()) got.push_back(fsf()->pathToString(it->nextElement()->getFullPath())); }); bool hit = g_fs_faults; heal(); std::vector<std::string> want; for (auto& x : m) if (par(x.first) == d) want.push_back(x.first); std::sort(got.begin(), got.end());
				CHECK(vfd_open_count() == v0, "file.fdleak", "getFiles() left a descriptor open: %s", vfd_list().c_str()); if (o.ok) { CHECK(isdir(d), "file.list.none", "getFiles(%s) of something that is no directory returned normally", d.c_str()); CHECK(!hit, "file.list.swallowed", "getFiles() ignored an error"); CHECK(got == want, "file.list", "getFiles(%s) shows %zu entries instead of %zu, or others", d.c_str(), got.size(), want.size()); } else CHECK(hit || !isdir(d), "file.list.failed", "getFiles(%s) failed: %s", d.c_str(), o.what.c_str());
			}
		}
		auto now_ = disk(); for (auto& x : m) CHECK(now_.count(x.first) && now_[x.first] == x.second, "file.lost", "%s is gone or different", x.first.c_str()); for (auto& x : now_) CHECK(m.count(x.first), "file.stray", "there is a %s nobody asked for", x.first.c_str()); u64 h = 7; for (auto& x : m) h = fnvs(x.first, h); state(h);
	}
	nontrivial(); finish_checks();
}
// ---- a file as attachment, and a message parsed from a file
SCENARIO(F01, message, 6) {
	app_init(); draw_disk(true); fs_mkdirs("/data"); size_t max = oneof<size_t>({200, 5000, 100000}, "max"); std::string data = gen(max); fs_put("/data/att.bin", data); bool rep = chance(300, "twice");
	int how = int(choose(6, "att.how")); vmime::encoding enc(chance(500, "att.enc") ? "base64" : "quoted-printable");
	static const char* descs[] = { "x", "Quarterly report, second draft", "r\xc3\xa9sum\xc3\xa9 \xe2\x80\x94 na\xc3\xafve", "a description that is long enough to need folding because it has many words, and each of them counts" };
	std::string desc = descs[choose(4, "att.desc")]; int dates = int(choose(8, "att.dates")); vmime::datetime dt[3]; for (auto& x : dt) x = vmime::datetime(int(range(1990, 2037, "year")), int(range(1, 12, "month")), int(range(1, 28, "day")), int(range(0, 23, "hour")), int(range(0, 59, "min")), int(range(0, 59, "sec")), int(range(-12, 12, "zone")) * 60);
	auto make = [&]() -> shared_ptr<vmime::attachment> {
		vmime::mediaType t("application/octet-stream"); std::string f = "/data/att.bin"; vmime::text d(vmime::word(desc, vmime::charset("utf-8"))); shared_ptr<vmime::fileAttachment> a; auto h = [&]() -> shared_ptr<vmime::contentHandler> { auto x = file(f); return make_shared<vmime::streamContentHandler>(x->getFileReader()->getInputStream(), x->getLength()); };
		switch (how) { case 1: a = make_shared<vmime::fileAttachment>(f, t); break; case 2: a = make_shared<vmime::fileAttachment>(f, t, d, enc); break; case 3: a = make_shared<vmime::fileAttachment>(h(), vmime::word("att.bin"), t); break; case 4: a = make_shared<vmime::fileAttachment>(h(), vmime::word("att.bin"), t, d); break; case 5: a = make_shared<vmime::fileAttachment>(h(), vmime::word("att.bin"), t, d, enc); break; default: a = make_shared<vmime::fileAttachment>(f, t, d); }
		if (dates & 1) a->getFileInfo().setCreationDate(dt[0]); if (dates & 2) a->getFileInfo().setModificationDate(dt[1]); if (dates & 4) a->getFileInfo().setReadDate(dt[2]);
		return a;
	};
	auto att = [&]() -> shared_ptr<vmime::message> { vmime::messageBuilder mb; mb.setExpeditor(vmime::mailbox("a@b.c")); vmime::addressList to; to.appendAddress(make_shared<vmime::mailbox>("d@e.f")); mb.setRecipients(to); mb.setSubject(vmime::text("s")); mb.getTextPart()->setText(make_shared<vmime::stringContentHandler>("text")); mb.appendAttachment(make()); return mb.construct(); };
	auto extract = [&](shared_ptr<vmime::message> m, Sink& s) { vmime::messageParser mp(m); if (mp.getAttachmentCount() != 1) violate("file.attachment.count", "the message has %zu attachments", mp.getAttachmentCount()); auto at = mp.getAttachmentAt(0); if (at->getName().getConvertedText(vmime::charset("utf-8")) != "att.bin") violate("file.attachment.name", "the attachment is called '%s'", at->getName().getBuffer().c_str()); auto cd = vmime::dynamicCast<const vmime::bodyPart>(at->getPart())->getHeader()->findField<vmime::contentDispositionField>(vmime::fields::CONTENT_DISPOSITION); if (!cd || !cd->hasParameter("size") || cd->getSize() != fmt("%zu", data.size())) violate("file.attachment.size", "the attachment announces the size '%s', the file has %zu bytes", cd && cd->hasParameter("size") ? cd->getSize().c_str() : "", data.size());
		if (at->getType() != vmime::mediaType("application/octet-stream")) violate("file.attachment.type", "the attachment has the type %s", at->getType().generate().c_str());
		std::string want = how == 1 || how == 3 ? "" : desc, got = at->getDescription().getConvertedText(vmime::charset("utf-8")); if (got != want) violate("file.attachment.description", "the attachment is described as '%s' instead of '%s'", got.c_str(), want.c_str());
		static const char* pn[] = { "creation-date", "modification-date", "read-date" }; for (int k = 0; k < 3; ++k) { bool has = cd->hasParameter(pn[k]); if (has != bool(dates >> k & 1)) violate("file.attachment.date", "the attachment has %s %s", has ? "a" : "no", pn[k]); if (has) { vmime::datetime d = k == 0 ? cd->getCreationDate() : k == 1 ? cd->getModificationDate() : cd->getReadDate(); if (d.generate() != dt[k].generate()) violate("file.attachment.date", "the %s is %s instead of %s", pn[k], d.generate().c_str(), dt[k].generate().c_str()); } }
		at->getData()->extract(s); };
	arm(400, {FC_READ, FC_OPEN, FC_STAT, FC_SEEK, FC_ALL}, 12); std::string text; bool gen_ok = false;
	{ shared_ptr<vmime::message> m; Out o = call("build and generate", [&] { m = att(); vu::outputStreamStringAdapter os(text); m->generate(os); os.flush(); }); bool hit = g_fs_faults; heal(); if (!o.ok) CHECK(hit, "file.attachment", "a message with a file attachment cannot be generated: %s %s", o.type.c_str(), o.what.c_str()); else { CHECK(!hit, "file.attachment.swallowed", "an error reading the attached file was ignored"); gen_ok = true; if (rep) { std::string t2; o = call("generate again", [&] { vu::outputStreamStringAdapter os(t2); m->generate(os); os.flush(); }); CHECK(o.ok && t2.size() == text.size(), "file.attachment.again", "generating the message again gives %zu bytes instead of %zu", t2.size(), text.size()); } } }
	if (!gen_ok) { g_fs = FsCfg(); text.clear(); auto m = att(); vu::outputStreamStringAdapter os(text); m->generate(os); }
	CHECK(vfd_open_count() == 0, "file.fdleak", "descriptors left open: %s", vfd_list().c_str());
	{ shared_ptr<vmime::message> m = make_shared<vmime::message>(); m->parse(text); Sink s; extract(m, s); CHECK(s.d == data, "file.attachment.data", "the attachment holds something else than the file: %s", diff_at(s.d, data).c_str()); nontrivial(); }
	fs_put("/data/msg.eml", text); arm(400, {FC_READ, FC_OPEN, FC_SEEK, FC_ALL}, 60);
	{ shared_ptr<vmime::message> m = make_shared<vmime::message>(); Sink s; Out o = call("parse and extract", [&] { auto is = vmime::dynamicCast<vu::seekableInputStream>(file("/data/msg.eml")->getFileReader()->getInputStream()); m->parse(is, text.size()); extract(m, s); }); bool hit = g_fs_faults; heal(); if (!o.ok) CHECK(hit, "file.parse", "a message in a file cannot be parsed: %s %s", o.type.c_str(), o.what.c_str()); else { CHECK(!hit, "file.parse.swallowed", "an error reading a message was ignored"); CHECK(s.d == data, "file.parse.data", "the attachment extracted from a message in a file is wrong: %s", diff_at(s.d, data).c_str()); } }
	CHECK(vfd_open_count() == 0, "file.fdleak", "descriptors left open: %s", vfd_list().c_str()); finish_checks();
}

// M04: several folder objects, held message objects and listeners against the directory they show.
#include "maildir.hpp"
using namespace sim;
namespace {
using vn::message;
const int FL[] = {message::FLAG_SEEN, message::FLAG_REPLIED, message::FLAG_MARKED, message::FLAG_PASSED, message::FLAG_DRAFT, message::FLAG_DELETED};
int flags_draw(bool del) { int f = 0; for (int x : FL) if ((x != message::FLAG_DELETED || del) && chance(300, "flag")) f |= x; return f; }
std::string base_of(const std::string& f) { size_t p = f.rfind(":2,"); return p == std::string::npos ? f : f.substr(0, p); }
struct Entry { std::string uid; bool known = false; };
struct Held { shared_ptr<message> m; std::string uid; std::set<int> flags; bool detached = false; };
struct FO : vn::events::messageCountListener, vn::events::messageChangedListener {
	shared_ptr<vn::folder> f; std::string path, name; bool open = false, ro = false; std::vector<Entry> v; std::vector<Held> held; std::vector<std::string> changed; u32 ev_added = 0, ev_removed = 0, ev_changed = 0;
	std::set<std::string> touched, tomb;             // touched: changed by other programs since this object last looked
	~FO() { if (f) { f->removeMessageCountListener(this); f->removeMessageChangedListener(this); } }
	int at(const std::string& u) const { for (size_t i = 0; i < v.size(); ++i) if (v[i].known && v[i].uid == u) return int(i); return -1; }
	void messagesAdded(const shared_ptr<vn::events::messageCountEvent>& e) override {
		++ev_added; CHECK(open, "md.event.closed", "%s: an event arrived while the folder is closed", name.c_str()); CHECK(e->getFolder().get() == f.get(), "md.event.folder", "%s: the event names another folder object", name.c_str());
		for (size_t k : e->getNumbers()) { CHECK(k == v.size() + 1, "md.event.added", "%s: message %zu announced as new, the folder object has %zu messages", name.c_str(), k, v.size()); v.push_back(Entry()); }
		tr("%s: +%zu", name.c_str(), e->getNumbers().size());
	}
	void messagesRemoved(const shared_ptr<vn::events::messageCountEvent>& e) override {
		++ev_removed; CHECK(e->getFolder().get() == f.get(), "md.event.folder", "%s: the event names another folder object", name.c_str()); std::set<size_t> s(e->getNumbers().begin(), e->getNumbers().end()); CHECK(s.size() == e->getNumbers().size(), "md.event.removed", "%s: a message is announced as removed twice", name.c_str());
		for (auto i = s.rbegin(); i != s.rend(); ++i) { CHECK(*i >= 1 && *i <= v.size(), "md.event.removed", "%s: message %zu of %zu announced as removed", name.c_str(), *i, v.size()); tomb.erase(v[*i - 1].uid); v.erase(v.begin() + long(*i - 1)); }
		tr("%s: -%zu", name.c_str(), s.size());
	}
	void messageChanged(const shared_ptr<vn::events::messageChangedEvent>& e) override {
		++ev_changed; CHECK(e->getFolder().get() == f.get(), "md.event.folder", "%s: the event names another folder object", name.c_str()); CHECK(e->getType() == vn::events::messageChangedEvent::TYPE_FLAGS, "md.event.type", "wrong event type");
		for (size_t k : e->getNumbers()) { CHECK(k >= 1 && k <= v.size(), "md.event.changed", "%s: message %zu of %zu announced as changed", name.c_str(), k, v.size()); changed.push_back(v[k - 1].uid); }
	}
};
typedef std::map<std::string, DM> Snap;              // unique part of the file name -> file
struct W4 {
	MdCl c; std::vector<std::unique_ptr<FO>> fo; std::map<std::string, Snap> last; u64 ops = 0;
	Snap snap(const std::string& p) { Snap s; for (auto& d : g_md->disk(p)) { std::string u = base_of(d.file); CHECK(!s.count(u), "md.dup", "two files for message %s in %s", u.c_str(), p.c_str()); CHECK(!g_md->tok_of(d.data).empty(), "md.partial", "%s/%s/%s holds %s", p.c_str(), d.where.c_str(), d.file.c_str(), g_md->what_is(d.data).c_str()); s[u] = d; } return s; }
	struct Delta { std::vector<std::string> added, removed, changed; };
	Delta delta(const std::string& p) { Snap n = snap(p), &o = last[p]; Delta d; for (auto& x : n) { auto i = o.find(x.first); if (i == o.end()) d.added.push_back(x.first); else { CHECK(i->second.data == x.second.data, "md.overwritten", "message %s in %s has changed its content", x.first.c_str(), p.c_str()); if (i->second.flags != x.second.flags) d.changed.push_back(x.first); } } for (auto& x : o) if (!n.count(x.first)) d.removed.push_back(x.first); last[p] = n; return d; }
	void none(const std::string& p, const char* what) { Delta d = delta(p); CHECK(d.removed.empty(), "md.lost", "%s removed %zu messages from %s (%s)", what, d.removed.size(), p.c_str(), d.removed[0].c_str()); CHECK(d.added.empty(), "md.dup", "%s added %zu messages to %s", what, d.added.size(), p.c_str()); CHECK(d.changed.empty(), "md.flags.other", "%s changed the flags of %zu messages of %s (%s)", what, d.changed.size(), p.c_str(), d.changed[0].c_str()); }
	std::string other(const std::string& p) { return p == "inbox" ? "other" : "inbox"; }
	// what a held message object must show
	void audit_held(FO& o, Held& h) {
		if (h.detached) { Sink s; Out r = call("extract (closed)", [&] { h.m->extract(s); }); CHECK(!r.ok, "md.closed_extract", "extract() on a message of a closed folder returned normally"); return; }
		int i = o.at(h.uid);
		if (i < 0) {
			CHECK(h.m->isExpunged(), "md.held.expunged", "%s: the message object of %s, which has been expunged, does not say so", o.name.c_str(), h.uid.c_str());
			Sink s; Out r = call("extract (expunged)", [&] { h.m->extract(s); }); CHECK(!r.ok, "md.held.other", "%s: an expunged message object still delivers %s", o.name.c_str(), g_md->tok_of(s.d).c_str());
			r = call("setFlags (expunged)", [&] { h.m->setFlags(message::FLAG_MARKED, message::FLAG_MODE_ADD); }); CHECK(!r.ok || o.ro, "md.held.setflags", "%s: setFlags() on an expunged message object returned normally", o.name.c_str());
			return;
		}
		CHECK(!h.m->isExpunged(), "md.held.notexpunged", "%s: message object of %s says it is expunged", o.name.c_str(), h.uid.c_str());
		CHECK(h.m->getNumber() == size_t(i + 1), "md.held.number", "%s: message object of %s has number %zu, its message is number %d", o.name.c_str(), h.uid.c_str(), h.m->getNumber(), i + 1);
		CHECK(h.flags.count(h.m->getFlags()), "md.held.flags", "%s: message object of %s shows flags \"%s\"", o.name.c_str(), h.uid.c_str(), MdWorld::flagstr(h.m->getFlags()).c_str());
	}
	void audit(FO& o) {
		if (!o.open) { for (auto& h : o.held) audit_held(o, h); return; }
		Snap& d = last[o.path]; size_t n = o.f->getMessageCount(); CHECK(n == o.v.size(), "md.count", "%s: getMessageCount() is %zu, the events so far make it %zu", o.name.c_str(), n, o.v.size());
		std::set<std::string> seen; std::vector<shared_ptr<message>> ms; if (n) { Out r = call("getMessages", [&] { ms = o.f->getMessages(vn::messageSet::byNumber(1, size_t(-1))); }); CHECK(r.ok && ms.size() == n, "md.getmessages", "%s: getMessages(1:*) gives %zu of %zu messages", o.name.c_str(), ms.size(), n); }
		for (size_t i = 0; i < n; ++i) {
			auto& m = ms[i]; CHECK(m->getNumber() == i + 1, "md.number", "%s: message %zu has number %zu", o.name.c_str(), i + 1, m->getNumber()); Sink s; std::string uid; int fl = 0; size_t size = 0;
			Out r = call("fetch", [&] { o.f->fetchMessage(m, vn::fetchAttributes(vn::fetchAttributes::UID | vn::fetchAttributes::FLAGS)); uid = std::string(m->getUID()); fl = m->getFlags(); });
			CHECK(r.ok, "md.fetch", "%s: the flags and the uid of message %zu cannot be fetched: %s %s", o.name.c_str(), i + 1, r.type.c_str(), r.what.c_str());
			if (!o.v[i].known) { o.v[i].uid = uid; o.v[i].known = true; } CHECK(o.v[i].uid == uid, "md.renumbered", "%s: message %zu was %s and is now %s without any event", o.name.c_str(), i + 1, o.v[i].uid.c_str(), uid.c_str()); CHECK(seen.insert(uid).second, "md.twice", "%s shows %s twice", o.name.c_str(), uid.c_str());
			r = call("size, extract", [&] { o.f->fetchMessage(m, vn::fetchAttributes(vn::fetchAttributes::SIZE)); size = m->getSize(); m->extract(s); });
			auto x = d.find(uid); bool touched = o.touched.count(uid) != 0;
			if (x == d.end()) { CHECK(o.tomb.count(uid) || touched, "md.ghost", "%s: message %zu (%s) does not exist", o.name.c_str(), i + 1, uid.c_str()); CHECK(!r.ok, "md.ghost_read", "%s: message %zu, which another program removed, still delivers something", o.name.c_str(), i + 1); continue; }
			if (touched) { if (r.ok) CHECK(s.d == x->second.data, "md.content", "%s: message %zu (%s): %s", o.name.c_str(), i + 1, uid.c_str(), diff_at(s.d, x->second.data).c_str()); continue; }
			CHECK(r.ok, "md.read", "%s: message %zu cannot be read: %s %s", o.name.c_str(), i + 1, r.type.c_str(), r.what.c_str()); CHECK(s.d == x->second.data, "md.content", "%s: message %zu (%s): %s", o.name.c_str(), i + 1, uid.c_str(), diff_at(s.d, x->second.data).c_str()); CHECK(size == x->second.data.size(), "md.size", "%s: message %zu has size %zu instead of %zu", o.name.c_str(), i + 1, size, x->second.data.size());
			CHECK(fl == x->second.flags, "md.flags", "%s: message %zu has flags \"%s\", its file \"%s\"", o.name.c_str(), i + 1, MdWorld::flagstr(fl).c_str(), x->second.file.c_str());
		}
		for (auto& x : d) if (!seen.count(x.first)) CHECK(o.touched.count(x.first), "md.hidden", "%s does not show message %s", o.name.c_str(), x.first.c_str());
		for (auto& h : o.held) audit_held(o, h);
	}
	void audit_all() { for (auto& o : fo) audit(*o); { u64 h = 1469598103934665603ull; for (auto& o : fo) { h = (h ^ o->v.size() ^ (o->open ? 64u : 0u) ^ (u64(o->touched.size()) << 8) ^ (u64(o->held.size()) << 16)) * 1099511628211ull; } state(h ^ last["inbox"].size() * 131 ^ last["other"].size() * 977); } }
	void touch(const std::string& p, const std::string& u, int newflags = -1) { for (auto& o : fo) if (o->path == p) { o->touched.insert(u); if (newflags >= 0) for (auto& h : o->held) if (h.uid == u) h.flags.insert(newflags); } }
	void unsee(const std::string& p, const std::string& u) { for (auto& o : fo) if (o->path == p && o->at(u) < 0) o->touched.erase(u); }
	void hold(FO& o, size_t k) { if (o.held.size() >= 6) o.held.erase(o.held.begin() + choose(6, "held.drop")); Held h; Out r = call("hold", [&] { h.m = o.f->getMessage(k); o.f->fetchMessage(h.m, vn::fetchAttributes(vn::fetchAttributes::FLAGS | vn::fetchAttributes::UID)); h.uid = std::string(h.m->getUID()); h.flags = {h.m->getFlags()}; }); if (r.ok) o.held.push_back(h); }
	vn::messageSet set(size_t n, std::vector<size_t>& nums) {
		nums.clear();
		switch (choose(4, "set")) {
			case 0: { size_t k = 1 + choose(u32(n), "set.one"); nums = {k}; return vn::messageSet::byNumber(k); }
			case 1: { size_t a = 1 + choose(u32(n), "set.a"), b = a + choose(u32(n - a + 1), "set.b"); for (size_t i = a; i <= b; ++i) nums.push_back(i); return vn::messageSet::byNumber(a, b); }
			case 2: { size_t a = 1 + choose(u32(n), "set.a"); for (size_t i = a; i <= n; ++i) nums.push_back(i); return vn::messageSet::byNumber(a, size_t(-1)); }
			default: { std::set<size_t> s; u32 k = 1 + choose(4, "set.k"); for (u32 i = 0; i < k; ++i) s.insert(1 + choose(u32(n), "set.x")); nums.assign(s.begin(), s.end()); return vn::messageSet::byNumber(nums); }
		}
	}
	void do_open(FO& o) {
		o.ro = chance(150, "readonly"); Out r = call("open " + o.name, [&] { o.f->open(o.ro ? vn::folder::MODE_READ_ONLY : vn::folder::MODE_READ_WRITE); }); CHECK(r.ok, "md.open", "open() failed: %s %s", r.type.c_str(), r.what.c_str());
		o.open = true; o.v.assign(o.f->getMessageCount(), Entry()); o.touched.clear(); o.tomb.clear(); none(o.path, "open()"); none(other(o.path), "open()"); CHECK(o.v.size() == last[o.path].size(), "md.hidden", "%s shows %zu of %zu messages after open()", o.name.c_str(), o.v.size(), last[o.path].size());
	}
	void op() {
		++ops; for (auto& o : fo) { o->changed.clear(); o->ev_added = o->ev_removed = o->ev_changed = 0; }
		FO& o = *fo[choose(u32(fo.size()), "fo")]; if (!o.open) { do_open(o); audit_all(); return; }
		size_t n = o.v.size(); std::vector<size_t> nums; Out r;
		switch (weighted({5, 5, 4, 3, 3, 3, 5, 2, 2, 1, 1}, "op")) {
			case 0: {
				MMsg m = g_md->gen(g_md->maxlen); int fl = chance(300, "recent") ? int(message::FLAG_RECENT) : chance(200, "none") ? -1 : flags_draw(true); int want = fl == -1 || fl == message::FLAG_RECENT ? 0 : fl; SrcCfg sc = draw_src(false, m.data.size()); bool asmsg = false;
				r = call(fmt("%s: add %s flags %d", o.name.c_str(), m.tok.c_str(), fl), [&] { Source s(m.data, sc); o.f->addMessage(s, m.data.size(), fl); }); (void) asmsg;
				if (o.ro) { CHECK(!r.ok, "md.readonly", "addMessage() on a read-only folder returned normally"); none("inbox", "a refused add"); none("other", "a refused add"); break; }
				CHECK(r.ok, "md.add", "addMessage() failed: %s %s", r.type.c_str(), r.what.c_str()); Delta d = delta(o.path); none(other(o.path), "addMessage()"); CHECK(d.removed.empty() && d.changed.empty(), "md.lost", "addMessage() changed other messages"); CHECK(d.added.size() == 1, "md.add.count", "addMessage() added %zu files", d.added.size()); DM& x = last[o.path][d.added[0]]; CHECK(g_md->tok_of(x.data) == m.tok, "md.add.content", "addMessage() stored %s", g_md->what_is(x.data).c_str()); CHECK(x.flags == want, "md.add.flags", "message added with flags \"%s\" is stored with \"%s\"", MdWorld::flagstr(want).c_str(), MdWorld::flagstr(x.flags).c_str()); CHECK(o.ev_added >= 1, "md.event.missing", "%s: no event for the message added", o.name.c_str());
				break;
			}
			case 1: {
				if (!n) break; auto s = set(n, nums); int fg = flags_draw(true), mode = int(oneof<int>({message::FLAG_MODE_SET, message::FLAG_MODE_ADD, message::FLAG_MODE_REMOVE}, "mode")); bool viadel = chance(150, "delete"), viamsg = !viadel && nums.size() == 1 && chance(300, "via message"); if (viadel) { fg = message::FLAG_DELETED; mode = message::FLAG_MODE_ADD; }
				Snap before = last[o.path]; std::set<std::string> req; for (auto k : nums) req.insert(o.v[k - 1].uid);
				r = call(fmt("%s: flags %d mode %d of %zu messages", o.name.c_str(), fg, mode, nums.size()), [&] { if (viadel) o.f->deleteMessages(s); else if (viamsg) o.f->getMessage(nums[0])->setFlags(fg, mode); else o.f->setMessageFlags(s, fg, mode); });
				if (o.ro) { CHECK(!r.ok, "md.readonly", "changing flags in a read-only folder returned normally"); none("inbox", "a refused change of flags"); none("other", "a refused change of flags"); break; }
				CHECK(r.ok, "md.flags.fail", "setMessageFlags() failed: %s %s", r.type.c_str(), r.what.c_str()); Delta d = delta(o.path); none(other(o.path), "setMessageFlags()"); CHECK(d.added.empty() && d.removed.empty(), "md.lost", "setMessageFlags() added %zu and removed %zu messages", d.added.size(), d.removed.size());
				for (auto& u : d.changed) CHECK(req.count(u), "md.flags.other", "setMessageFlags() changed the flags of %s, which was not asked for", u.c_str());
				std::set<std::string> here; for (auto& u : req) { auto i = before.find(u); if (i == before.end()) continue; here.insert(u); int w = mode == message::FLAG_MODE_SET ? fg : mode == message::FLAG_MODE_ADD ? i->second.flags | fg : i->second.flags & ~fg, g = last[o.path][u].flags; CHECK(g == w, "md.flags.wrong", "flags of %s are \"%s\" instead of \"%s\" (they were \"%s\")", u.c_str(), MdWorld::flagstr(g).c_str(), MdWorld::flagstr(w).c_str(), MdWorld::flagstr(i->second.flags).c_str()); }
				for (auto& p : fo) { if (!p->open || p->path != o.path) continue; std::set<std::string> want, got(p->changed.begin(), p->changed.end()); for (auto& u : here) if (p->at(u) >= 0) want.insert(u); CHECK(got == want, "md.event.changed", "%s: the event names %zu messages as changed instead of %zu", p->name.c_str(), got.size(), want.size()); for (auto& h : p->held) if (here.count(h.uid)) h.flags = {last[o.path][h.uid].flags}; }
				break;
			}
			case 2: {
				bool byclose = chance(200, "by close"); Snap before = last[o.path]; std::set<std::string> known; for (auto& e : o.v) if (!o.touched.count(e.uid) && (before.count(e.uid) ? (before[e.uid].flags & message::FLAG_DELETED) != 0 : true)) known.insert(e.uid); std::vector<Entry> v0 = o.v;
				r = call(o.name + (byclose ? ": close(true)" : ": expunge"), [&] { if (byclose) o.f->close(true); else o.f->expunge(); });
				if (o.ro) { CHECK(!r.ok, "md.readonly", "expunge() in a read-only folder returned normally"); none("inbox", "a refused expunge"); none("other", "a refused expunge"); break; }
				CHECK(r.ok, "md.expunge", "expunge() failed: %s %s", r.type.c_str(), r.what.c_str()); Delta d = delta(o.path); none(other(o.path), "expunge()"); CHECK(d.added.empty() && d.changed.empty(), "md.dup", "expunge() added or changed messages"); std::set<std::string> gone(d.removed.begin(), d.removed.end());
				for (auto& u : gone) CHECK(before[u].flags & message::FLAG_DELETED, "md.expunge.other", "expunge() removed %s, which is not marked as deleted (%s)", u.c_str(), before[u].file.c_str());
				for (auto& u : known) CHECK(!last[o.path].count(u), "md.expunge.left", "expunge() left %s, which is marked as deleted", u.c_str());
				for (auto& e : o.v) if (known.count(e.uid)) violate("md.expunge.event", "%s: no event says that %s is gone", o.name.c_str(), e.uid.c_str());
				std::set<std::string> left; for (auto& e : o.v) left.insert(e.uid); for (auto& e : v0) if (!left.count(e.uid)) CHECK(!last[o.path].count(e.uid), "md.event.removed", "%s: %s is announced as removed, but it exists", o.name.c_str(), e.uid.c_str());
				for (auto& u : gone) { for (auto& p : fo) if (p->open && p->path == o.path && p.get() != &o) CHECK(p->at(u) < 0, "md.event.peer", "%s: no event says that %s is gone", p->name.c_str(), u.c_str()); unsee(o.path, u); }
				if (byclose) { o.open = false; o.v.clear(); for (auto& h : o.held) h.detached = true; }
				break;
			}
			case 3: {
				if (!n) break; auto s = set(n, nums); std::string to = chance(700, "copy.to") ? other(o.path) : o.path; Snap src = last[o.path]; bool gone = false; std::multiset<std::pair<std::string, int>> want, got; for (auto k : nums) { auto i = src.find(o.v[k - 1].uid); if (i == src.end()) gone = true; else want.insert({g_md->tok_of(i->second.data), i->second.flags}); }
				r = call(fmt("%s: copy %zu messages to %s", o.name.c_str(), nums.size(), to.c_str()), [&] { o.f->copyMessages(md_path(to), s); });
				Delta d = delta(to); CHECK(d.removed.empty() && d.changed.empty(), "md.lost", "copyMessages() changed other messages of the destination"); if (to != o.path) none(o.path, "copyMessages()"); else none(other(to), "copyMessages()");
				for (auto& u : d.added) got.insert({g_md->tok_of(last[to][u].data), last[to][u].flags});
				if (r.ok) { CHECK(!gone, "md.copy.ghost", "copyMessages() returned normally although one of the messages does not exist any more"); CHECK(got == want, "md.copy.wrong", "copyMessages() of %zu messages left %zu in %s, or others", want.size(), got.size(), to.c_str()); } else { CHECK(gone, "md.copy.fail", "copyMessages() failed: %s %s", r.type.c_str(), r.what.c_str()); for (auto& g : got) CHECK(want.count(g), "md.copy.wrong", "copyMessages() stored %s, which was not asked for", g.first.c_str()); }
				break;
			}
			case 4: {
				size_t a = 0, b = 0; r = call(o.name + ": status", [&] { o.f->status(a, b); }); CHECK(r.ok, "md.status", "status() failed: %s %s", r.type.c_str(), r.what.c_str()); none("inbox", "status()"); none("other", "status()");
				o.touched.clear(); for (auto& e : o.v) if (e.known && !last[o.path].count(e.uid)) o.tomb.insert(e.uid); CHECK(a == o.v.size(), "md.count", "%s: status() counts %zu messages, the events so far make it %zu", o.name.c_str(), a, o.v.size());
				if (o.tomb.empty()) { size_t un = 0; for (auto& x : last[o.path]) if (!(x.second.flags & message::FLAG_SEEN)) ++un; CHECK(b == un, "md.unseen", "%s: status() counts %zu unseen messages instead of %zu", o.name.c_str(), b, un); }
				break;
			}
			case 5: {                                                              // another program
				std::string p = chance(700, "ext.here") ? o.path : other(o.path); Snap& d = last[p]; std::vector<std::string> us; for (auto& x : d) us.push_back(x.first);
				switch (us.empty() ? 0 : choose(5, "ext")) {
					case 0: case 1: { MMsg m = g_md->gen(g_md->maxlen); bool cur = chance(300, "ext.cur"); std::string f = g_md->deliver(p, m, cur, cur ? flags_draw(true) : 0); touch(p, base_of(f.substr(f.rfind('/') + 1))); tr("ext: deliver %s to %s", m.tok.c_str(), p.c_str()); break; }
					case 2: { std::string u = us[choose(u32(us.size()), "ext.which")]; fs_remove(g_md->dir(p) + "/" + d[u].where + "/" + d[u].file); touch(p, u); unsee(p, u); tr("ext: remove %s from %s", u.c_str(), p.c_str()); break; }
					default: { std::string u = us[choose(u32(us.size()), "ext.which")]; int f = flags_draw(true); std::string nf = u + ":2," + MdWorld::flagstr(f); fs_rename(g_md->dir(p) + "/" + d[u].where + "/" + d[u].file, g_md->dir(p) + "/cur/" + nf); touch(p, u, f); tr("ext: flags of %s in %s are \"%s\"", u.c_str(), p.c_str(), MdWorld::flagstr(f).c_str()); }
				}
				last[p] = snap(p); nontrivial(); break;
			}
			case 6: {                                                              // reading
				if (!n) break; size_t k = 1 + choose(u32(n), "read"); std::string u = o.v[k - 1].uid; if (o.touched.count(u) || !last[o.path].count(u)) break; const std::string data = last[o.path][u].data; const MMsg& mm = g_md->all[g_md->tok_of(data)]; shared_ptr<message> m; hold(o, k);
				r = call("fetch structure", [&] { m = o.f->getMessage(k); o.f->fetchMessage(m, vn::fetchAttributes(vn::fetchAttributes::STRUCTURE | vn::fetchAttributes::FULL_HEADER | vn::fetchAttributes::ENVELOPE)); }); CHECK(r.ok, "md.fetch", "fetching the structure failed: %s %s", r.type.c_str(), r.what.c_str());
				CHECK(m->getHeader()->Subject()->getValue<vmime::text>()->getWholeBuffer() == mm.tok, "md.header", "the header fetched is that of another message");
				auto range = [&](size_t len, size_t& st, size_t& ln) { st = chance(500, "range") ? 0 : choose(u32(len + 20), "range.start"); ln = chance(400, "range.all") ? size_t(-1) : choose(u32(len + 20), "range.len"); };
				size_t st, ln; range(data.size(), st, ln); { Sink s; Progress pr; r = call(fmt("extract [%zu,%zu]", st, ln), [&] { m->extract(s, &pr, st, ln, chance(500, "peek")); }); CHECK(r.ok, "md.extract", "extract() failed: %s %s", r.type.c_str(), r.what.c_str()); std::string want = st < data.size() ? data.substr(st, ln) : ""; CHECK(s.d == want, "md.extract.range", "extract(start %zu, length %zu) of %zu bytes: %s", st, ln, data.size(), diff_at(s.d, want).c_str()); CHECK(pr.bad.empty() && pr.st == 2, "md.progress", "progress listener: %s", pr.bad.c_str()); }
				{ vmime::shared_ptr<vmime::message> pm; r = call("getParsedMessage", [&] { pm = m->getParsedMessage(); }); CHECK(r.ok, "md.parsed", "getParsedMessage() failed: %s %s", r.type.c_str(), r.what.c_str()); CHECK(pm->getHeader()->Subject()->getValue<vmime::text>()->getWholeBuffer() == mm.tok, "md.header", "getParsedMessage() gives another message"); }
				auto top = m->getStructure(); CHECK(top->getPartCount() == 1, "md.structure", "%zu top-level parts", top->getPartCount()); auto p0 = top->getPartAt(0); auto sub = p0->getStructure(); CHECK(sub->getPartCount() == mm.parts.size(), "md.structure", "%zu parts instead of %zu", sub->getPartCount(), mm.parts.size());
				for (size_t i = 0; i < mm.parts.size(); ++i) {
					auto q = sub->getPartAt(i); range(mm.parts[i].size(), st, ln); Sink s; r = call("extractPart", [&] { m->extractPart(q, s, nullptr, st, ln, true); }); CHECK(r.ok, "md.extractpart", "extractPart() failed: %s %s", r.type.c_str(), r.what.c_str()); std::string want = st < mm.parts[i].size() ? mm.parts[i].substr(st, ln) : ""; CHECK(s.d == want, "md.extractpart.data", "extractPart(part %zu, start %zu, length %zu) of %zu bytes: %s", i, st, ln, mm.parts[i].size(), diff_at(s.d, want).c_str());
					r = call("fetchPartHeader", [&] { m->fetchPartHeader(q); }); CHECK(r.ok, "md.partheader", "fetchPartHeader() failed: %s %s", r.type.c_str(), r.what.c_str()); CHECK(q->getHeader()->hasField("X-Part") && q->getHeader()->findField("X-Part")->generate().find(fmt("%zu", i)) != std::string::npos, "md.partheader.data", "fetchPartHeader(part %zu) gives another header", i);
				}
				break;
			}
			case 7: {                                                              // numbers that do not exist
				size_t k = n + 1 + choose(3, "beyond"); if (chance(200, "zero")) k = 0; int w = int(choose(5, "bad.op")); if (k == 0 && w != 0) k = n + 1; r = call(fmt("%s: operation %d on message %zu of %zu", o.name.c_str(), w, k, n), [&] { if (w == 0) o.f->getMessage(k); else if (w == 1) o.f->getMessages(vn::messageSet::byNumber(k)); else if (w == 2) o.f->setMessageFlags(vn::messageSet::byNumber(n && chance(500, "mixed") ? n : k, k), message::FLAG_DELETED, message::FLAG_MODE_ADD); else if (w == 3) o.f->copyMessages(md_path(other(o.path)), vn::messageSet::byNumber(k)); else o.f->deleteMessages(vn::messageSet::byNumber(k)); });
				CHECK(!r.ok, "md.badnumber", "operation %d on message %zu of %zu returned normally", w, k, n); none("inbox", "a refused operation"); none("other", "a refused operation"); break;
			}
			case 8: {
				r = call(o.name + ": close", [&] { o.f->close(false); }); CHECK(r.ok, "md.close", "close() failed: %s %s", r.type.c_str(), r.what.c_str()); none("inbox", "close()"); none("other", "close()"); o.open = false; o.v.clear(); for (auto& h : o.held) h.detached = true; CHECK(!o.f->isOpen(), "md.isopen", "isOpen() after close()");
				r = call("status while closed", [&] { o.f->getMessage(1); }); CHECK(!r.ok, "md.closed", "getMessage() on a closed folder returned normally"); break;
			}
			case 9: if (fo.size() < 4) { add_fo(); } break;
			default: if (fo.size() > 1) { for (size_t i = 0; i < fo.size(); ++i) if (fo[i].get() == &o) { bool keep = chance(500, "keep messages"); std::vector<Held> hs = o.held; fo.erase(fo.begin() + long(i)); if (keep) for (auto& h : hs) { Sink s; Out q = call("extract (orphan)", [&] { h.m->extract(s); }); CHECK(!q.ok, "md.closed_extract", "extract() on a message of a destroyed folder returned normally"); } break; } }
		}
		audit_all();
	}
	void add_fo() { std::unique_ptr<FO> o(new FO); o->path = chance(750, "fo.path") ? "inbox" : "other"; o->name = fmt("%s#%llu", o->path.c_str(), (unsigned long long) ops); o->f = c.folder(o->path); o->f->addMessageCountListener(o.get()); o->f->addMessageChangedListener(o.get()); fo.push_back(std::move(o)); }
};
}
SCENARIO(M04, objects, 10) {
	g_md = new MdWorld; g_md->courier = chance(500, "layout"); fs_mkdirs(g_md->root); g_md->mkfolder("inbox"); g_md->mkfolder("other"); g_md->maxlen = oneof<size_t>({200, 3000, 20000}, "maxlen"); set_hostname(oneof<std::string>({"localhost", "my-host.example", "mail-fst"}, "hostname")); g_fs.shuffle_dirs = chance(500, "fs.shuffle"); app_init(); if (chance(200, "partial")) { g_fs.shortrd = g_fs.shortwr = 200; }
	for (auto nm : {"inbox", "other"}) { u32 n = sized(8, "pre.n"); for (u32 i = 0; i < n; ++i) { MMsg m = g_md->gen(g_md->maxlen); bool cur = chance(500, "pre.cur"); g_md->deliver(nm, m, cur, cur ? chance(100, "noinfo") ? -1 : flags_draw(true) : 0); } }
	{
		W4 w; w.c.make(); Out r = w.c.connect(); CHECK(r.ok, "md.connect", "connect() failed: %s", r.what.c_str()); w.last["inbox"] = w.snap("inbox"); w.last["other"] = w.snap("other"); u32 k = 1 + choose(3, "fos"); for (u32 i = 0; i < k; ++i) w.add_fo();
		u32 n = 3 + sized(30, "ops"); for (u32 i = 0; i < n; ++i) w.op();
		for (auto& o : w.fo) o->held.clear();
		if (chance(500, "disconnect")) call("disconnect", [&] { w.c.st->disconnect(); });
		w.fo.clear();
		for (auto nm : {"inbox", "other"}) { MdCl d; d.make(); d.connect(); auto g = d.folder(nm); r = call("open at the end", [&] { g->open(vn::folder::MODE_READ_WRITE); }); CHECK(r.ok, "md.open", "open() failed: %s %s", r.type.c_str(), r.what.c_str()); std::vector<MView> v; r = read_all(g, v); CHECK(r.ok, "md.read", "reading failed: %s", r.what.c_str()); CHECK(v.size() == w.last[nm].size(), "md.hidden", "%s: a fresh store shows %zu of %zu messages", nm, v.size(), w.last[nm].size()); for (auto& e : v) { auto i = w.last[nm].find(e.uid); CHECK(e.ok && i != w.last[nm].end() && i->second.data == e.data && i->second.flags == e.flags, "md.reopen", "%s: a fresh store shows message %s differently", nm, e.uid.c_str()); } }
	}
	nontrivial(); finish_checks();
}

// L01: services, folders, messages and what they hand out, closed, disconnected and destroyed in any order.
#include "drv.hpp"
#include "smtp.hpp"
#include "pop3.hpp"
#include "imap.hpp"
#include "maildir.hpp"
#include "vmime/net/tls/TLSSecuredConnectionInfos.hpp"
using namespace sim;
namespace {
typedef std::string S;
typedef vn::fetchAttributes FA; typedef vn::message NM; typedef vn::messageSet MS;
struct Lis;
struct Slot { shared_ptr<vn::session> sess; shared_ptr<vn::store> st; bool conn = false, hurt = false; int epoch = 0; };   // conn: connect() succeeded and no disconnect() since; hurt: a fault may have struck this connection
struct Fol { shared_ptr<vn::folder> f; int slot = 0, epoch = 0, open = 0; S name; };                                     // open: number of the opening, 0 closed
struct Msg { shared_ptr<vn::message> m; std::weak_ptr<vn::folder> f; Fol* fol = nullptr; int open = 0; };
struct Str { shared_ptr<vn::messageStructure> s; shared_ptr<vn::messagePart> p; };
struct Par { shared_ptr<vmime::message> m; std::map<const void*, S> seen; };
struct Zoo {
	S proto; std::unique_ptr<Drv> d; std::vector<Slot> slots; std::vector<std::unique_ptr<Fol>> fols; std::vector<Msg> msgs; std::vector<Str> strs; std::vector<Par> pars; std::vector<std::unique_ptr<Lis>> lis;
	std::vector<shared_ptr<vn::folder>> extra; std::function<void()> act; int depth = 0;   // what listeners do, and folders only they hold
	int opens = 0, clean_ends = 0, ends = 0; bool faults = false; bool net() const { return proto != "maildir"; }
	~Zoo() { clear(); }
	void clear();
};
struct Lis : vn::events::messageCountListener, vn::events::messageChangedListener, vn::events::folderListener {
	std::weak_ptr<vn::folder> f; bool on = false, once = false; u32 calls = 0; Zoo* z = nullptr;
	void hit(const char* what) { ++calls; CHECK(on, "life.listener", "a listener that had been removed heard of %s", what); if (once) off(); if (z && z->act && z->depth < 2 && chance(500, "act")) { ++z->depth; z->act(); --z->depth; } }
	void off() { on = false; if (auto x = f.lock()) { x->removeMessageCountListener(this); x->removeMessageChangedListener(this); x->removeFolderListener(this); } count("life.listener_left_inside"); }
	void messagesAdded(const shared_ptr<vn::events::messageCountEvent>&) override { hit("added messages"); }
	void messagesRemoved(const shared_ptr<vn::events::messageCountEvent>&) override { hit("removed messages"); }
	void messageChanged(const shared_ptr<vn::events::messageChangedEvent>&) override { hit("changed messages"); }
	void folderCreated(const shared_ptr<vn::events::folderEvent>&) override { hit("a created folder"); }
	void folderRenamed(const shared_ptr<vn::events::folderEvent>&) override { hit("a renamed folder"); }
	void folderDeleted(const shared_ptr<vn::events::folderEvent>&) override { hit("a deleted folder"); }
};
void Zoo::clear() { act = nullptr; extra.clear(); msgs.clear(); strs.clear(); pars.clear(); fols.clear(); slots.clear(); lis.clear(); d = nullptr; }
static Fol* pick1(std::vector<std::unique_ptr<Fol>>& v) { return v.empty() ? nullptr : v[choose(u32(v.size()), "fol")].get(); }
template <class T> T* pick(std::vector<T>& v, const char* n) { return v.empty() ? nullptr : &v[choose(u32(v.size()), n)]; }
struct World {
	Zoo z; bool exact = false;
	Slot& slot(int i) { return z.slots[size_t(i)]; }
	// what must be refused
	bool dead(const Fol& f) { return !slot(f.slot).conn || !slot(f.slot).st; }
	bool usable(const Fol& f) { return !dead(f) && f.epoch == slot(f.slot).epoch && !slot(f.slot).hurt; }
	bool mdead(const Msg& m) { return m.f.expired() || !m.fol || m.fol->open != m.open || dead(*m.fol); }
	void refused(const Out& o, bool must, const char* what, const char* why) { CHECK(!(o.ok && must), "life.zombie", "%s succeeded on %s", what, why); if (must) count("life.refused"); }
	void need(const Out& o, const char* what) { if (exact) CHECK(o.ok, "life.broken", "%s failed although nothing went wrong: %s %s", what, o.type.c_str(), o.what.c_str()); }
	void ended(Slot& s, bool was) { ++z.ends; if (was && !s.hurt && z.net()) ++z.clean_ends; s.conn = false; for (auto& f : z.fols) if (&slot(f->slot) == &s) f->open = 0; }
	void make_slot() {
		Slot s; if (z.net()) { z.d->make(); s.st = vmime::dynamicCast<vn::store>(z.d->svc()); s.sess = s.st->getSession(); z.d->destroy(); } else { MdCl c; c.make(); s.st = c.st; s.sess = c.sess; }
		if (z.net()) s.st->setTimeoutHandlerFactory(to_factory(ToCfg{10000000, 0, false})); z.slots.push_back(s);
	}
	void connect(Slot& s) { bool was = s.st->isConnected(); Out o = call("connect", [&] { s.st->connect(); }); if (o.ok) { CHECK(!was || s.hurt, "life.connect", "connect() succeeded although isConnected() was true"); if (s.conn) { for (auto& f : z.fols) if (&slot(f->slot) == &s) f->open = z.proto == "pop3" ? 0 : f->open; } ++s.epoch; s.conn = true; s.hurt = false; CHECK(s.st->isConnected(), "life.connect", "isConnected() is false after connect()"); } else if (!was) { need(o, "connect()"); s.hurt = true; } }
	void disconnect(Slot& s) { bool was = s.st->isConnected(); Out o = call("disconnect", [&] { s.st->disconnect(); }); CHECK(!s.st->isConnected(), "life.disconnect", "isConnected() is true after disconnect()"); if (was) need(o, "disconnect()"); if (z.net()) CHECK(!(o.ok && !was && z.proto != "maildir"), "life.disconnect", "disconnect() succeeded although there was no connection"); ended(s, was); sockets(); }
	void sockets() { bool any = false; for (auto& s : z.slots) any |= s.st && s.conn; if (z.net() && !any) CHECK(vfd_open_count() == 0, "life.socket", "no store is connected any more, but connections are open:%s", vfd_list().c_str()); }
	void drop_store(Slot& s) { bool was = s.st->isConnected(); std::weak_ptr<vn::store> w = s.st; tr("store dropped"); if (chance(300, "sess.first")) s.sess = vmime::null; s.st = vmime::null; s.sess = vmime::null; CHECK(w.expired(), "life.leak", "the store is still alive after its last reference was dropped"); ended(s, was); sockets(); }
	shared_ptr<vn::folder> get_folder(Slot& s, const S& name) { return z.proto == "maildir" ? s.st->getFolder(md_path(name)) : name == "INBOX" && chance(400, "default") ? s.st->getDefaultFolder() : s.st->getFolder(vn::folder::path(name)); }
	S draw_name() { return z.proto == "pop3" ? S("INBOX") : z.proto == "imap" ? (chance(650, "inbox") ? "INBOX" : "Other") : (chance(650, "inbox") ? "inbox" : "other"); }
	void new_folder(int si) {
		Slot& s = slot(si); if (!s.st) return; S n = draw_name(); shared_ptr<vn::folder> f; bool root = chance(60, "root"); Out o = call("getFolder", [&] { f = root ? s.st->getRootFolder() : get_folder(s, n); }); refused(o, !s.conn, "getFolder()", "a store that is not connected"); if (!o.ok) return;
		z.fols.push_back(std::make_unique<Fol>(Fol{f, si, s.epoch, 0, root ? "" : n}));
		if (chance(400, "listen")) { auto l = std::make_unique<Lis>(); l->z = &z; l->f = f; l->on = true; l->once = chance(300, "once"); f->addMessageCountListener(l.get()); f->addMessageChangedListener(l.get()); f->addFolderListener(l.get()); z.lis.push_back(std::move(l)); }
	}
	void open(Fol& f) {
		bool other = false; for (auto& g : z.fols) other |= g.get() != &f && g->open && g->name == f.name && g->slot == f.slot; int mode = chance(300, "ro") ? vn::folder::MODE_READ_ONLY : vn::folder::MODE_READ_WRITE; bool was = f.open; if (was) return;
		Out o = call("open", [&] { f.f->open(mode); }); refused(o, dead(f), "open()", "a folder whose store is gone or disconnected"); if (o.ok && (!z.act || f.f->isOpen())) { f.open = ++z.opens; CHECK(f.f->isOpen(), "life.open", "isOpen() is false after open()"); } else if (usable(f) && !other && !f.name.empty()) need(o, "open()");
	}
	void close(Fol& f) { bool e = chance(300, "expunge"); Out o = call("close", [&] { f.f->close(e); }); refused(o, dead(f) || !f.open, "close()", "a folder that is not open, or whose store is gone or disconnected"); if (o.ok) { f.open = 0; CHECK(!f.f->isOpen(), "life.close", "isOpen() is true after close()"); } }
	void folder_op(Fol& f) {
		auto F = f.f; bool closed = !f.open || dead(f); const char* why = dead(f) ? "a folder whose store is gone or disconnected" : "a folder that is not open"; FA fa(z.proto == "pop3" ? FA::SIZE | FA::UID | FA::FULL_HEADER : FA::SIZE | FA::UID | FA::FULL_HEADER | FA::FLAGS | FA::ENVELOPE | FA::STRUCTURE);
		switch (choose(17, "folder.op")) {
			case 0: { std::vector<shared_ptr<vn::message>> v; Out o = call("getMessages", [&] { v = F->getMessages(MS::byNumber(1, size_t(-1))); }); refused(o, closed, "getMessages()", why); keep(f, v); break; }
			case 1: { shared_ptr<vn::message> m; Out o = call("getMessage", [&] { m = F->getMessage(1); }); refused(o, closed, "getMessage()", why); if (m) keep(f, {m}); break; }
			case 2: { std::vector<shared_ptr<vn::message>> v; Out o = call("getAndFetch", [&] { v = F->getAndFetchMessages(MS::byNumber(1, size_t(-1)), fa); }); refused(o, closed, "getAndFetchMessages()", why); keep(f, v); break; }
			case 3: { size_t a = 0, b = 0; Out o = call("status", [&] { F->status(a, b); }); refused(o, dead(f), "status()", why); break; }
			case 4: { Out o = call("exists", [&] { F->exists(); }); refused(o, dead(f), "exists()", why); break; }
			case 5: { std::vector<shared_ptr<vn::folder>> v; Out o = call("getFolders", [&] { v = F->getFolders(chance(500, "rec")); }); refused(o, dead(f), "getFolders()", why); for (auto& x : v) if (z.fols.size() < 10 && chance(200, "keep")) z.fols.push_back(std::make_unique<Fol>(Fol{x, f.slot, f.epoch, 0, f.name.empty() ? S(x->getName().getBuffer()) : S("?")})); break; }
			case 6: { Msg* m = pick(z.msgs, "msg"); if (!m) break; Out o = call("fetchMessage", [&] { F->fetchMessage(m->m, fa); }); refused(o, closed, "fetchMessage()", why); refused(o, mdead(*m), "fetchMessage()", "a message whose folder is gone or closed"); if (m->fol != &f) refused(o, true, "fetchMessage()", "a message of another folder"); break; }
			case 7: { std::vector<shared_ptr<vn::message>> v; bool bad = false; u32 n = 1 + choose(4, "n"); for (u32 i = 0; i < n && !z.msgs.empty(); ++i) { Msg* m = pick(z.msgs, "msg"); v.push_back(m->m); bad |= mdead(*m) || m->fol != &f; } if (v.empty()) break; Out o = call("fetchMessages", [&] { F->fetchMessages(v, fa); }); refused(o, closed, "fetchMessages()", why); refused(o, bad, "fetchMessages()", "messages of which one is of another folder or an earlier opening"); break; }
			case 8: { Out o = call("delete", [&] { F->deleteMessages(MS::byNumber(1 + choose(3, "which"))); }); refused(o, closed, "deleteMessages()", why); break; }
			case 9: { Out o = call("setFlags", [&] { F->setMessageFlags(MS::byNumber(1), NM::FLAG_SEEN, NM::FLAG_MODE_ADD); }); refused(o, closed && z.proto != "pop3", "setMessageFlags()", why); break; }
			case 10: { Source s(S("Subject: x\r\n\r\nbody\r\n")); Out o = call("addMessage", [&] { F->addMessage(s, s.d.size()); }); refused(o, dead(f), "addMessage()", why); if (z.proto == "imap") for (auto& b : g_imap->boxes) for (auto& m : b->msgs) if (!m->root) { Rng r(7); m->root = gen_mime(r, 0, "x", 3, true); m->data = m->root->all(); } break; }
			case 11: { Out o = call("copy", [&] { F->copyMessages(z.proto == "maildir" ? md_path("other") : vn::folder::path("Other"), MS::byNumber(1)); }); refused(o, closed, "copyMessages()", why); break; }
			case 12: { Out o = call("expunge", [&] { F->expunge(); }); refused(o, closed && z.proto != "pop3", "expunge()", why); break; }
			case 13: { shared_ptr<vn::folder> p; Out o = call("getParent", [&] { p = F->getParent(); }); if (p && z.fols.size() < 10) z.fols.push_back(std::make_unique<Fol>(Fol{p, f.slot, f.epoch, 0, ""})); break; }
			case 14: { Out o = call("getMode", [&] { F->getMode(); }); refused(o, closed && !F->isOpen(), "getMode()", why); break; }
			case 15: { Out o = call("getMessageCount", [&] { F->getMessageCount(); }); (void) o; break; }
			default: { shared_ptr<vn::store> s; call("getters", [&] { F->getFullPath(); F->getName(); F->isOpen(); s = F->getStore(); }); if (s && dead(f)) CHECK(slot(f.slot).st != nullptr, "life.zombie", "getStore() gave a store that had been destroyed"); if (s) { s = vmime::null; } call("attr", [&] { F->getAttributes(); F->getStatus(); }); }
		}
	}
	void keep(Fol& f, const std::vector<shared_ptr<vn::message>>& v) { for (auto& m : v) if (z.msgs.size() < 14 && chance(600, "keep")) z.msgs.push_back(Msg{m, f.f, &f, f.open}); if (!v.empty()) count("life.messages"); }
	void msg_op(Msg& m) {
		bool gone = mdead(m); const char* why = "a message whose folder or store is gone, closed or disconnected";
		switch (choose(8, "msg.op")) {
			case 0: case 1: { Sink s; Out o = call("extract", [&] { m.m->extract(s); }); refused(o, gone, "extract()", why); break; }
			case 2: { shared_ptr<vmime::message> p; Out o = call("parsed", [&] { p = m.m->getParsedMessage(); }); refused(o, gone, "getParsedMessage()", why); if (p && z.pars.size() < 6) { Par q; q.m = p; z.pars.push_back(q); } break; }
			case 3: { Out o = call("setFlags", [&] { m.m->setFlags(NM::FLAG_SEEN, NM::FLAG_MODE_ADD); }); refused(o, gone, "setFlags()", why); break; }
			case 4: { Str x; call("getStructure", [&] { x.s = m.m->getStructure(); if (x.s->getPartCount()) x.p = x.s->getPartAt(choose(u32(x.s->getPartCount()), "part")); }); if (x.s && z.strs.size() < 8) { if (chance(500, "part.only")) x.s = vmime::null; if (x.s || x.p) z.strs.push_back(x); } break; }
			case 5: { Str* x = pick(z.strs, "str"); if (!x || !x->p) break; Sink s; Out o = call("extractPart", [&] { m.m->extractPart(x->p, s); }); refused(o, gone, "extractPart()", why); break; }
			case 6: { Str* x = pick(z.strs, "str"); if (!x || !x->p) break; Out o = call("fetchPartHeader", [&] { m.m->fetchPartHeader(x->p); }); refused(o, gone, "fetchPartHeader()", why); break; }
			default: call("getNumber", [&] { m.m->getNumber(); m.m->isExpunged(); m.m->getUID(); }); call("getSize", [&] { m.m->getSize(); }); call("getFlags", [&] { m.m->getFlags(); }); call("getHeader", [&] { m.m->getHeader()->generate(); });
		}
	}
	void walk(const shared_ptr<vn::messageStructure>& s, int depth) { for (size_t i = 0; i < s->getPartCount() && depth < 5; ++i) { auto p = s->getPartAt(i); p->getType().generate(); p->getSize(); p->getNumber(); p->getName(); call("part header", [&] { p->getHeader()->generate(); }); walk(p->getStructure(), depth + 1); } }
	void str_op(Str& x) { call("structure", [&] { if (x.s) walk(x.s, 0); if (x.p) { x.p->getType().generate(); x.p->getSize(); x.p->getNumber(); walk(x.p->getStructure(), 0); } }); }
	void par_op(Par& p) {
		std::vector<shared_ptr<vmime::bodyPart>> v; std::function<void(shared_ptr<vmime::bodyPart>)> w = [&](shared_ptr<vmime::bodyPart> b) { if (!b->getBody()->getPartCount()) v.push_back(b); for (auto& k : b->getBody()->getPartList()) w(k); }; w(p.m);
		if (chance(300, "generate")) { Sink s; call("generate", [&] { p.m->generate(s); }); return; }
		auto b = v[choose(u32(v.size()), "part")]; Sink s; Out o = call("extract part", [&] { b->getBody()->getContents()->extract(s); }); if (o.ok) { auto k = static_cast<const void*>(b.get()); auto i = p.seen.find(k); if (i == p.seen.end()) p.seen[k] = s.d; else CHECK(i->second == s.d, "life.content", "a part of a parsed message reads differently the second time: %s", diff_at(s.d, i->second).c_str()); }
	}
	void hurt_all() { for (auto& s : z.slots) s.hurt = true; exact = false; }
	void accident() {
		if (!z.net()) return; std::vector<std::shared_ptr<Conn>> live; for (auto& c : net_conns()) if (!c->dead && !c->srv_closed && !c->cfin) live.push_back(c); if (live.empty()) return; hurt_all(); auto c = live[choose(u32(live.size()), "victim")]; nontrivial();
		switch (choose(4, "accident")) { case 0: c->close(); count("fault.net.fin"); break; case 1: c->reset(); count("fault.net.rst"); break; case 2: if (auto p = std::dynamic_pointer_cast<ServerPeer>(c->peer)) { if (p->tls_ready) { p->close_tls(true); break; } if (z.proto == "imap") p->out("* BYE closing\r\n"); c->close(); } count("fault.net.bye"); break; default: for (auto& x : live) x->reset(); count("fault.net.server_restart"); }
		if (chance(700, "settle")) advance(200000);
	}
	void drop_folder(size_t i) { Fol* f = z.fols[i].get(); for (auto& l : z.lis) if (l->f.lock() == f->f) { if (chance(500, "unlisten")) { if (l->on) l->off(); } else l->on = l->on && false; } std::weak_ptr<vn::folder> w = f->f; tr("folder dropped%s", f->open ? " while open" : ""); f->f = vmime::null; CHECK(w.expired(), "life.leak", "the folder is still alive after its last reference was dropped"); for (auto& m : z.msgs) if (m.fol == f) m.fol = nullptr; z.fols.erase(z.fols.begin() + long(i)); sockets(); }
	void step() {
		u32 si = choose(u32(z.slots.size()), "slot"); Slot& s = slot(int(si));
		switch (weighted({10, 20, 24, 8, 5, 3, 5, 12, 4, 4, 6, 3}, "step")) {
			case 0: if (z.fols.size() < 6) new_folder(int(si)); break;
			case 1: if (!z.fols.empty()) { auto& f = *z.fols[choose(u32(z.fols.size()), "folder")]; if (!f.open && chance(600, "open")) open(f); else if (chance(250, "close")) close(f); else folder_op(f); } break;
			case 2: if (Msg* m = pick(z.msgs, "msg")) msg_op(*m); else if (!z.fols.empty()) { auto& f = *z.fols[choose(u32(z.fols.size()), "folder")]; if (f.open) { std::vector<shared_ptr<vn::message>> v; call("getMessages", [&] { v = f.f->getMessages(MS::byNumber(1, size_t(-1))); }); keep(f, v); } else open(f); } break;
			case 3: if (Str* x = pick(z.strs, "str")) str_op(*x); else if (Par* p = pick(z.pars, "par")) par_op(*p); break;
			case 4: if (s.st) { if (s.conn && s.st->isConnected()) disconnect(s); else connect(s); } break;
			case 5: if (s.st) { if (s.st->isConnected()) call("noop", [&] { s.st->noop(); }); else if (chance(500, "again")) disconnect(s); else connect(s); } break;
			case 6: if (z.faults) accident(); break;
			case 7: switch (choose(5, "drop")) { case 0: if (!z.fols.empty()) drop_folder(choose(u32(z.fols.size()), "folder")); break; case 1: case 2: if (!z.msgs.empty()) z.msgs.erase(z.msgs.begin() + long(choose(u32(z.msgs.size()), "msg"))); break; case 3: if (!z.strs.empty()) z.strs.erase(z.strs.begin() + long(choose(u32(z.strs.size()), "str"))); break; default: if (!z.pars.empty()) z.pars.erase(z.pars.begin() + long(choose(u32(z.pars.size()), "par"))); } break;
			case 8: if (s.st && chance(400, "drop.store")) drop_store(s); break;
			case 9: if (!s.st) { z.slots[si] = Slot(); make_slot(); Slot n = z.slots.back(); z.slots.pop_back(); n.epoch = 1000 * (1 + z.ends); z.slots[si] = n; for (auto& f : z.fols) if (f->slot == int(si)) f->slot = orphan(); connect(slot(int(si))); } else if (s.st->isConnected()) call("infos", [&] { s.st->getConnectionInfos()->getHost(); s.st->isSecuredConnection(); if (auto i = vmime::dynamicCast<vn::tls::TLSSecuredConnectionInfos>(s.st->getConnectionInfos())) i->getPeerCertificates(); }); else call("infos", [&] { auto c = s.st->getConnectionInfos(); if (c) c->getHost(); s.st->isSecuredConnection(); }); break;
			case 10: if (z.proto == "maildir") { MMsg m = g_md->gen(300); g_md->deliver("inbox", m, false, 0); } else if (z.proto == "imap" && g_imap) g_imap->crowd_act(); break;
			default: advance(oneof<u64>({1000000, 60000000, 700000000}, "idle"));
		}
	}
	int orphan_ = -1; std::vector<Slot> spare;
	int orphan() { if (orphan_ < 0) { z.slots.push_back(Slot()); orphan_ = int(z.slots.size()) - 1; } return orphan_; }   // stands for stores that are gone
	// listeners that do what applications do when they hear of something: close, disconnect, open, use and drop folders, also those whose turn has not come yet
	void more(Slot& s) {
		if (!s.st || z.extra.size() >= 6) return; S n = draw_name(); shared_ptr<vn::folder> f; call("getFolder", [&] { f = get_folder(s, n); }); if (!f) return;
		auto l = std::make_unique<Lis>(); l->z = &z; l->f = f; l->on = true; l->once = chance(300, "once"); f->addMessageCountListener(l.get()); f->addMessageChangedListener(l.get()); f->addFolderListener(l.get()); z.lis.push_back(std::move(l)); if (chance(850, "open")) call("open", [&] { f->open(vn::folder::MODE_READ_WRITE); }); z.extra.push_back(f);
	}
	void listeners() {
		z.act = [this] {
			count("life.listener_acts"); nontrivial(); Slot& s = z.slots[choose(u32(z.slots.size()), "slot")]; shared_ptr<vn::folder> f; if (!z.extra.empty() && chance(500, "extra")) f = z.extra[choose(u32(z.extra.size()), "which")]; else if (Fol* x = pick1(z.fols)) f = x->f;
			switch (weighted({4, 2, 4, 3, 2, 2, 2}, "act.op")) {
				case 0: if (f) call("close (listener)", [&] { f->close(chance(300, "expunge")); }); break;
				case 1: if (s.st) call("disconnect (listener)", [&] { s.st->disconnect(); }); break;
				case 2: f = vmime::null; if (!z.extra.empty()) { size_t i = choose(u32(z.extra.size()), "drop"); z.extra.erase(z.extra.begin() + long(i)); count("life.folder_dropped_inside"); } break;
				case 3: if (f) call("use (listener)", [&] { if (chance(500, "status")) f->getStatus(); else for (auto& m : f->getMessages(MS::byNumber(1, size_t(-1)))) { Sink k; m->extract(k); } }); break;
				case 4: f = vmime::null; if (s.st) more(s); break;
				case 5: if (f) call("change (listener)", [&] { if (chance(500, "del")) f->deleteMessages(MS::byNumber(1)); else f->expunge(); }); break;
				default: if (s.st) call("noop (listener)", [&] { s.st->noop(); });
			}
		};
	}
	void distinct(shared_ptr<vn::folder> f) {   // whatever listeners did in between, a folder shows each message once
		std::vector<S> u; auto keep = std::move(z.act); z.act = nullptr; Out o = call("uids", [&] { if (f->isOpen() && f->getMessageCount()) for (auto& m : f->getAndFetchMessages(MS::byNumber(1, size_t(-1)), FA(FA::UID))) if (!m->isExpunged()) u.push_back(S(m->getUID())); }); z.act = keep; if (!o.ok) return;
		std::sort(u.begin(), u.end()); for (size_t i = 1; i < u.size(); ++i) CHECK(u[i] != u[i - 1] || u[i].empty(), "life.twice", "a folder shows the message %s twice", u[i].c_str()); if (!u.empty()) count("life.distinct");
	}
	void recover() {
		z.act = nullptr; z.extra.clear(); exact = true; if (z.d) z.d->heal(); g_net = NetCfg(); advance(100000000);
		for (size_t i = 0; i < z.slots.size(); ++i) { Slot& s = z.slots[i]; if (!s.st) continue; bool same = chance(600, "same"); if (!same) { drop_store(s); continue; }
			if (s.st->isConnected()) { exact = false; disconnect(s); exact = true; } for (auto& f : z.fols) if (f->slot == int(i) && f->f->isOpen()) { call("close lost", [&] { f->f->close(false); }); f->open = 0; } Out o = call("connect again", [&] { s.st->connect(); }); CHECK(o.ok, "life.reconnect", "a store could not be connected again after the faults had ceased: %s %s", o.type.c_str(), o.what.c_str()); ++s.epoch; s.conn = true; s.hurt = false;
			shared_ptr<vn::folder> f; S name = z.proto == "maildir" ? "inbox" : "INBOX"; std::vector<S> got; std::vector<S> want; o = call("use", [&] { f = get_folder(s, name); f->open(vn::folder::MODE_READ_ONLY); if (f->getMessageCount()) for (auto& m : f->getMessages(MS::byNumber(1, size_t(-1)))) { Sink k; m->extract(k); got.push_back(k.d); } }); 
			CHECK(o.ok, "life.reconnect", "a store that was connected again does not work: %s %s", o.type.c_str(), o.what.c_str()); size_t n = z.proto == "pop3" ? g_pop->drop.size() : z.proto == "imap" ? g_imap->box("INBOX")->msgs.size() : g_md->disk("inbox").size(); CHECK(got.size() == n, "life.reconnect", "after connecting again the folder shows %zu of %zu messages", got.size(), n); count("life.recovered");
			if (chance(500, "close")) { o = call("close", [&] { f->close(false); }); CHECK(o.ok, "life.reconnect", "close() failed: %s %s", o.type.c_str(), o.what.c_str()); } if (chance(500, "keep.folder")) z.fols.push_back(std::make_unique<Fol>(Fol{f, int(i), s.epoch, 0, name}));
		}
	}
	void finish() {   // everything goes, in any order
		z.act = nullptr; z.extra.clear();
		for (auto& l : z.lis) if (l->on) l->off();
		while (true) { std::vector<int> k; if (!z.msgs.empty()) k.push_back(0); if (!z.fols.empty()) k.push_back(1); if (!z.strs.empty()) k.push_back(2); if (!z.pars.empty()) k.push_back(3); for (auto& s : z.slots) if (s.st) { k.push_back(4); break; } if (k.empty()) break; switch (k[choose(u32(k.size()), "end")]) { case 0: if (chance(300, "use")) msg_op(z.msgs.back()); z.msgs.pop_back(); break; case 1: drop_folder(choose(u32(z.fols.size()), "folder")); break; case 2: str_op(z.strs.back()); z.strs.pop_back(); break; case 3: par_op(z.pars.back()); z.pars.pop_back(); break; default: for (auto& s : z.slots) if (s.st) { if (chance(500, "disc") && s.st->isConnected()) disconnect(s); else drop_store(s); break; } } }
		sockets(); advance(60000000); if (z.net()) { int q = z.d->quits(); CHECK(q >= z.clean_ends, "life.no_goodbye", "%d sessions were ended with a usable connection, the server was told %d times", z.clean_ends, q); }
	}
};
}
static void stores_(bool ev);
SCENARIO(L01, stores, 10) { stores_(false); finish_checks(); g_imap = nullptr; }
SCENARIO(L01, listeners, 5) { stores_(true); finish_checks(); g_imap = nullptr; }
static void stores_(bool ev) {
	World w; Zoo& z = w.z; switch (weighted({4, 3, 3}, "protocol")) { case 0: z.d = drv_imap(); break; case 1: z.d = drv_pop(); break; default: z.proto = "maildir"; } z.faults = chance(600, "faults"); if (ev) z.faults = z.faults && chance(300, "faults.too"); w.exact = !z.faults && !ev;
	if (z.d) { z.proto = z.d->proto; z.d->srv.maxmsgs = 4; z.d->srv.maxlen = 2000; switch (weighted({80, 12, 8}, "tls")) { case 1: z.d->srv.implicit_tls = true; break; case 2: z.d->srv.starttls = true; z.d->cli.tls = true; } z.d->srv.tls.no_close_notify = chance(300, "tls.trunc"); z.d->serve(z.faults); g_net.lat = std::min<u32>(g_net.lat, 20000); if (z.faults && chance(400, "cut")) { u32 n = 1 + choose(3, "cuts"); for (u32 i = 0; i < n; ++i) { NetCfg::Cut k; k.conn = int(choose(5, "cut.conn")); k.dir = chance(750, "cut.dir") ? 0 : 1; k.kind = oneof<int>({1, 2, 3}, "cut.kind"); k.at = sized(3000, "cut.at"); g_net.cuts.push_back(k); } } }
	else { g_md = new MdWorld; g_md->courier = chance(500, "layout"); g_md->maxlen = 3000; fs_mkdirs(g_md->root); g_md->mkfolder("inbox"); g_md->mkfolder("other"); set_hostname("localhost"); u32 n = choose(4, "n"); for (u32 i = 0; i < n; ++i) { MMsg m = g_md->gen(3000); g_md->deliver("inbox", m, chance(500, "cur"), 0); } if (z.faults) { u32 k = 1 + choose(3, "fails"); for (u32 i = 0; i < k; ++i) { FsFail x; x.mask = oneof<u32>({FC_ALL, FC_READ, FC_OPENDIR | FC_READDIR, FC_RENAME | FC_UNLINK, FC_OPEN}, "mask"); x.nth = sized(300, "nth"); x.err = oneof<int>({EIO, EACCES, EMFILE, ENOENT}, "err"); g_fs.fails.push_back(x); } } }
	app_init(); z.slots.reserve(8); u32 ns = 1 + choose(2, "stores"); for (u32 i = 0; i < ns; ++i) w.make_slot(); if (z.faults || ev) for (auto& s : z.slots) s.hurt = true;
	if (ev) w.listeners();
	for (auto& s : z.slots) if (chance(900, "connect")) { w.connect(s); if (z.faults || ev) s.hurt = true; }
	for (size_t i = 0; i < z.slots.size(); ++i) if (z.slots[i].conn && chance(800, "populate")) { u32 k = 1 + choose(2, "folders"); for (u32 j = 0; j < k; ++j) { size_t b = z.fols.size(); w.new_folder(int(i)); if (z.fols.size() == b) break; w.open(*z.fols.back()); Fol& f = *z.fols.back(); if (f.open) { std::vector<shared_ptr<vn::message>> v; call("getMessages", [&] { v = f.f->getMessages(MS::byNumber(1, size_t(-1))); }); w.keep(f, v); } } }
	u32 n = 4 + sized(60, "steps"); for (u32 i = 0; i < n; ++i) { if (ev && chance(300, "distinct")) { shared_ptr<vn::folder> f; if (!z.extra.empty() && chance(600, "extra")) f = z.extra[choose(u32(z.extra.size()), "which")]; else if (Fol* x = pick1(z.fols)) f = x->f; if (f) w.distinct(f); } if (ev && chance(250, "add")) { shared_ptr<vn::folder> f; if (!z.extra.empty() && chance(600, "extra")) f = z.extra[choose(u32(z.extra.size()), "which")]; else if (Fol* x = pick1(z.fols)) f = x->f; if (f && z.proto != "imap") { Source sr(S("Subject: x\r\n\r\nbody\r\n")); call("addMessage", [&] { f->addMessage(sr, sr.d.size()); }); f = vmime::null; std::vector<shared_ptr<vn::folder>> all = z.extra; for (auto& x : z.fols) all.push_back(x->f); for (auto& x : all) if (x) w.distinct(x); } } if (ev && chance(250, "more")) w.more(z.slots[choose(u32(z.slots.size()), "slot")]); w.step(); if (ev || (z.faults && !g_net.cuts.empty())) for (auto& s : z.slots) s.hurt = true; }
	g_fs.fails.clear(); state(fnvs(z.proto) + z.fols.size() * 7 + z.msgs.size() * 31 + u64(z.ends) * 1009); if (z.ends || z.opens > 1) nontrivial();
	if (chance(600, "recover")) w.recover(); w.finish(); if (z.d) { auto d = std::move(z.d); w.z.clear(); d = nullptr; }
}
// ---- transports
static void transports_();
SCENARIO(L01, transports, 4) { transports_(); finish_checks(); }
static void transports_() {
	auto d = drv_smtp(); d->srv.quiet = true; d->srv.maxlen = 2000; bool faults = chance(600, "faults"); switch (weighted({80, 12, 8}, "tls")) { case 1: d->srv.implicit_tls = true; break; case 2: d->srv.starttls = true; d->cli.tls = true; } d->srv.tls.no_close_notify = chance(300, "tls.trunc"); d->serve(faults); g_net.lat = std::min<u32>(g_net.lat, 20000); app_init();
	struct T { shared_ptr<vn::transport> t; shared_ptr<vn::session> s; bool hurt = false; }; std::vector<T> ts; int clean = 0; bool hurt = faults; u32 nt = 1 + choose(2, "transports");
	auto fresh = [&] { d->make(); T t; t.t = vmime::dynamicCast<vn::transport>(d->svc()); t.s = t.t->getSession(); d->destroy(); t.t->setTimeoutHandlerFactory(to_factory(ToCfg{10000000, 0, false})); t.hurt = hurt; return t; }; for (u32 i = 0; i < nt; ++i) ts.push_back(fresh());
	vmime::mailbox from("a@example.com"); vmime::mailboxList to; to.appendMailbox(make_shared<vmime::mailbox>("b@example.com")); u32 n = 3 + sized(25, "steps");
	auto send = [&](T& t, bool heal) { S data = "Subject: x\r\n\r\nbody\r\n"; Source src(data); bool was = t.t->isConnected(); Out o = call("send", [&] { t.t->send(from, to, src, data.size()); }); CHECK(!(o.ok && !was), "life.zombie", "send() succeeded although the transport was not connected"); if (heal) CHECK(o.ok, "life.reconnect", "send() failed after connecting again: %s %s", o.type.c_str(), o.what.c_str()); };
	for (u32 i = 0; i < n; ++i) { T& t = ts[choose(u32(ts.size()), "t")]; if (!t.t) { t = fresh(); continue; } bool was = t.t->isConnected();
		switch (weighted({6, 6, 3, 2, 3, 2, 3}, "op")) {
			case 0: { Out o = call("connect", [&] { t.t->connect(); }); CHECK(!(o.ok && was && !t.hurt), "life.connect", "connect() succeeded on a connected transport"); if (o.ok) { CHECK(t.t->isConnected(), "life.connect", "isConnected() is false after connect()"); t.hurt = faults; } else if (!was) t.hurt = true; break; }
			case 1: send(t, false); break;
			case 2: { Out o = call("disconnect", [&] { t.t->disconnect(); }); CHECK(!t.t->isConnected(), "life.disconnect", "isConnected() is true after disconnect()"); CHECK(!(o.ok && !was), "life.disconnect", "disconnect() succeeded although there was no connection"); if (was && !t.hurt) ++clean; break; }
			case 3: call("noop", [&] { t.t->noop(); }); break;
			case 4: if (faults && !net_conns().empty()) { auto c = net_conns()[choose(u32(net_conns().size()), "victim")]; if (!c->dead && !c->srv_closed) { hurt = true; for (auto& x : ts) x.hurt = true; nontrivial(); if (chance(500, "rst")) { c->reset(); count("fault.net.rst"); } else { c->close(); count("fault.net.fin"); } if (chance(700, "settle")) advance(200000); } } break;
			case 5: call("infos", [&] { auto c = t.t->getConnectionInfos(); if (c) c->getHost(); t.t->isSecuredConnection(); t.t->getSession(); }); break;
			default: if (chance(500, "drop")) { if (was && !t.hurt) ++clean; std::weak_ptr<vn::transport> w = t.t; if (chance(500, "sess.first")) t.s = vmime::null; t.t = vmime::null; t.s = vmime::null; CHECK(w.expired(), "life.leak", "the transport is still alive after its last reference was dropped"); nontrivial(); }
		}
		bool any = false; for (auto& x : ts) any |= x.t && x.t->isConnected(); if (!any) { bool maybe = false; for (auto& x : ts) maybe |= x.t != nullptr; if (!maybe) CHECK(vfd_open_count() == 0, "life.socket", "no transport is left, but connections are open:%s", vfd_list().c_str()); }
	}
	d->heal(); g_net = NetCfg(); advance(100000000); state(u64(clean));
	for (auto& t : ts) { if (!t.t) continue; if (t.t->isConnected()) { if (!t.hurt) ++clean; call("disconnect", [&] { t.t->disconnect(); }); } Out o = call("connect again", [&] { t.t->connect(); }); CHECK(o.ok, "life.reconnect", "connect() failed after the faults had ceased: %s %s", o.type.c_str(), o.what.c_str()); send(t, true); if (chance(500, "disc")) { call("disconnect", [&] { t.t->disconnect(); }); } ++clean; }
	ts.clear(); advance(60000000); if (!faults) CHECK(d->quits() >= clean, "life.no_goodbye", "%d sessions were ended with a usable connection, the server was told %d times", clean, d->quits()); d = nullptr;
}

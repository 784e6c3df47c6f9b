// IMAP properties I01 to I04
#include "imap.hpp"
#include "drv.hpp"
#include <list>
#include "vmime/net/imap/imap.hpp"
#include "vmime/net/imap/IMAPSearchAttributes.hpp"
using namespace sim;
namespace vi = vmime::net::imap;
namespace {
typedef vn::fetchAttributes FA; typedef vn::message NM;
struct Cl {
	shared_ptr<vn::session> sess; shared_ptr<vn::store> st;
	void make(const std::string& url = "imap://mail.example.com") {
		sess = vn::session::create(); auto& p = sess->getProperties(); std::string pre = url.find("imaps") == 0 ? "store.imaps." : "store.imap.";
		p[pre + "auth.username"] = g_imap->cfg.user; p[pre + "auth.password"] = g_imap->cfg.pass; if (chance(300, "opt.nosasl")) p[pre + "options.sasl"] = false;
		st = sess->getStore(vmime::utility::url(url)); if (url.find("imaps") == 0) st->setCertificateVerifier(verifier({"ca"}));
	}
};
size_t maxlen() { size_t n = oneof<size_t>({400, 3000, 20000, 100000}, "maxlen"); return g_net.seg == 1 || g_net.rxmax || g_net.sndcap < 200 ? std::min<size_t>(n, 3000) : n; }
void setup(ImapCfg cfg, bool netfaults, u32 maxmsgs) {
	g_imap = new ImapWorld; g_imap->cfg = cfg; g_net = draw_net(netfaults);
	dns_add("mail.example.com", DnsEntry{{"192.0.2.1"}, 200, 0, false}); imap_listen("192.0.2.1", cfg.implicit_tls ? 993 : 143);
	auto b = g_imap->add_box("INBOX"); u32 n = sized(maxmsgs, "nmsgs"); size_t ml = maxlen(); for (u32 i = 0; i < n; ++i) { auto m = imap_msg(ml); if (chance(40, "msg.huge")) m->claim = oneof<size_t>({2147483647u, 2147483648u, 4294967295u, 3000000000u}, "msg.claim"); g_imap->deliver(b, m); }
	auto x = g_imap->add_box("Other"); if (chance(500, "other?")) g_imap->deliver(x, imap_msg(200));
}
int flagbits(const std::set<std::string>& f) { int r = 0; if (f.count("\\Seen")) r |= NM::FLAG_SEEN; if (f.count("\\Answered")) r |= NM::FLAG_REPLIED; if (f.count("\\Flagged")) r |= NM::FLAG_MARKED; if (f.count("\\Deleted")) r |= NM::FLAG_DELETED; if (f.count("\\Draft")) r |= NM::FLAG_DRAFT; return r; }
std::set<std::string> flagset(int b) { std::set<std::string> f; if (b & NM::FLAG_SEEN) f.insert("\\Seen"); if (b & NM::FLAG_REPLIED) f.insert("\\Answered"); if (b & NM::FLAG_MARKED) f.insert("\\Flagged"); if (b & NM::FLAG_DELETED) f.insert("\\Deleted"); if (b & NM::FLAG_DRAFT) f.insert("\\Draft"); return f; }
int draw_flags() { int f = 0; for (int b : {NM::FLAG_SEEN, NM::FLAG_DELETED, NM::FLAG_REPLIED, NM::FLAG_MARKED, NM::FLAG_DRAFT}) if (chance(300, "flag")) f |= b; return f; }
struct Listener : vn::events::messageChangedListener, vn::events::messageCountListener {
	std::vector<std::pair<char, size_t>> ev;
	void messageChanged(const shared_ptr<vn::events::messageChangedEvent>& e) override { for (size_t n : e->getNumbers()) ev.push_back({'F', n}); }
	void messagesAdded(const shared_ptr<vn::events::messageCountEvent>& e) override { for (size_t n : e->getNumbers()) ev.push_back({'A', n}); }
	void messagesRemoved(const shared_ptr<vn::events::messageCountEvent>& e) override { for (size_t n : e->getNumbers()) ev.push_back({'X', n}); }
};
struct Obj { shared_ptr<vn::message> m; ImapMsgP ref; int attr = 0; std::set<std::string> custom; };
// an open folder, the session behind it and the objects obtained from it
struct Fold {
	shared_ptr<vn::folder> f; ImapSess* ss = nullptr; std::vector<Obj> objs; Listener lis; std::vector<ImapMsgP> ident; size_t pos = 0; bool faults = false;
	bool open(shared_ptr<vn::store> st, const std::string& name, int mode, bool must) {
		size_t nc = net_conns().size(); auto g = name == "INBOX" && chance(400, "deffolder") ? st->getDefaultFolder() : st->getFolder(vn::folder::path(name)); Out o = call("open " + name, [&] { g->open(mode); });
		if (!o.ok) { CHECK(!must, "imap.open.failed", "open() failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); return false; }
		f = g; CHECK(net_conns().size() > nc, "imap.open.noconn", "an open folder has no connection of its own"); ss = dynamic_cast<ImapSess*>(net_conns().back()->peer.get()); ident = ss->view; pos = ss->evlog.size(); lis.ev.clear(); f->addMessageChangedListener(&lis); f->addMessageCountListener(&lis); return true;
	}
	void drop() { if (f) { f->removeMessageChangedListener(&lis); f->removeMessageCountListener(&lis); } objs.clear(); f = vmime::null; }
	Obj* get(size_t n) { for (auto& o : objs) if (o.m->getNumber() == n && !o.m->isExpunged() && chance(600, "reuse")) return &o; shared_ptr<vn::message> m; Out o = call("getMessage", [&] { m = f->getMessage(n); }); CHECK(o.ok, "imap.getmessage", "getMessage(%zu) failed although the folder has %zu messages: %s", n, ss->view.size(), o.type.c_str()); objs.push_back({m, ss->view[n - 1]}); return &objs.back(); }
	// the client's view after a completed command
	void view_check(const char* after) {
		size_t c = f->getMessageCount(); CHECK(c == ss->view.size(), "imap.view.count", "after %s: message count %zu, the server announced %zu", after, c, ss->view.size());
		for (auto& o : objs) {
			size_t i = size_t(std::find(ss->view.begin(), ss->view.end(), o.ref) - ss->view.begin()); bool there = i < ss->view.size();
			CHECK(o.m->isExpunged() == !there, "imap.view.expunged", "after %s: message uid %llu is %s on the server, isExpunged() is %d", after, (unsigned long long) o.ref->uid, there ? "present" : "expunged", int(o.m->isExpunged()));
			if (there) CHECK(o.m->getNumber() == i + 1, "imap.view.number", "after %s: message uid %llu has number %zu, on the server %zu", after, (unsigned long long) o.ref->uid, o.m->getNumber(), i + 1);
			std::string u = std::string(o.m->getUID()); if (!u.empty()) CHECK(u == fmt("%llu", (unsigned long long) o.ref->uid), "imap.view.uid", "after %s: uid \"%s\" for the message with uid %llu", after, u.c_str(), (unsigned long long) o.ref->uid);
			if (there) { int fl = 0; bool have = true; try { fl = o.m->getFlags(); } catch (vmime::exceptions::unfetched_object&) { have = false; } if (o.attr & FA::FLAGS) CHECK(have, "imap.view.flags", "flags of a fetched message are unknown"); if (have) CHECK(fl == flagbits(ss->told[o.ref.get()].flags), "imap.view.flags", "after %s: message uid %llu has flags %x, the server announced %x", after, (unsigned long long) o.ref->uid, fl, flagbits(ss->told[o.ref.get()].flags)); }
		}
		// events
		std::vector<std::pair<char, size_t>> a; std::set<ImapMsg*> fetched, changed; for (size_t i = pos; i < ss->evlog.size(); ++i) { auto& e = ss->evlog[i]; if (e.k == 'A' || e.k == 'X') a.push_back({e.k, e.n}); else if (e.k == 'F') changed.insert(e.m.get()); else fetched.insert(e.m.get()); } pos = ss->evlog.size();
		std::vector<std::pair<char, size_t>> b; std::set<ImapMsg*> told; size_t newer = 0; (void) newer;
		std::vector<ImapMsgP> id = ident; std::vector<ImapMsgP> added; for (size_t i = 0; i < a.size(); ++i) {} for (auto& e : lis.ev) { if (e.first == 'X') { CHECK(e.second >= 1 && e.second <= id.size(), "imap.event.range", "after %s: removal event for message %zu of %zu", after, e.second, id.size()); id.erase(id.begin() + long(e.second - 1)); b.push_back(e); } else if (e.first == 'A') { CHECK(e.second == id.size() + 1, "imap.event.added", "after %s: added event for message %zu while there were %zu messages", after, e.second, id.size()); id.push_back(nullptr); b.push_back(e); } else { CHECK(e.second >= 1 && e.second <= id.size(), "imap.event.range", "after %s: change event for message %zu of %zu", after, e.second, id.size()); if (id[e.second - 1]) told.insert(id[e.second - 1].get()); } }
		CHECK(a == b, "imap.event.sequence", "after %s: %zu additions and removals were announced by the server, listeners heard of %zu%s", after, a.size(), b.size(), a.size() == b.size() ? " other ones" : "");
		for (auto m : told) CHECK(fetched.count(m), "imap.event.changed", "after %s: change event for a message (uid %llu) about which the server said nothing", after, (unsigned long long) m->uid);
		for (auto m : changed) if (std::find_if(ident.begin(), ident.end(), [&](const ImapMsgP& q) { return q.get() == m; }) != ident.end()) CHECK(told.count(m), "imap.event.missed", "after %s: no change event for the message with uid %llu", after, (unsigned long long) m->uid);
		lis.ev.clear(); ident = ss->view; if (!a.empty() || !changed.empty()) nontrivial();
	}
};
std::string canon(const vmime::header& h) { std::string o; for (size_t i = 0; i < h.getFieldCount(); ++i) { auto f = h.getFieldAt(i); o += f->getName() + ":" + f->getValue()->generate() + "\n"; } return o; }
std::string canon_hdr(const std::string& raw) { vmime::header h; h.parse(raw); return canon(h); }
std::string utf8(const vmime::text& t) { return t.getConvertedText(vmime::charset("utf-8")); }
void cmp_addr(const char* what, shared_ptr<const vmime::headerField> f, const std::vector<ImapAddr>& want, bool first) {
	std::vector<ImapAddr> w = want; if (first && w.size() > 1) w.resize(1); if (w.empty()) return; CHECK(bool(f), "imap.envelope", "%s is missing", what); std::vector<shared_ptr<const vmime::mailbox>> got;
	if (auto mb = vmime::dynamicCast<const vmime::mailbox>(f->getValue())) got.push_back(mb); else if (auto al = vmime::dynamicCast<const vmime::addressList>(f->getValue())) for (auto& a : al->getAddressList()) got.push_back(vmime::dynamicCast<const vmime::mailbox>(a)); else if (auto ml = vmime::dynamicCast<const vmime::mailboxList>(f->getValue())) for (auto& a : ml->getMailboxList()) got.push_back(a);
	CHECK(got.size() == w.size(), "imap.envelope", "%s has %zu addresses, the server sent %zu", what, got.size(), w.size());
	for (size_t i = 0; i < w.size(); ++i) { CHECK(bool(got[i]), "imap.envelope", "%s: not a mailbox", what); std::string e = got[i]->getEmail().toString(); CHECK(e == w[i].local + "@" + w[i].domain, "imap.envelope", "%s: address \"%s\", the server sent \"%s@%s\"", what, e.c_str(), w[i].local.c_str(), w[i].domain.c_str()); std::string n = utf8(got[i]->getName()); CHECK(n == w[i].name, "imap.envelope", "%s: name \"%s\", the server sent \"%s\"", what, esc(n).c_str(), esc(w[i].name).c_str()); }
}
void cmp_env(const vmime::header& h, const ImapEnv& e) {
	cmp_addr("From", h.findField("From"), e.from, true); cmp_addr("To", h.findField("To"), e.to, false); cmp_addr("Cc", h.findField("Cc"), e.cc, false); cmp_addr("Bcc", h.findField("Bcc"), e.bcc, false); cmp_addr("Reply-To", h.findField("Reply-To"), e.reply_to, false); cmp_addr("Sender", h.findField("Sender"), e.sender, true);
	auto s = h.findField("Subject"); CHECK(bool(s), "imap.envelope", "no subject"); std::string st = utf8(*s->getValue<vmime::text>()); CHECK(st == e.subject, "imap.envelope", "subject \"%s\", the server sent \"%s\"", esc(st).c_str(), esc(e.subject).c_str());
	auto d = h.findField("Date"); CHECK(bool(d), "imap.envelope", "no date"); vmime::datetime dt(e.date); CHECK(*d->getValue<vmime::datetime>() == dt, "imap.envelope", "date %s, the server sent %s", d->getValue()->generate().c_str(), e.date.c_str());
	auto i = h.findField("Message-Id"); CHECK(bool(i), "imap.envelope", "no message identifier"); CHECK(i->getValue()->generate() == e.msgid, "imap.envelope", "message identifier %s, the server sent %s", i->getValue()->generate().c_str(), e.msgid.c_str());
	auto r = h.findField("In-Reply-To"); CHECK(bool(r) == !e.inreplyto.empty(), "imap.envelope", "In-Reply-To: %d", int(bool(r))); if (r) { std::string g; auto q = vmime::dynamicCast<const vmime::messageIdSequence>(r->getValue()); for (auto& x : q->getMessageIdList()) g += (g.empty() ? "" : " ") + x->generate(); CHECK(g == e.inreplyto, "imap.envelope", "In-Reply-To \"%s\", the server sent \"%s\"", esc(g).c_str(), e.inreplyto.c_str()); }
}
void cmp_struct(shared_ptr<vn::messagePart> p, const Mime& m, size_t num, const std::string& path) {
	std::string ty = p->getType().getType() + "/" + p->getType().getSubType(); CHECK(lower(ty) == m.type + "/" + m.sub, "imap.structure", "part %s: type %s, the server sent %s/%s", path.c_str(), ty.c_str(), m.type.c_str(), m.sub.c_str()); CHECK(p->getNumber() == num, "imap.structure", "part %s has number %zu", path.c_str(), p->getNumber());
	if (!m.multi()) { CHECK(p->getSize() == m.body.size(), "imap.structure.size", "part %s: size %zu, the server sent %zu", path.c_str(), p->getSize(), m.body.size()); CHECK(p->getName() == m.name, "imap.structure.name", "part %s: name \"%s\", the server sent \"%s\"", path.c_str(), esc(p->getName()).c_str(), esc(m.name).c_str()); if (!m.disp.empty()) CHECK(lower(p->getDisposition().getName()) == m.disp, "imap.structure", "part %s: disposition \"%s\", the server sent \"%s\"", path.c_str(), p->getDisposition().getName().c_str(), m.disp.c_str()); }
	CHECK(p->getPartCount() == m.kids.size(), "imap.structure", "part %s has %zu parts, the server sent %zu", path.c_str(), p->getPartCount(), m.kids.size()); for (size_t i = 0; i < m.kids.size(); ++i) cmp_struct(p->getPartAt(i), *m.kids[i], i, path + fmt(".%zu", i + 1));
}
struct PartAt { shared_ptr<vn::messagePart> p; const Mime* m; };
void flatten(shared_ptr<vn::messagePart> p, const Mime* m, std::vector<PartAt>& v) { v.push_back({p, m}); for (size_t i = 0; i < m->kids.size() && i < p->getPartCount(); ++i) flatten(p->getPartAt(i), m->kids[i].get(), v); }
void cmp_parsed(const vmime::bodyPart& b, const Mime& m, const std::string& path, bool top) {
	std::string a = canon(*b.getHeader()), w = canon_hdr(m.hdr); CHECK(a == w, "imap.parsed.header", "part %s of the parsed message has another header: %s", path.c_str(), diff_at(a, w).c_str());
	CHECK(b.getBody()->getPartCount() == m.kids.size(), "imap.parsed.parts", "part %s of the parsed message has %zu parts, the stored one %zu", path.c_str(), b.getBody()->getPartCount(), m.kids.size());
	for (size_t i = 0; i < m.kids.size(); ++i) cmp_parsed(*b.getBody()->getPartAt(i), *m.kids[i], path + fmt(".%zu", i + 1), false); (void) top;
}
const Mime* leaf_of(const vmime::bodyPart& b, const Mime& m, shared_ptr<const vmime::contentHandler>& h, u32 k) { if (m.kids.empty()) { h = b.getBody()->getContents(); return &m; } u32 i = k % u32(m.kids.size()); return leaf_of(*b.getBody()->getPartAt(i), *m.kids[i], h, k / 3); }
void check_values(Obj& o) {
	const ImapMsg& w = *o.ref; auto m = o.m;
	if (o.attr & FA::SIZE) CHECK(m->getSize() == (w.claim ? w.claim : w.data.size()), "imap.size", "size %zu, the server said %zu", m->getSize(), w.claim ? w.claim : w.data.size());
	if (o.attr & FA::UID) CHECK(std::string(m->getUID()) == fmt("%llu", (unsigned long long) w.uid), "imap.uid", "uid \"%s\", the server said %llu", std::string(m->getUID()).c_str(), (unsigned long long) w.uid);
	if ((o.attr & FA::UID) && g_imap->cfg.caps.count("CONDSTORE")) { }
	if (o.attr & FA::STRUCTURE) { CHECK(m->getStructure()->getPartCount() == 1, "imap.structure", "%zu root parts", m->getStructure()->getPartCount()); cmp_struct(m->getStructure()->getPartAt(0), *w.root, 0, "root"); }
	if (o.attr & FA::FULL_HEADER) { std::string a = canon(*m->getHeader()), b = canon_hdr(w.root->hdr); CHECK(a == b, "imap.header", "header differs: %s", diff_at(a, b).c_str()); }
	else {
		if (o.attr & FA::ENVELOPE) cmp_env(*m->getHeader(), w.root->env);
		std::vector<std::string> names(o.custom.begin(), o.custom.end()); if (o.attr & FA::IMPORTANCE) { names.push_back("Importance"); names.push_back("X-Priority"); }
		if (!names.empty()) { vmime::header h; h.parse(w.root->hdr); for (auto& n : names) { auto x = h.findAllFields(n), y = vmime::constCast<vmime::header>(m->getHeader())->findAllFields(n); CHECK(x.size() == y.size(), "imap.fields", "%zu fields %s, the message has %zu", y.size(), n.c_str(), x.size()); for (size_t i = 0; i < x.size(); ++i) CHECK(x[i]->getValue()->generate() == y[i]->getValue()->generate(), "imap.fields", "field %s differs", n.c_str()); } }
	}
}
// one retrieval; returns false when the operation failed
bool retrieve(Fold& F, bool faults) {
	auto f = F.f; size_t cnt = F.ss->view.size(); if (!cnt) return false; size_t n = 1 + choose(u32(cnt), "which"); size_t oi = size_t(F.get(n) - F.objs.data()); auto m = F.objs[oi].m; ImapMsgP ref = F.objs[oi].ref; const std::string& data = ref->data; int rj = g_imap->rejections;
	auto excuse = [&](const ImapMsgP& r) { return faults || g_imap->rejections != rj || r->gone || g_imap->passages.count("badsection"); };
	switch (weighted({25, 30, 20, 12, 13}, "what")) {
		case 0: {   // whole message, or a range of it
			size_t start = 0, len = size_t(-1); if (chance(450, "range")) { start = chance(500, "start") ? sized(u32(data.size()) + 3, "start.at") : 0; if (chance(600, "len?")) len = sized(u32(data.size()) + 3, "len"); } bool peek = chance(500, "peek"); Sink s; if (faults && chance(150, "sink.fail?")) s.fail_at = sized(u32(data.size()), "sink.fail"); Progress p; bool up = chance(400, "prog");
			Out o = call(fmt("extract(%zu, %zu+%zd)", n, start, ssize_t(len)), [&] { m->extract(s, up ? &p : nullptr, start, len, peek); });
			if (o.ok) { std::string want = start >= data.size() ? "" : data.substr(start, len); CHECK(!s.failed, "imap.sink_error_swallowed", "extract() returned normally although writing its output failed"); CHECK(s.d == want, "imap.content", "extract(%zu, %zu, %zd) delivered something else than the stored bytes: %s", n, start, ssize_t(len), diff_at(s.d, want).c_str()); if (up && p.calls) CHECK(p.bad.empty(), "imap.progress", "progress listener: %s", p.bad.c_str()); nontrivial(); return true; }
			CHECK(excuse(ref) || s.failed, "imap.extract.failed", "extract() failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); if (F.ss->st == ImapSess::SELECTED && ref->gone && !faults && g_imap->rejections == rj) CHECK(o.cmd || o.type.find("message_not_found") != std::string::npos, "imap.extract.err", "extracting a vanished message surfaced as %s", o.type.c_str()); return false;
		}
		case 1: {
			std::vector<size_t> idx = {oi}; bool multi = chance(500, "multi"); if (multi) { u32 k = choose(4, "more"); for (u32 i = 0; i < k; ++i) { size_t q = size_t(F.get(1 + choose(u32(F.ss->view.size()), "which")) - F.objs.data()); bool dup = false; for (size_t x : idx) if (F.objs[x].ref == F.objs[q].ref) dup = true; if (!dup) idx.push_back(q); } }
			FA at; int bits = 0; for (int b : {int(FA::ENVELOPE), int(FA::STRUCTURE), int(FA::FLAGS), int(FA::SIZE), int(FA::FULL_HEADER), int(FA::UID), int(FA::IMPORTANCE)}) if (chance(b == FA::FULL_HEADER ? 200 : 350, "attr")) bits |= b; if (!bits) bits = FA::SIZE; std::set<std::string> cust; for (int b : {1, 2, 4, 8, 16, 32, 64, 128}) if (bits & b) at.add(FA::PredefinedFetchAttributes(b)); if (chance(500, "peek")) at.add(FA::PEEK); if (chance(150, "custom")) { cust.insert("X-Custom"); at.add("X-Custom"); if (chance(300, "custom2")) { cust.insert("Received"); at.add("Received"); } }
			bool anygone = false; Progress p; std::vector<Obj> got; Out o;
			if (chance(350, "getandfetch")) {
				std::vector<size_t> ns; std::vector<vn::message::uid> us; std::set<u64> su; for (size_t i : idx) { ns.push_back(F.objs[i].m->getNumber()); su.insert(F.objs[i].ref->uid); } bool byuid = chance(400, "byuid"); for (u64 u : su) us.push_back(vn::message::uid(fmt("%llu", (unsigned long long) u))); std::sort(ns.begin(), ns.end()); if (byuid && chance(300, "missinguid")) us.push_back(vn::message::uid(chance(500, "missing.big") ? "4294967295" : "77777"));
				auto view = F.ss->view; std::vector<shared_ptr<vn::message>> v; o = call(fmt("getAndFetchMessages(%zu, %x)", ns.size(), bits), [&] { v = f->getAndFetchMessages(byuid ? vn::messageSet::byUID(us) : vn::messageSet::byNumber(ns), at); });
				for (size_t i : idx) if (F.objs[i].ref->gone) anygone = true;
				if (o.ok) {
					if (!anygone && !faults) CHECK(v.size() == idx.size(), "imap.getandfetch.count", "getAndFetchMessages() returned %zu messages for %zu existing ones", v.size(), idx.size());
					for (auto& x : v) { std::string u = std::string(x->getUID()); ImapMsgP r; for (size_t i : idx) if (fmt("%llu", (unsigned long long) F.objs[i].ref->uid) == u) r = F.objs[i].ref; CHECK(bool(r), "imap.getandfetch.other", "getAndFetchMessages() returned a message with uid \"%s\" that was not asked for", u.c_str()); Obj q{x, r}; q.attr = bits | FA::UID; q.custom = cust; got.push_back(q); }
				}
				for (auto& q : got) F.objs.push_back(q);
			} else {
				std::vector<shared_ptr<vn::message>> v; for (size_t i : idx) v.push_back(F.objs[i].m); std::vector<std::pair<shared_ptr<vn::message>, std::string>> dead; auto look = [](vn::message& x) { std::string k = x.getUID(); try { k += fmt(" size %zu", x.getSize()); } catch (vmime::exceptions::unfetched_object&) {} try { k += fmt(" flags %d", x.getFlags()); } catch (vmime::exceptions::unfetched_object&) {} try { k += canon(*x.getHeader()); } catch (vmime::exceptions::unfetched_object&) {} return k; };
				if (multi && chance(600, "withdead")) for (auto& x : F.objs) if (x.m->isExpunged()) { dead.push_back({x.m, look(*x.m)}); v.insert(v.begin() + long(choose(u32(v.size()) + 1, "dead.pos")), x.m); count("imap.fetch_with_expunged"); }
				o = call(fmt("fetch(%zu messages, %x)", v.size(), bits), [&] { if (multi) f->fetchMessages(v, at, chance(500, "prog") ? &p : nullptr); else f->fetchMessage(m, at); });
				for (auto& x : dead) CHECK(look(*x.first) == x.second, "imap.expunged.changed", "an expunged message object got the attributes of another message: \"%s\" became \"%s\"", esc(x.second).c_str(), esc(look(*x.first)).c_str());
				for (size_t i : idx) if (F.objs[i].ref->gone) anygone = true;
				if (o.ok) for (size_t i : idx) { Obj& q = F.objs[i]; if (q.ref->gone) continue; q.attr |= bits; for (auto& x : cust) q.custom.insert(x); got.push_back(q); }
			}
			// header data is shared by all objects of a message: only what was fetched last is known
			const int HB = FA::ENVELOPE | FA::FULL_HEADER | FA::IMPORTANCE; if ((bits & HB) || !cust.empty()) { for (auto& x : F.objs) for (size_t i : idx) if (x.ref == F.objs[i].ref) { x.attr &= ~HB; x.custom.clear(); } for (auto& q : got) { q.attr = (q.attr & ~HB) | (bits & HB); q.custom = cust; } }
			if (!o.ok) { CHECK(faults || anygone || g_imap->rejections != rj, "imap.fetch.failed", "fetch failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); return false; }
			CHECK(g_imap->rejections == rj || g_imap->any_late || faults, "imap.fetch.refused_ok", "fetch returned normally although the server refused the command");
			for (auto& q : got) check_values(q);
			nontrivial(); return true;
		}
		case 2: {   // parts
			if (!(F.objs[oi].attr & FA::STRUCTURE)) { Out o = call("fetch structure", [&] { f->fetchMessage(m, FA(FA::STRUCTURE)); }); if (!o.ok) { CHECK(excuse(ref), "imap.fetch.failed", "fetch of the structure failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); return false; } if (ref->gone) return false; F.objs[oi].attr |= FA::STRUCTURE; }
			std::vector<PartAt> v; flatten(m->getStructure()->getPartAt(0), ref->root.get(), v); PartAt& p = v[choose(u32(v.size()), "part")]; bool root = p.m == ref->root.get(); std::string all = root ? data : p.m->hdr + p.m->body;
			if (chance(250, "parthdr")) { Out o = call("fetchPartHeader", [&] { m->fetchPartHeader(p.p); }); if (!o.ok) { CHECK(excuse(ref), "imap.fetch.failed", "fetchPartHeader() failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); return false; } std::string a = canon(*p.p->getHeader()), b = canon_hdr(p.m->hdr); CHECK(a == b, "imap.partheader", "part header differs: %s", diff_at(a, b).c_str()); nontrivial(); return true; }
			size_t start = 0, len = size_t(-1); if (chance(450, "range")) { start = chance(500, "start") ? sized(u32(all.size()) + 3, "start.at") : 0; if (chance(600, "len?")) len = sized(u32(all.size()) + 3, "len"); } bool peek = chance(500, "peek"); Sink s; if (faults && chance(150, "sink.fail?")) s.fail_at = sized(u32(all.size()), "sink.fail");
			Out o = call(fmt("extractPart(%zu, %zu+%zd)", n, start, ssize_t(len)), [&] { m->extractPart(p.p, s, nullptr, start, len, peek); });
			if (!o.ok) { CHECK(excuse(ref) || s.failed, "imap.extract.failed", "extractPart() failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); return false; }
			std::string want = start >= all.size() ? "" : all.substr(start, len); CHECK(!s.failed, "imap.sink_error_swallowed", "extractPart() returned normally although writing its output failed"); CHECK(s.d == want, "imap.partcontent", "extractPart() delivered something else than the stored part: %s", diff_at(s.d, want).c_str()); nontrivial(); return true;
		}
		case 3: {
			shared_ptr<vmime::message> pm; Out o = call(fmt("getParsedMessage(%zu)", n), [&] { pm = m->getParsedMessage(); }); if (!o.ok) { CHECK(excuse(ref), "imap.extract.failed", "getParsedMessage() failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); return false; }
			F.objs[oi].attr |= FA::STRUCTURE; cmp_parsed(*pm, *ref->root, "root", true); shared_ptr<const vmime::contentHandler> h; const Mime* lf = leaf_of(*pm, *ref->root, h, choose(81, "leaf")); Sink s; bool raw = chance(500, "raw"); bool gen = !raw && chance(500, "gen"), own = gen && chance(300, "own.enc") && !lf->cte.empty(); std::string to = gen ? own ? lf->cte : oneof<std::string>({"base64", "quoted-printable", "binary"}, "gen.enc") : ""; Progress pg; vmime::utility::progressListener* pl = !gen && chance(400, "progress") ? &pg : nullptr; o = call("contents", [&] { if (gen) h->generate(s, vmime::encoding(to), oneof<size_t>({76, 78, 998, 24}, "maxlen")); else if (raw) h->extractRaw(s, pl); else h->extract(s, pl); });
			if (!o.ok) { CHECK(excuse(ref), "imap.extract.failed", "reading the contents of a part failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); return false; }
			if (pl) CHECK(pg.bad.empty() && pg.st == 2, "imap.parsed.progress", "%s", pg.bad.empty() ? pg.st ? "stop() was never called" : "no progress at all" : pg.bad.c_str()); if (gen && own && lf->cte != "base64") raw = true; else if (gen) { if (to == "base64") s.d = unb64(s.d); else if (to == "quoted-printable") s.d = unqp(s.d); count("imap.parsed.recoded"); } std::string want = lf->body; if (!raw && lf->cte == "base64") want = unb64(lf->body); CHECK(s.d == want, "imap.parsed.content", "contents of a part of the parsed message differ: %s", diff_at(s.d, want).c_str()); nontrivial(); return true;
		}
		default: {
			size_t i = choose(u32(cnt), "startuid"); u64 u = F.ss->view[i]->uid; std::vector<size_t> v, want; auto view = F.ss->view; Out o = call("getMessageNumbersStartingOnUID", [&] { v = f->getMessageNumbersStartingOnUID(vn::message::uid(fmt("%llu", (unsigned long long) u))); });
			if (!o.ok) { CHECK(faults || g_imap->rejections != rj, "imap.search.failed", "getMessageNumbersStartingOnUID() failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); return false; }
			std::sort(v.begin(), v.end()); for (size_t k = 0; k < view.size(); ++k) if (view[k]->uid >= u && (!view[k]->gone || g_imap->cfg.retain)) want.push_back(k + 1); if (!g_imap->cfg.crowd && !faults) CHECK(v == want, "imap.startuid", "getMessageNumbersStartingOnUID(%llu) found %zu messages, there are %zu", (unsigned long long) u, v.size(), want.size()); nontrivial(); return true;
		}
	}
}
ImapRej draw_rej(std::vector<std::string> cmds) { ImapRej r; r.cmd = oneof(cmds, "rej.cmd"); r.nth = int(sized(4, "rej.nth")); r.sticky = chance(150, "rej.sticky"); r.bad = chance(250, "rej.bad"); if (chance(200, "rej.late")) r.delay = 45000000; else if (chance(200, "rej.drop")) r.drop = true; else r.late_data = chance(400, "rej.latedata"); return r; }
void vclose(Cl& c) { if (c.st->isConnected() && chance(800, "end.disconnect")) { Out o = call("disconnect", [&] { c.st->disconnect(); }); CHECK(o.ok, "imap.disconnect.failed", "disconnect() threw: %s %s", o.type.c_str(), o.what.c_str()); } c.st = vmime::null; c.sess = vmime::null; }
}
SCENARIO(I01, retrieve, 10) {
	ImapCfg cfg = draw_imap(); cfg.implicit_tls = chance(100, "imaps"); if (chance(150, "crowd?")) cfg.crowd = 100; setup(cfg, false, 5); app_init(); Cl c; c.make(cfg.implicit_tls ? "imaps://mail.example.com" : "imap://mail.example.com"); c.st->setTimeoutHandlerFactory(to_factory(ToCfg{600000000, 0, chance(300, "to.none")}));
	Out o = call("connect", [&] { c.st->connect(); }); CHECK(o.ok, "imap.connect.failed", "connect() failed against a healthy server: %s %s", o.type.c_str(), o.what.c_str());
	Fold F; F.open(c.st, "INBOX", chance(300, "ro") ? vn::folder::MODE_READ_ONLY : vn::folder::MODE_READ_WRITE, true); F.view_check("open"); u32 n = 1 + sized(7, "ops");
	for (u32 i = 0; i < n; ++i) { retrieve(F, false); F.view_check("retrieval"); g_imap->passages.erase("badsection"); if (chance(100, "noop")) { o = call("noop", [&] { vmime::dynamicCast<vi::IMAPFolder>(F.f)->noop(); }); CHECK(o.ok, "imap.noop", "noop failed: %s", o.what.c_str()); F.view_check("noop"); } }
	if (F.ss->view.empty()) nontrivial(); size_t before = g_imap->box("INBOX")->msgs.size(); if (chance(800, "close")) { o = call("close", [&] { F.f->close(false); }); CHECK(o.ok, "imap.close.failed", "close() failed: %s %s", o.type.c_str(), o.what.c_str()); } F.drop(); vclose(c); advance(60000000); CHECK(cfg.crowd || g_imap->box("INBOX")->msgs.size() == before, "imap.lost", "messages were removed although none was deleted"); finish_checks();
}
// several threads, each with a session, a store and a folder of its own
SCENARIO(I01, threads, 3) {
	ImapCfg cfg = draw_imap(); cfg.crowd = 0; setup(cfg, false, 4); app_init(); u32 nt = 2 + choose(2, "threads"), g = oneof<u32>({0, 20, 300, 5000, 50000}, "bb.gap"); std::vector<std::unique_ptr<Cl>> cs; std::vector<std::unique_ptr<Fold>> fs; std::vector<u32> k;
	for (u32 i = 0; i < nt; ++i) { cs.emplace_back(new Cl); cs[i]->make(); cs[i]->st->setTimeoutHandlerFactory(to_factory(ToCfg{600000000, 0, chance(300, "to.none")})); Out o = call("connect", [&] { cs[i]->st->connect(); }); CHECK(o.ok, "imap.connect.failed", "connect() failed against a healthy server: %s %s", o.type.c_str(), o.what.c_str()); fs.emplace_back(new Fold); fs[i]->open(cs[i]->st, "INBOX", chance(300, "ro") ? vn::folder::MODE_READ_ONLY : vn::folder::MODE_READ_WRITE, true); fs[i]->view_check("open"); k.push_back(1 + choose(g && g < 500 ? 2 : 5, "ops")); }
	for (u32 i = 0; i < nt; ++i) spawn(fmt("thread%u", i), [&, i] { Fold& F = *fs[i]; for (u32 j = 0; j < k[i]; ++j) { if (!F.ss->view.empty()) retrieve(F, false); else { Out o = call("noop", [&] { vmime::dynamicCast<vi::IMAPFolder>(F.f)->noop(); }); CHECK(o.ok, "imap.noop", "noop failed: %s", o.what.c_str()); } F.view_check("retrieval"); } });
	if (g) set_bb_preempt(g); else set_preempt(oneof<u32>({50, 300, 800}, "preempt")); join_all(); set_bb_preempt(0); set_preempt(0); g_imap->passages.erase("badsection"); nontrivial();
	for (auto& f : fs) f->drop(); for (auto& c : cs) vclose(*c); advance(60000000); finish_checks();
}
SCENARIO(I01, faults, 10) {
	ImapCfg cfg = draw_imap(); bool nf = chance(550, "net?"); u32 nr = nf ? 0 : 1 + choose(2, "rej.n"); for (u32 i = 0; i < nr; ++i) cfg.rej.push_back(draw_rej({"FETCH", "UID FETCH", "SELECT", "SEARCH", "LOGIN", "LIST", "CAPABILITY", "NOOP", "CLOSE"})); setup(cfg, nf, 4);
	if (nf) { NetCfg::Cut k; k.conn = int(weighted({20, 70, 10}, "cut.conn")); k.dir = chance(850, "cut.dir") ? 0 : 1; k.at = k.dir ? sized(400, "cut.at") : chance(500, "cut.deep") ? sized(40000, "cut.at") : sized(1500, "cut.at"); k.kind = 1 + int(choose(3, "cut.kind")); if (k.kind == 3 && chance(400, "cut.heal")) k.heal = oneof<u64>({1000000, 25000000, 40000000, 100000000}, "cut.healt"); g_net.cuts.push_back(k); }
	app_init(); Cl c; c.make(); ToCfg tc; tc.limit = 30000000; tc.continues = int(choose(3, "to.cont")); c.st->setTimeoutHandlerFactory(to_factory(tc)); Fold F; u32 n = 1 + sized(7, "ops");
	for (u32 i = 0; i < n; ++i) {
		if (!c.st->isConnected()) { F.drop(); if (i && !chance(700, "reconnect")) break; call("connect", [&] { c.st->connect(); }); if (!c.st->isConnected()) continue; }
		if (!F.f) { if (!F.open(c.st, "INBOX", vn::folder::MODE_READ_ONLY, false)) continue; F.view_check("open"); }
		if (!retrieve(F, true)) { if (!F.ss->conn() || chance(500, "giveup")) F.drop(); }
		g_imap->passages.erase("badsection");
		if (chance(150, "pause")) advance(oneof<u64>({1000000, 60000000}, "pause.t"));
	}
	g_imap->cfg.rej.clear(); g_net = NetCfg(); advance(100000000); F.drop();
	for (int i = 0; i < 2; ++i) {
		if (!c.st->isConnected()) { Out o = call("connect", [&] { c.st->connect(); }); CHECK(o.ok, "imap.reconnect.failed", "connect() failed after the faults stopped: %s %s", o.type.c_str(), o.what.c_str()); }
		if (!F.open(c.st, "INBOX", vn::folder::MODE_READ_ONLY, i == 1)) { continue; } F.view_check("open");
		for (int k = 0; k < 2; ++k) { retrieve(F, false); F.view_check("retrieval"); g_imap->passages.erase("badsection"); } F.drop();
		if (i == 0 && c.st->isConnected() && chance(500, "cycle")) call("disconnect", [&] { c.st->disconnect(); });
	}
	vclose(c); advance(60000000); finish_checks();
}
namespace {
typedef std::map<ImapMsg*, std::set<std::string>> Snap;
Snap snap() { Snap s; for (auto& b : g_imap->boxes) for (auto& m : b->msgs) s[m.get()] = m->flags; return s; }
std::vector<std::vector<ImapMsgP>> boxes_now() { std::vector<std::vector<ImapMsgP>> v; for (auto& b : g_imap->boxes) v.push_back(b->msgs); return v; }
// a set of messages in one of the forms the API offers, and the messages it means in the view of the client
vn::messageSet draw_set(Fold& F, std::vector<ImapMsgP>& want, bool allow_bad, bool& byuid) {
	auto& v = F.ss->view; size_t n = v.size(); byuid = chance(400, "set.uid"); auto uid = [](u64 u) { return vn::message::uid(fmt("%llu", (unsigned long long) u)); };
	switch (weighted({30, 20, 15, 35}, "set.form")) {
		case 0: { size_t i = choose(u32(n), "set.i"); want = {v[i]}; return byuid ? vn::messageSet::byUID(uid(v[i]->uid)) : vn::messageSet::byNumber(i + 1); }
		case 1: { size_t a = choose(u32(n), "set.i"), b = a + choose(u32(n - a), "set.j"); want.assign(v.begin() + long(a), v.begin() + long(b) + 1); return byuid ? vn::messageSet::byUID(uid(v[a]->uid), uid(v[b]->uid)) : vn::messageSet::byNumber(a + 1, b + 1); }
		case 2: { size_t a = choose(u32(n), "set.i"); want.assign(v.begin() + long(a), v.end()); byuid = false; return vn::messageSet::byNumber(a + 1, size_t(-1)); }
		default: { std::set<size_t> s; u32 k = 1 + choose(4, "set.n"); for (u32 i = 0; i < k; ++i) s.insert(choose(u32(n), "set.i")); std::vector<size_t> ns; std::vector<vn::message::uid> us; for (size_t i : s) { ns.push_back(i + 1); us.push_back(uid(v[i]->uid)); want.push_back(v[i]); } if (byuid && allow_bad && chance(150, "set.unknown")) us.push_back(uid(90000)); if (chance(300, "set.reverse")) { std::reverse(us.begin(), us.end()); if (chance(200, "set.revnum")) std::reverse(ns.begin(), ns.end()); } return byuid ? vn::messageSet::byUID(us) : vn::messageSet::byNumber(ns); }
	}
}
std::string imap_date(const vmime::datetime& d) { static const char* M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; int z = d.getZone(); return fmt("%2d-%s-%04d %02d:%02d:%02d %c%02d%02d", d.getDay(), M[d.getMonth() - 1], d.getYear(), d.getHour(), d.getMinute(), d.getSecond(), z < 0 ? '-' : '+', std::abs(z) / 60, std::abs(z) % 60); }
// one modification; exact: nobody else is active, so the server must hold exactly what the call says
void mutate(Fold& F, bool exact, bool ro) {
	auto f = F.f; size_t cnt = F.ss->view.size(); auto before = snap(); auto boxes = boxes_now(); int rj = g_imap->rejections; g_imap->stored.clear(); g_imap->removed.clear(); auto inbox = g_imap->box("INBOX"); u64 ch0 = g_imap->changes; bool late0 = g_imap->any_late;
	auto unchanged = [&](const char* what) { if (!exact || g_imap->any_late) return; CHECK(g_imap->changes == ch0, "imap.refused_but_done", "%s threw, but the server's mailboxes changed", what); };
	auto refused = [&] { return g_imap->rejections != rj || g_imap->any_late != late0; };
	auto gone = [&](const std::vector<ImapMsgP>& w) { for (auto& m : w) if (m->gone) return true; return false; };
	auto stored_ok = [&](const std::vector<ImapMsgP>& want, bool ok) { for (auto& m : g_imap->stored) CHECK(std::find(want.begin(), want.end(), m) != want.end(), "imap.store.other", "flags of the message with uid %llu were changed, which was not asked for", (unsigned long long) m->uid); if (ok) for (auto& m : want) if (!m->gone) CHECK(std::find(g_imap->stored.begin(), g_imap->stored.end(), m) != g_imap->stored.end(), "imap.store.missed", "flags of the message with uid %llu were not changed although the call succeeded", (unsigned long long) m->uid); };
	auto flags_after = [&](const std::vector<ImapMsgP>& want, const std::set<std::string>& fl, int mode) { if (exact) for (auto& b : g_imap->boxes) for (auto& m : b->msgs) { auto x = before[m.get()]; if (std::find(want.begin(), want.end(), m) != want.end()) { if (mode == NM::FLAG_MODE_SET) x = fl; else if (mode == NM::FLAG_MODE_ADD) x.insert(fl.begin(), fl.end()); else for (auto& q : fl) x.erase(q); } CHECK(m->flags == x, "imap.store.result", "flags of the message with uid %llu are %x, they should be %x", (unsigned long long) m->uid, flagbits(m->flags), flagbits(x)); } };
	switch (weighted({30, 20, 14, 10, 14, 12}, "mut")) {
		case 0: case 1: {
			if (!cnt) break; std::vector<ImapMsgP> want; int fl = draw_flags(), mode = int(oneof<int>({NM::FLAG_MODE_SET, NM::FLAG_MODE_ADD, NM::FLAG_MODE_REMOVE}, "mode")); bool byuid = false; Out o; nontrivial();
			if (chance(400, "viaobj")) { size_t oi = size_t(F.get(1 + choose(u32(cnt), "which")) - F.objs.data()); auto m = F.objs[oi].m; want = {F.objs[oi].ref}; byuid = !m->getUID().empty(); o = call(fmt("message.setFlags(%x, %d)", fl, mode), [&] { m->setFlags(fl, mode); }); }
			else { auto s = draw_set(F, want, true, byuid); o = call(fmt("setMessageFlags(%x, %d)", fl, mode), [&] { f->setMessageFlags(s, fl, mode); }); }
			bool nop = mode != NM::FLAG_MODE_SET && !fl;
			if (o.ok) { CHECK(!(ro && !nop), "imap.ro.store", "flags were reported as changed in a folder opened read-only"); CHECK(!refused() || g_imap->any_late, "imap.store.refused_ok", "setting flags returned normally although the server refused"); if (!nop) stored_ok(want, true); else CHECK(g_imap->stored.empty(), "imap.store.other", "flags changed by an empty request"); flags_after(want, flagset(fl), mode); }
			else { CHECK(ro || refused() || (!byuid && gone(want)), "imap.store.failed", "setting flags failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); stored_ok(want, false); unchanged("setting flags"); }
			break;
		}
		case 2: {
			if (!cnt) break; std::vector<ImapMsgP> want; bool byuid; auto s = draw_set(F, want, true, byuid); Out o = call("deleteMessages", [&] { f->deleteMessages(s); }); nontrivial();
			if (o.ok) { CHECK(!ro, "imap.ro.delete", "messages were reported as deleted in a folder opened read-only"); CHECK(!refused() || g_imap->any_late, "imap.store.refused_ok", "deleting returned normally although the server refused"); stored_ok(want, true); flags_after(want, {"\\Deleted"}, NM::FLAG_MODE_ADD); }
			else { CHECK(ro || refused() || (!byuid && gone(want)), "imap.delete.failed", "deleteMessages() failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); stored_ok(want, false); unchanged("deleteMessages()"); } break;
		}
		case 3: {
			std::set<ImapMsg*> del; for (auto& m : inbox->msgs) if (m->flags.count("\\Deleted")) del.insert(m.get()); Out o = call("expunge", [&] { f->expunge(); }); nontrivial();
			if (o.ok) { CHECK(!ro, "imap.ro.expunge", "expunge() succeeded in a folder opened read-only"); CHECK(!refused() || g_imap->any_late, "imap.expunge.refused_ok", "expunge() returned normally although the server refused"); if (exact) { for (auto& m : inbox->msgs) CHECK(!del.count(m.get()), "imap.expunge.missed", "a message marked as deleted is still there after expunge()"); CHECK(g_imap->removed.size() == del.size(), "imap.expunge.count", "%zu messages removed, %zu were marked as deleted", g_imap->removed.size(), del.size()); } }
			else { CHECK(ro || refused(), "imap.expunge.failed", "expunge() failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); unchanged("expunge()"); } break;
		}
		case 4: {
			Rng r = subrng("append"); std::string data = imap_msg(oneof<size_t>({100, 2000, 30000}, "append.len"))->data; if (g_net.seg == 1 || g_net.rxmax || g_net.sndcap < 200) data.resize(std::min<size_t>(data.size(), 2000)); if (chance(150, "append.8bit")) data += gen_bytes(r, r.below(300), 0); if (chance(60, "append.empty")) data.clear();
			int fl = chance(300, "append.defflags") ? -1 : draw_flags(); vmime::datetime dt(2000 + int(choose(40, "y")), 1 + int(choose(12, "mo")), 1 + int(choose(28, "d")), int(choose(24, "h")), int(choose(60, "mi")), int(choose(60, "s")), int(choose(25, "z")) * 60 - 720); bool usedt = chance(500, "append.date"); Progress p; bool up = chance(400, "prog"); vn::messageSet res = vn::messageSet::empty(); Out o; nontrivial();
			bool asmsg = chance(250, "append.msg"); std::string want = data; bool srcfail = false; auto last = inbox->msgs; g_imap->passages.erase("last.append.uid");
			if (asmsg) { auto pm = make_shared<vmime::message>(); pm->parse(data); std::ostringstream os; vmime::utility::outputStreamAdapter oa(os); pm->generate(oa); want = os.str(); o = call("addMessage(message)", [&] { res = f->addMessage(pm, fl, usedt ? &dt : nullptr, up ? &p : nullptr); }); }
			else { SrcCfg sc = draw_src(true, data.size()); if (sc.fail_at == ~0ull && !data.empty() && chance(100, "src.short")) sc.eof_at = sized(u32(data.size()) - 1, "src.eof"); std::string more = chance(70, "src.longer") ? "A9 NOOP\r\nmore than announced\r\n" : ""; Source src(data + more, sc); srcfail = sc.fail_at != ~0ull || sc.eof_at != ~0ull; o = call(fmt("addMessage(%zu bytes)", data.size()), [&] { res = f->addMessage(src, data.size(), fl, usedt ? &dt : nullptr, up ? &p : nullptr); }); srcfail = srcfail && (src.failed || sc.eof_at < data.size()); }
			std::vector<ImapMsgP> added; for (auto& m : inbox->msgs) if (std::find(last.begin(), last.end(), m) == last.end() && !m->root) added.push_back(m);
			if (o.ok) {
				CHECK(!ro, "imap.ro.append", "addMessage() succeeded in a folder opened read-only"); CHECK(!srcfail, "imap.append.source_error_swallowed", "addMessage() returned normally although its source failed"); CHECK(!refused() || g_imap->any_late, "imap.append.refused_ok", "addMessage() returned normally although the server refused"); CHECK(added.size() == 1, "imap.append.count", "%zu messages were added", added.size()); auto a = added[0]; CHECK(a->data == want, "imap.append.content", "the stored message differs from the submitted one: %s", diff_at(a->data, want).c_str()); CHECK(a->flags == flagset(fl == -1 ? 0 : fl), "imap.append.flags", "the stored message has flags %x instead of %x", flagbits(a->flags), fl); if (usedt) CHECK(a->idate == imap_date(dt), "imap.append.date", "the stored message has the date \"%s\" instead of \"%s\"", a->idate.c_str(), imap_date(dt).c_str());
				if (g_imap->cfg.caps.count("UIDPLUS")) { CHECK(res.isUIDSet(), "imap.append.uid", "no UID returned although the server gave one"); struct E : vn::messageSetEnumerator { std::string s; void enumerateNumberMessageRange(const vn::numberMessageRange&) override { s += "n"; } void enumerateUIDMessageRange(const vn::UIDMessageRange& r) override { s += std::string(r.getFirst()) + (r.getFirst() == r.getLast() ? "" : ":" + std::string(r.getLast())); } } e; res.enumerate(e); CHECK(e.s == fmt("%llu", (unsigned long long) a->uid), "imap.append.uid", "addMessage() returned UIDs %s, the server gave %llu", e.s.c_str(), (unsigned long long) a->uid); } else CHECK(res.isEmpty(), "imap.append.uid", "addMessage() returned UIDs the server never gave");
				if (up) CHECK(p.bad.empty() && p.st == 2, "imap.progress", "progress listener: %s", p.bad.empty() ? "never stopped" : p.bad.c_str());
				a->root = gen_mime(r, 0, "x", 3, true); a->data = a->root->all(); // give it a body the retrieval checks know about
			} else { CHECK(ro || refused() || srcfail, "imap.append.failed", "addMessage() failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); CHECK(added.empty() || g_imap->any_late, "imap.append.partial", "addMessage() threw, but the server stored a message%s", added[0]->data == want ? "" : " with other content"); if (ro) unchanged("addMessage()"); if (srcfail) { F.drop(); } }
			break;
		}
		default: {
			if (!cnt) break; std::vector<ImapMsgP> want; bool byuid; auto s = draw_set(F, want, false, byuid); std::string dest = oneof<std::string>({"Other", "Other", "INBOX", "Nowhere"}, "dest"); vn::messageSet res = vn::messageSet::empty(); auto db = g_imap->box(dest); auto last = db ? db->msgs : std::vector<ImapMsgP>(); Out o = call("copyMessages to " + dest, [&] { res = f->copyMessages(vn::folder::path(dest), s); }); nontrivial();
			std::vector<ImapMsgP> added; if (db) for (auto& m : db->msgs) if (std::find(last.begin(), last.end(), m) == last.end()) added.push_back(m);
			if (o.ok) {
				CHECK(db && (!refused() || g_imap->any_late), "imap.copy.refused_ok", "copyMessages() returned normally although the server refused"); if (exact) { CHECK(added.size() == want.size(), "imap.copy.count", "%zu messages were copied instead of %zu", added.size(), want.size()); for (size_t i = 0; i < want.size(); ++i) CHECK(added[i]->data == want[i]->data && added[i]->flags == want[i]->flags, "imap.copy.other", "another message was copied"); }
				if (g_imap->cfg.caps.count("UIDPLUS") && exact) { struct E : vn::messageSetEnumerator { std::vector<u64> s; void enumerateNumberMessageRange(const vn::numberMessageRange&) override { } void enumerateUIDMessageRange(const vn::UIDMessageRange& r) override { u64 a = strtoull(std::string(r.getFirst()).c_str(), nullptr, 10), b = strtoull(std::string(r.getLast()).c_str(), nullptr, 10); for (; a <= b; ++a) s.push_back(a); } } e; res.enumerate(e); std::vector<u64> w; for (auto& m : added) w.push_back(m->uid); CHECK(e.s == w, "imap.copy.uid", "copyMessages() returned %zu UIDs that differ from the ones the server gave", e.s.size()); }
			} else { CHECK(!db || refused() || gone(want), "imap.copy.failed", "copyMessages() failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); if (exact) unchanged("copyMessages()"); }
		}
	}
	for (auto& m : g_imap->removed) CHECK(m->flags.count("\\Deleted"), "imap.removed_other", "a message that was not marked as deleted was removed");
}
}
// what other clients do is seen by this one, at the right numbers
SCENARIO(I02, crowd, 10) {
	ImapCfg cfg = draw_imap(); cfg.crowd = oneof<u32>({300, 100, 700}, "crowd"); if (chance(250, "rej?")) { u32 nr = 1 + choose(2, "rej.n"); for (u32 i = 0; i < nr; ++i) { ImapRej r = draw_rej({"FETCH", "UID FETCH", "STORE", "UID STORE", "SEARCH", "NOOP", "STATUS", "EXPUNGE", "COPY", "CHECK"}); r.delay = 0; r.drop = false; cfg.rej.push_back(r); } } setup(cfg, false, 7); app_init(); Cl c; c.make(); c.st->setTimeoutHandlerFactory(to_factory(ToCfg{600000000, 0, chance(300, "to.none")}));
	size_t ml = oneof<size_t>({200, 1000}, "newlen"); g_imap->new_message = [ml] { return imap_msg(ml); };
	Out o = call("connect", [&] { c.st->connect(); }); CHECK(o.ok, "imap.connect.failed", "connect() failed against a healthy server: %s %s", o.type.c_str(), o.what.c_str()); bool ro = chance(150, "ro"); Fold F; F.open(c.st, "INBOX", ro ? vn::folder::MODE_READ_ONLY : vn::folder::MODE_READ_WRITE, true); F.view_check("open"); u32 n = 2 + sized(12, "ops"); int misses = 0;
	for (u32 i = 0; i < n; ++i) {
		if (!F.f) { F.open(c.st, "INBOX", ro ? vn::folder::MODE_READ_ONLY : vn::folder::MODE_READ_WRITE, true); F.view_check("open"); continue; }
		if (chance(200, "outside")) g_imap->crowd_act(); int rj = g_imap->rejections; (void) misses;
		switch (weighted({30, 25, 20, 10, 10, 5}, "op")) {
			case 0: retrieve(F, false); break;
			case 1: mutate(F, false, ro); break;
			case 2: o = call("noop", [&] { vmime::dynamicCast<vi::IMAPFolder>(F.f)->noop(); }); CHECK(o.ok || g_imap->rejections != rj, "imap.noop", "noop failed: %s", o.what.c_str()); break;
			case 3: if (!F.ss->view.empty()) F.get(1 + choose(u32(F.ss->view.size()), "which")); break;
			case 4: { size_t a = 0, b = 0; o = call("status", [&] { F.f->status(a, b); }); if (o.ok) { auto bx = g_imap->box("INBOX"); size_t u = 0; for (auto& m : bx->msgs) if (!m->flags.count("\\Seen")) ++u; CHECK(a == bx->msgs.size() && b == u, "imap.status", "status() says %zu messages, %zu unseen; the server has %zu, %zu", a, b, bx->msgs.size(), u); } else CHECK(g_imap->rejections != rj, "imap.status.failed", "status() failed: %s", o.what.c_str()); break; }
			default: { std::vector<shared_ptr<vn::message>> v; auto view = F.ss->view; o = call("getMessages(all)", [&] { v = F.f->getMessages(vn::messageSet::byNumber(1, size_t(-1))); }); if (!o.ok) break; for (auto& m : v) { ImapMsgP r; for (auto& x : view) if (fmt("%llu", (unsigned long long) x->uid) == std::string(m->getUID())) r = x; for (auto& x : F.ss->view) if (fmt("%llu", (unsigned long long) x->uid) == std::string(m->getUID())) r = x; CHECK(bool(r), "imap.getmessages.other", "getMessages() returned a message with the uid \"%s\"", std::string(m->getUID()).c_str()); F.objs.push_back(Obj{m, r, FA::UID, {}}); } }
		}
		if (F.f) F.view_check("the operation"); g_imap->passages.erase("badsection");
	}
	// everything settles: one NOOP that announces all that is left
	g_imap->cfg.crowd = 0; g_imap->cfg.eager = 1000; g_imap->cfg.rej.clear(); if (F.f) { for (int i = 0; i < 2; ++i) { o = call("noop", [&] { vmime::dynamicCast<vi::IMAPFolder>(F.f)->noop(); }); CHECK(o.ok, "imap.noop", "noop failed: %s", o.what.c_str()); F.view_check("the last noop"); } auto bx = g_imap->box("INBOX"); CHECK(F.f->getMessageCount() == bx->msgs.size(), "imap.view.final", "message count %zu, the mailbox has %zu", F.f->getMessageCount(), bx->msgs.size()); retrieve(F, false); F.view_check("retrieval"); }
	if (chance(700, "close") && F.f) { o = call("close", [&] { F.f->close(false); }); CHECK(o.ok, "imap.close.failed", "close() failed: %s", o.what.c_str()); for (auto& x : F.objs) { Out q = call("extract after close", [&] { Sink s; x.m->extract(s); }); CHECK(!q.ok, "imap.closed.extract", "a message of a closed folder was extracted"); } } F.drop(); vclose(c); advance(60000000); finish_checks();
}
// several folders of a store at the same time, and two clients on the same mailboxes: each folder shows its mailbox as its own connection announced it
SCENARIO(I02, several, 7) {
	ImapCfg cfg = draw_imap(); cfg.crowd = oneof<u32>({100, 0, 400}, "crowd"); setup(cfg, false, 5); app_init(); u32 nc = 1 + choose(2, "clients"); std::vector<std::unique_ptr<Cl>> cs; size_t ml = oneof<size_t>({200, 1000}, "newlen"); g_imap->new_message = [ml] { return imap_msg(ml); }; Out o;
	for (u32 i = 0; i < nc; ++i) { cs.emplace_back(new Cl); cs[i]->make(); cs[i]->st->setTimeoutHandlerFactory(to_factory(ToCfg{600000000, 0, chance(300, "to.none")})); o = call("connect", [&] { cs[i]->st->connect(); }); CHECK(o.ok, "imap.connect.failed", "connect() failed against a healthy server: %s %s", o.type.c_str(), o.what.c_str()); }
	struct P { u32 c; std::string box; bool ro; Fold f; }; std::vector<std::unique_ptr<P>> fs; for (u32 i = 0; i < nc; ++i) for (auto& b : g_imap->boxes) if (!b->noselect && (b->name == "INBOX" || b->name == "Other")) { fs.emplace_back(new P); fs.back()->c = i; fs.back()->box = b->name; fs.back()->ro = chance(200, "ro"); }
	auto view = [&](const char* w) { for (auto& f : fs) if (f->f.f) f->f.view_check(w); }; u32 n = 4 + sized(20, "ops");
	auto all_noop = [&](u32 cl) { std::vector<u64> before; for (auto& f : fs) if (f->f.f && f->c == cl) before.push_back(f->f.ss->commands); o = call(fmt("noop (store %u)", cl), [&] { cs[cl]->st->noop(); }); CHECK(o.ok, "imap.noop", "noop() failed: %s", o.what.c_str()); size_t j = 0; for (auto& f : fs) if (f->f.f && f->c == cl) { u64 was = before[j++]; CHECK(f->f.ss->commands > was, "imap.noop.folders", "the noop() of the store did not reach the connection of an open folder"); } count("imap.store_noop"); };
	for (u32 i = 0; i < n; ++i) {
		P& p = *fs[choose(u32(fs.size()), "folder")]; Fold& F = p.f; if (!F.f) { F.open(cs[p.c]->st, p.box, p.ro ? vn::folder::MODE_READ_ONLY : vn::folder::MODE_READ_WRITE, true); view("open"); continue; } if (chance(200, "outside")) g_imap->crowd_act();
		switch (weighted({22, 20, 14, 26, 8, 10}, "op")) {
			case 0: if (!F.ss->view.empty()) retrieve(F, false); break;
			case 1: if (p.box == "INBOX") mutate(F, false, p.ro); break;
			case 2: o = call("noop (folder)", [&] { vmime::dynamicCast<vi::IMAPFolder>(F.f)->noop(); }); CHECK(o.ok, "imap.noop", "noop failed: %s", o.what.c_str()); break;
			case 3: all_noop(p.c); break;
			case 4: if (!F.ss->view.empty()) F.get(1 + choose(u32(F.ss->view.size()), "which")); break;
			default: { bool ex = !p.ro && chance(300, "close.expunge"); o = call("close", [&] { F.f->close(ex); }); CHECK(o.ok, "imap.close.failed", "close() failed: %s", o.what.c_str()); F.drop(); } }
		view("the operation"); g_imap->passages.erase("badsection");
	}
	g_imap->cfg.crowd = 0; g_imap->cfg.eager = 1000; size_t open = 0; for (u32 i = 0; i < 2 * nc; ++i) { all_noop(i % nc); view("the last noop"); } for (auto& p : fs) if (p->f.f) { ++open; auto bx = g_imap->box(p->box); CHECK(p->f.f->getMessageCount() == bx->msgs.size(), "imap.view.final", "message count %zu, the mailbox has %zu", p->f.f->getMessageCount(), bx->msgs.size()); } if (open > 1) nontrivial(); state(open * 4 + nc);
	for (auto& p : fs) p->f.drop(); for (auto& c : cs) vclose(*c); advance(60000000); finish_checks();
}
// what this client changes is what the server holds afterwards
SCENARIO(I03, messages, 10) {
	ImapCfg cfg = draw_imap(); if (chance(450, "rej?")) { u32 nr = 1 + choose(2, "rej.n"); for (u32 i = 0; i < nr; ++i) { ImapRej r = draw_rej({"STORE", "UID STORE", "EXPUNGE", "COPY", "UID COPY", "APPEND", "CLOSE", "FETCH"}); r.drop = false; if (r.delay && chance(700, "nolate")) r.delay = 0; cfg.rej.push_back(r); } } setup(cfg, false, 6); app_init(); Cl c; c.make(); c.st->setTimeoutHandlerFactory(to_factory(ToCfg{30000000, 0, false}));
	Out o = call("connect", [&] { c.st->connect(); }); CHECK(o.ok, "imap.connect.failed", "connect() failed against a healthy server: %s %s", o.type.c_str(), o.what.c_str()); bool ro = chance(150, "ro"); Fold F; u32 n = 2 + sized(9, "ops");
	for (u32 i = 0; i < n; ++i) {
		if (F.f && g_imap->any_late) break;
		if (!F.f) { if (!F.open(c.st, "INBOX", ro ? vn::folder::MODE_READ_ONLY : vn::folder::MODE_READ_WRITE, g_imap->rejections == 0 && !g_imap->any_late)) continue; F.view_check("open"); CHECK(F.f->getMode() == (ro ? vn::folder::MODE_READ_ONLY : vn::folder::MODE_READ_WRITE), "imap.mode", "mode %d", F.f->getMode()); }
		int rj = g_imap->rejections;
		switch (weighted({70, 12, 18}, "op")) {
			case 0: mutate(F, true, ro); break;
			case 1: retrieve(F, false); break;
			default: {
				bool ex = chance(600, "expunge"); auto b = g_imap->box("INBOX"); std::set<ImapMsg*> del; for (auto& m : b->msgs) if (m->flags.count("\\Deleted")) del.insert(m.get()); size_t was = b->msgs.size(); g_imap->removed.clear(); o = call(ex ? "close(expunge)" : "close", [&] { F.f->close(ex); }); nontrivial();
				if (o.ok) { CHECK(!(ex && ro), "imap.ro.close", "close(expunge) of a folder opened read-only succeeded"); CHECK(!F.f->isOpen(), "imap.close.open", "still open after close()"); if (ex) CHECK(g_imap->rejections == rj, "imap.close.refused_ok", "close(expunge) returned normally although the server refused"); CHECK(b->msgs.size() == was - (ex ? del.size() : 0), "imap.close.count", "close(%d): %zu messages were removed, %zu were marked as deleted", int(ex), was - b->msgs.size(), del.size()); F.drop(); }
				else { CHECK((ex && ro) || g_imap->rejections != rj || g_imap->any_late, "imap.close.failed", "close() failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); if (!g_imap->any_late) CHECK(b->msgs.size() == was, "imap.close.count", "messages were removed by a refused close()"); }
			}
		}
		if (F.f && !g_imap->any_late) F.view_check("the operation"); g_imap->passages.erase("badsection");
	}
	F.drop(); g_imap->cfg.rej.clear(); vclose(c); advance(100000000); finish_checks();
}
// ---- folders
namespace {
typedef vn::folderAttributes AT;
typedef std::vector<std::string> Path;
vn::folder::path mkpath(const Path& p) { vn::folder::path q; for (auto& c : p) q /= vmime::word(c, vmime::charset("utf-8")); return q; }
// the separator inside a name is a character of its own on the server
std::string sep_in() { return std::string("\xee\x80") + char(0x80 | g_imap->cfg.delim); }
std::string subst(std::string s, const std::string& a, const std::string& b) { for (size_t q = 0; (q = s.find(a, q)) != std::string::npos; q += b.size()) s.replace(q, a.size(), b); return s; }
std::string boxname(const Path& p) { std::string o; for (size_t i = 0; i < p.size(); ++i) o += (i ? std::string(1, g_imap->cfg.delim) : "") + subst(p[i], std::string(1, g_imap->cfg.delim), sep_in()); return o; }
Path unpath(const vn::folder::path& p) { Path o; for (size_t i = 0; i < p.getSize(); ++i) o.push_back(p[i].getConvertedText(vmime::charset("utf-8"))); return o; }
Path unbox(const std::string& n) { Path p = n.empty() ? Path() : split(n, g_imap->cfg.delim); for (auto& c : p) c = subst(c, sep_in(), std::string(1, g_imap->cfg.delim)); return p; }
std::string draw_name() {
	static const char* parts[] = {"a", "b", "Work", "x y", "\"", "\\", "&", "*", "%", "{3}", "(", ")", "\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "\xf0\x9f\x93\xab", "~", "+", "INBOX", "inbox", "-", "]", "NIL", "2024", ",", "&-", "\xc3\xa9\xc3\xa8", "'", "#", "!", "$", "v/1", "v.1"};
	for (;;) { std::string n; u32 k = 1 + (chance(400, "name.more") ? choose(3, "name.n") : 0); for (u32 i = 0; i < k; ++i) n += chance(500, "name.plain") ? parts[choose(4, "name.p")] : parts[choose(sizeof parts / sizeof *parts, "name.p")]; if (n.find("+-") == std::string::npos) return n; }
}
Path draw_path(bool known) {
	auto& bs = g_imap->boxes; Path p; if (known && !chance(150, "path.new")) return unbox(bs[choose(u32(bs.size()), "path.which")]->name); if (chance(500, "path.under")) p = unbox(bs[choose(u32(bs.size()), "path.base")]->name); u32 k = 1 + choose(2, "path.levels"); for (u32 i = 0; i < k && p.size() < 5; ++i) p.push_back(draw_name()); if (!p.empty() && upper(p[0]) == "INBOX") p[0] = "INBOX"; return p;
}
ImapBoxP plant(const Path& p) { for (size_t i = 1; i < p.size(); ++i) { Path q(p.begin(), p.begin() + long(i)); auto b = g_imap->box(boxname(q)); if (!b) { b = g_imap->add_box(boxname(q)); b->noselect = chance(500, "box.noselect"); } } auto b = g_imap->box(boxname(p)); return b ? b : g_imap->add_box(boxname(p)); }
void draw_tree() {
	u32 n = sized(7, "boxes"); static const char* uses[] = {"\\All", "\\Archive", "\\Drafts", "\\Flagged", "\\Junk", "\\Sent", "\\Trash", "\\Important"};
	for (u32 i = 0; i < n; ++i) { Path p = draw_path(false); bool sealed = false; for (size_t k = 1; k <= p.size(); ++k) { auto b = g_imap->box(boxname(Path(p.begin(), p.begin() + long(k)))); if (b && b->noinferiors) sealed = true; } if (sealed || g_imap->box(boxname(p))) continue; auto b = plant(p); if (chance(200, "box.use")) b->use = uses[choose(8, "use")]; b->noselect = chance(100, "box.noselect"); b->marked = int(choose(3, "box.marked")); b->readonly = chance(100, "box.readonly"); if (!b->noselect) { u32 m = sized(3, "box.msgs"); for (u32 k = 0; k < m; ++k) g_imap->deliver(b, imap_msg(200)); } }
	for (auto& b : g_imap->boxes) { bool kids = false; for (auto& x : g_imap->boxes) if (x->name.compare(0, b->name.size() + 1, b->name + g_imap->cfg.delim) == 0) kids = true; if (!kids && b->name != "INBOX" && chance(150, "box.noinf")) b->noinferiors = true; }
}
bool has_kids(const ImapBoxP& b) { for (auto& x : g_imap->boxes) if (x->name.compare(0, b->name.size() + 1, b->name + g_imap->cfg.delim) == 0) return true; return false; }
void cmp_attr(const AT& a, const ImapBoxP& b, const char* how) {
	auto& caps = g_imap->cfg.caps; int type = b->noselect ? AT::TYPE_CONTAINS_FOLDERS : AT::TYPE_CONTAINS_FOLDERS | AT::TYPE_CONTAINS_MESSAGES; CHECK(a.getType() == type, "imap.attr.type", "%s: type %d of \"%s\", it should be %d", how, a.getType(), esc(b->name).c_str(), type);
	bool kids = caps.count("CHILDREN") ? has_kids(b) : !b->noinferiors; CHECK(!!(a.getFlags() & AT::FLAG_NO_OPEN) == b->noselect, "imap.attr.noopen", "%s: \"%s\" is %s, flags %x", how, esc(b->name).c_str(), b->noselect ? "not selectable" : "selectable", a.getFlags()); CHECK(!!(a.getFlags() & AT::FLAG_HAS_CHILDREN) == kids, "imap.attr.children", "%s: flags %x of \"%s\" which %s children", how, a.getFlags(), esc(b->name).c_str(), kids ? "has (or may have)" : "has no");
	static const std::map<std::string, int> U = {{"", AT::SPECIALUSE_NONE}, {"\\All", AT::SPECIALUSE_ALL}, {"\\Archive", AT::SPECIALUSE_ARCHIVE}, {"\\Drafts", AT::SPECIALUSE_DRAFTS}, {"\\Flagged", AT::SPECIALUSE_FLAGGED}, {"\\Junk", AT::SPECIALUSE_JUNK}, {"\\Sent", AT::SPECIALUSE_SENT}, {"\\Trash", AT::SPECIALUSE_TRASH}, {"\\Important", AT::SPECIALUSE_IMPORTANT}};
	int use = b->name == "INBOX" ? int(AT::SPECIALUSE_INBOX) : caps.count("SPECIAL-USE") ? U.at(b->use) : int(AT::SPECIALUSE_NONE); CHECK(a.getSpecialUse() == use, "imap.attr.use", "%s: special use %d of \"%s\", it should be %d", how, a.getSpecialUse(), esc(b->name).c_str(), use);
}
std::string show(const Path& p) { std::string o; for (auto& c : p) o += "/" + esc(c); return o; }
// search keys with a predicate of their own
struct Pred { vi::IMAPSearchTokenPtr t; std::function<bool(const ImapMsg&, size_t)> f; std::string d; };
typedef vi::IMAPSearchTokenFactory TF;
long dayno(int y, int m, int d) { return (y * 16L + m) * 40 + d; }
int monthno(const std::string& s) { static const char* M = "janfebmaraprmayjunjulaugsepoctnovdec"; return int((std::string(M).find(lower(s)) / 3)) + 1; }
long idate_day(const ImapMsg& m) { std::string i = m.idate; return dayno(atoi(i.substr(7, 4).c_str()), monthno(i.substr(3, 3)), atoi(i.c_str())); }
long sent_day(const ImapMsg& m) { auto v = split(m.root->env.date, ' '); return dayno(atoi(v[3].c_str()), monthno(v[2]), atoi(v[1].c_str())); }
bool hdr_has(const ImapMsg& m, const std::string& name, const std::string& key) { std::string h = m.root->hdr; size_t p = 0; while (p < h.size()) { size_t e = p; for (;;) { e = h.find("\r\n", e); if (e == std::string::npos) { e = h.size(); break; } e += 2; if (e >= h.size() || (h[e] != ' ' && h[e] != '\t')) break; } std::string f = h.substr(p, e - p); size_t c = f.find(':'); if (c != std::string::npos && lower(f.substr(0, c)) == lower(name) && lower(f.substr(c + 1)).find(lower(key)) != std::string::npos) return true; p = e; } return false; }
std::string draw_key(Fold& F, const std::string& from) {
	if (F.ss->view.empty() || chance(250, "key.other")) return oneof<std::string>({"nothing like this", "a", "", "\"", "\\", "a\"b", "x\\", "é", "@", "{5}", ")"}, "key"); auto& m = F.ss->view[choose(u32(F.ss->view.size()), "key.msg")]; std::string s = from == "body" ? m->root->body.empty() ? m->root->all() : m->root->body : m->root->hdr; if (from != "body") { size_t p = lower(s).find("\n" + lower(from) + ":"); if (p == std::string::npos) return "zzz"; s = s.substr(p + 2 + from.size()); s = s.substr(0, s.find("\r\n")); }
	if (s.empty()) return "zz"; size_t p = choose(u32(s.size()), "key.at"), n = 1 + choose(12, "key.len"); s = s.substr(p, n); std::string o; for (char c : s) if (c == '\r' || c == '\n' || c == 0) break; else o += c; return o;
}
Pred draw_pred(Fold& F, int depth) {
	size_t cnt = F.ss->view.size(); auto flag = [](const char* f, bool on) { return [f, on](const ImapMsg& m, size_t) { return (m.flags.count(f) != 0) == on; }; };
	switch (weighted({18, 12, 14, 14, 10, 10, depth > 2 ? 0u : 10u, depth > 2 ? 0u : 10u, depth > 2 ? 0u : 10u, 3}, "pred")) {
		case 0: switch (choose(10, "pred.flag")) { case 0: return {TF::SEEN(), flag("\\Seen", true), "SEEN"}; case 1: return {TF::UNSEEN(), flag("\\Seen", false), "UNSEEN"}; case 2: return {TF::ANSWERED(), flag("\\Answered", true), "ANSWERED"}; case 3: return {TF::UNANSWERED(), flag("\\Answered", false), "UNANSWERED"}; case 4: return {TF::DELETED(), flag("\\Deleted", true), "DELETED"}; case 5: return {TF::UNDELETED(), flag("\\Deleted", false), "UNDELETED"}; case 6: return {TF::DRAFT(), flag("\\Draft", true), "DRAFT"}; case 7: return {TF::UNDRAFT(), flag("\\Draft", false), "UNDRAFT"}; case 8: return {TF::FLAGGED(), flag("\\Flagged", true), "FLAGGED"}; default: return {TF::UNFLAGGED(), flag("\\Flagged", false), "UNFLAGGED"}; }
		case 1: { u32 n = cnt ? u32(F.ss->view[choose(u32(cnt), "pred.m")]->data.size()) + choose(3, "pred.d") - 1 : 0; if (chance(100, "pred.big")) n = oneof<u32>({0xffffffffu, 0x80000000u, 0}, "pred.n"); bool l = chance(500, "pred.larger"); return {l ? TF::LARGER(n) : TF::SMALLER(n), [n, l](const ImapMsg& m, size_t) { return l ? m.data.size() > n : m.data.size() < n; }, fmt("%s %u", l ? "LARGER" : "SMALLER", n)}; }
		case 2: { std::string n = oneof<std::string>({"Subject", "From", "To", "Cc", "Bcc"}, "pred.hdr"), k = draw_key(F, n); auto t = n == "Subject" ? TF::SUBJECT(k) : n == "From" ? TF::FROM(k) : n == "To" ? TF::TO(k) : n == "Cc" ? TF::CC(k) : TF::BCC(k); return {t, [n, k](const ImapMsg& m, size_t) { return hdr_has(m, n, k); }, upper(n) + " " + k}; }
		case 3: { static const char* H[] = {"Message-Id", "Subject", "X-None", "Mime-Version", "Content-Type"}; const char* n = H[choose(5, "pred.h")]; bool any = chance(300, "pred.any"); std::string k = any ? "" : draw_key(F, n); return {any ? TF::HEADER(n) : TF::HEADER(n, k), [n, k](const ImapMsg& m, size_t) { return hdr_has(m, n, k); }, std::string("HEADER ") + n + " " + k}; }
		case 4: { bool b = chance(500, "pred.body"); std::string k = draw_key(F, b ? "body" : oneof<std::string>({"body", "Subject", "Message-Id"}, "pred.text")); return {b ? TF::BODY(k) : TF::TEXT(k), [b, k](const ImapMsg& m, size_t) { return lower(b ? m.root->body : m.data).find(lower(k)) != std::string::npos; }, (b ? "BODY " : "TEXT ") + k}; }
		case 5: {
			bool sent = chance(500, "pred.sent"); int y, mo, d; if (cnt && chance(700, "pred.known")) { auto& m = F.ss->view[choose(u32(cnt), "pred.m")]; long x = sent ? sent_day(*m) : idate_day(*m); y = int(x / 640); mo = int(x / 40 % 16); d = int(x % 40); } else { y = 1990 + int(choose(50, "y")); mo = 1 + int(choose(12, "mo")); d = 1 + int(choose(28, "d")); }
			vmime::datetime dt(y, mo, d, int(choose(24, "h")), 30, 0, oneof<int>({0, 60, -480, 840}, "tz")); long q = dayno(y, mo, d); u32 k = choose(3, "pred.cmp"); auto t = sent ? (k == 0 ? TF::SENTBEFORE(dt) : k == 1 ? TF::SENTON(dt) : TF::SENTSINCE(dt)) : (k == 0 ? TF::BEFORE(dt) : k == 1 ? TF::ON(dt) : TF::SINCE(dt)); return {t, [=](const ImapMsg& m, size_t) { long x = sent ? sent_day(m) : idate_day(m); return k == 0 ? x < q : k == 1 ? x == q : x >= q; }, fmt("%s%u %d-%d-%d", sent ? "SENT" : "", k, y, mo, d)};
		}
		case 6: { u32 n = 1 + choose(3, "pred.and"); std::vector<vi::IMAPSearchTokenPtr> ts; std::vector<Pred> ps; std::string d; for (u32 i = 0; i < n; ++i) { ps.push_back(draw_pred(F, depth + 1)); ts.push_back(ps.back().t); d += (i ? " " : "(") + ps.back().d; } return {TF::AND(std::move(ts)), [ps](const ImapMsg& m, size_t i) { for (auto& p : ps) if (!p.f(m, i)) return false; return true; }, d + ")"}; }
		case 7: { Pred a = draw_pred(F, depth + 1), b = draw_pred(F, depth + 1); return {TF::OR(a.t, b.t), [a, b](const ImapMsg& m, size_t i) { return a.f(m, i) || b.f(m, i); }, "OR " + a.d + " " + b.d}; }
		case 8: { Pred a = draw_pred(F, depth + 1); return {TF::NOT(a.t), [a](const ImapMsg& m, size_t i) { return !a.f(m, i); }, "NOT " + a.d}; }
		default: {
			if (!cnt) return {TF::OLD(), [](const ImapMsg&, size_t) { return true; }, "OLD"}; std::vector<ImapMsgP> want; bool byuid; auto s = draw_set(F, want, false, byuid); return {byuid ? TF::UID(s) : TF::MESSAGESET(s), [want](const ImapMsg& m, size_t) { for (auto& w : want) if (w.get() == &m) return true; return false; }, byuid ? "UID set" : "set"};
		}
	}
}
void do_search(Fold& F) {
	vi::IMAPSearchAttributes sa; std::vector<Pred> ps; u32 n = 1 + choose(3, "keys"); std::string d; for (u32 i = 0; i < n; ++i) { ps.push_back(draw_pred(F, 0)); sa.add(ps.back().t); d += ps.back().d + "; "; } bool uid = chance(500, "search.uid"); vmime::charset cs("UTF-8"); const vmime::charset* pc = chance(300, "search.cs") ? &cs : nullptr; std::set<u64> want, got; auto f = vmime::dynamicCast<vi::IMAPFolder>(F.f); int rj = g_imap->rejections; size_t count = 0;
	for (size_t i = 0; i < F.ss->view.size(); ++i) { bool hit = true; for (auto& p : ps) hit = hit && p.f(*F.ss->view[i], i + 1); if (hit) want.insert(uid ? F.ss->view[i]->uid : i + 1); }
	Out o = call("search " + esc(d, 200), [&] { if (uid) for (auto& u : f->getMessageUIDsMatchingSearchAttributes(sa, pc)) got.insert(strtoull(std::string(u).c_str(), nullptr, 10)), ++count; else for (size_t x : f->getMessageNumbersMatchingSearchAttributes(sa, pc)) got.insert(x), ++count; }); nontrivial();
	if (o.ok) { CHECK(g_imap->rejections == rj, "imap.search.refused_ok", "the search returned normally although the server refused it"); CHECK(got == want && count == want.size(), "imap.search.result", "the search returned %zu messages, %zu match: %s", count, want.size(), esc(d, 300).c_str()); } else CHECK(g_imap->rejections != rj, "imap.search.failed", "the search failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str());
}
void do_list(shared_ptr<vn::store> st, const Path& base, bool recursive) {
	auto f = base.empty() ? st->getRootFolder() : st->getFolder(mkpath(base)); std::vector<shared_ptr<vn::folder>> v; int rj = g_imap->rejections; Out o = call(fmt("getFolders(%d) of ", int(recursive)) + show(base), [&] { v = f->getFolders(recursive); }); nontrivial();
	if (!o.ok) { CHECK(g_imap->rejections != rj, "imap.list.failed", "getFolders() failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); return; } CHECK(g_imap->rejections == rj, "imap.list.refused_ok", "getFolders() returned normally although the server refused");
	std::map<Path, int> got; for (auto& x : v) { Path p = unpath(x->getFullPath()); ++got[p]; CHECK(!p.empty() && x->getName().getConvertedText(vmime::charset("utf-8")) == p.back(), "imap.list.name", "a folder %s has the name \"%s\"", show(p).c_str(), esc(x->getName().getBuffer()).c_str()); }
	for (auto& b : g_imap->boxes) { Path p = unbox(b->name); bool under = p.size() > base.size() && std::equal(base.begin(), base.end(), p.begin()) && (recursive || p.size() == base.size() + 1); int n = got.count(p) ? got[p] : 0; CHECK(n == (under ? 1 : 0), "imap.list.folders", "getFolders(%d) of %s returned the folder %s %d time(s)", int(recursive), show(base).c_str(), show(p).c_str(), n); got.erase(p); }
	CHECK(got.empty(), "imap.list.folders", "getFolders(%d) of %s returned the folder %s that the server does not have", int(recursive), show(base).c_str(), show(got.begin()->first).c_str());
	for (auto& x : v) cmp_attr(x->getAttributes(), g_imap->box(boxname(unpath(x->getFullPath()))), "getFolders");
	if (!v.empty() && chance(300, "parent")) { auto x = v[choose(u32(v.size()), "parent.of")]; Path p = unpath(x->getFullPath()); auto q = x->getParent(); CHECK(bool(q), "imap.parent", "no parent"); Path r = unpath(q->getFullPath()); p.pop_back(); CHECK(p == r, "imap.parent", "the parent of %s is %s", show(unpath(x->getFullPath())).c_str(), show(r).c_str()); }
}
struct FolderLis : vn::events::folderListener { std::vector<std::string> ev; void folderCreated(const shared_ptr<vn::events::folderEvent>& e) override { ev.push_back("C " + show(unpath(e->getFolder()->getFullPath()))); } void folderRenamed(const shared_ptr<vn::events::folderEvent>& e) override { ev.push_back("R " + show(unpath(e->getFolder()->getFullPath()))); } void folderDeleted(const shared_ptr<vn::events::folderEvent>& e) override { ev.push_back("D " + show(unpath(e->getFolder()->getFullPath()))); } };
std::map<std::string, ImapBoxP> tree_now() { std::map<std::string, ImapBoxP> t; for (auto& b : g_imap->boxes) t[b->name] = b; return t; }
}
// folders: what is reported is what the server holds
SCENARIO(I04, folders, 10) {
	ImapCfg cfg = draw_imap(); if (chance(300, "rej?")) { u32 nr = 1 + choose(2, "rej.n"); for (u32 i = 0; i < nr; ++i) { ImapRej r = draw_rej({"LIST", "STATUS", "SEARCH", "UID SEARCH", "SELECT", "EXAMINE"}); if (r.cmd == "LIST" && r.nth < 1) r.nth = 1 + int(choose(4, "rej.list")); r.drop = false; r.delay = 0; cfg.rej.push_back(r); } } setup(cfg, false, 6); draw_tree(); app_init(); Cl c; c.make(); c.st->setTimeoutHandlerFactory(to_factory(ToCfg{600000000, 0, false}));
	Out o = call("connect", [&] { c.st->connect(); }); if (!o.ok && g_imap->rejections) { finish_checks(); return; } CHECK(o.ok, "imap.connect.failed", "connect() failed against a healthy server: %s %s", o.type.c_str(), o.what.c_str()); Fold F; u32 n = 2 + sized(9, "ops"); std::vector<shared_ptr<vn::folder>> keep;
	for (u32 i = 0; i < n; ++i) {
		int rj = g_imap->rejections; auto ref = [&] { return g_imap->rejections != rj; };
		switch (weighted({25, 15, 15, 20, 25, 8}, "op")) {
			case 0: do_list(c.st, chance(300, "root") ? Path() : draw_path(true), chance(500, "recursive")); break;
			case 1: { Path p = draw_path(true); auto f = c.st->getFolder(mkpath(p)); keep.push_back(f); bool e = false; o = call("exists " + show(p), [&] { e = f->exists(); }); nontrivial(); bool is = bool(g_imap->box(boxname(p))); if (o.ok) { CHECK(!ref(), "imap.exists.refused_ok", "exists() returned normally although the server refused"); CHECK(e == is, "imap.exists", "exists() is %d for %s which %s", int(e), show(p).c_str(), is ? "is there" : "is not there"); if (e) cmp_attr(f->getAttributes(), g_imap->box(boxname(p)), "after exists()"); } else CHECK(ref(), "imap.exists.failed", "exists() failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); break; }
			case 2: { Path p = draw_path(true); auto b = g_imap->box(boxname(p)); if (!b) break; auto f = c.st->getFolder(mkpath(p)); keep.push_back(f); vn::folderAttributes a; o = call("getAttributes " + show(p), [&] { a = f->getAttributes(); }); nontrivial(); if (o.ok) cmp_attr(a, b, "getAttributes"); else CHECK(ref(), "imap.attr.failed", "getAttributes() failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); break; }
			case 3: {
				Path p = draw_path(true); auto b = g_imap->box(boxname(p)); bool op = F.f && chance(300, "status.open"); auto f = op ? F.f : c.st->getFolder(mkpath(p)); if (op) b = g_imap->box(boxname(unpath(F.f->getFullPath()))); shared_ptr<vn::folderStatus> s; size_t a = 0, u = 0; bool full = chance(600, "full"); o = call("status " + (b ? esc(b->name) : show(p)), [&] { if (full) s = f->getStatus(); else f->status(a, u); }); nontrivial(); if (F.f) F.view_check("status");
				if (o.ok) { CHECK(!ref(), "imap.status.refused_ok", "the status was returned although the server refused"); CHECK(b && !b->noselect, "imap.status.none", "status of %s which %s", show(p).c_str(), b ? "cannot be selected" : "is not there"); size_t un = 0; for (auto& m : b->msgs) if (!m->flags.count("\\Seen")) ++un; if (full) { a = s->getMessageCount(); u = s->getUnseenCount(); auto is = vmime::dynamicCast<vi::IMAPFolderStatus>(s); CHECK(is->getUIDNext() == b->uidnext && is->getUIDValidity() == b->uidvalidity && (!cfg.caps.count("CONDSTORE") || is->getHighestModSeq() == b->modseq), "imap.status", "UIDNEXT %llu, UIDVALIDITY %llu, HIGHESTMODSEQ %llu; the server has %llu, %llu, %llu", (unsigned long long) is->getUIDNext(), (unsigned long long) is->getUIDValidity(), (unsigned long long) is->getHighestModSeq(), (unsigned long long) b->uidnext, (unsigned long long) b->uidvalidity, (unsigned long long) b->modseq); } CHECK(a == b->msgs.size() && u == un, "imap.status", "status of %s says %zu messages, %zu unseen; the server has %zu, %zu", esc(b->name).c_str(), a, u, b->msgs.size(), un); }
				else CHECK(ref() || !b || b->noselect, "imap.status.failed", "the status of %s was refused to the caller: %s %s", show(p).c_str(), o.type.c_str(), o.what.c_str()); break;
			}
			case 4: {
				if (F.f && chance(600, "search")) { do_search(F); F.view_check("search"); break; } if (F.f) { o = call("close", [&] { F.f->close(false); }); CHECK(o.ok, "imap.close.failed", "close() failed: %s", o.what.c_str()); F.drop(); }
				Path p = chance(600, "inbox") ? Path{"INBOX"} : draw_path(true); auto b = g_imap->box(boxname(p)); bool ok = b && !b->noselect; int mode = chance(300, "ro") ? vn::folder::MODE_READ_ONLY : vn::folder::MODE_READ_WRITE; bool strict = chance(300, "strict");
				if (!ok || (strict && b->readonly)) { auto f = c.st->getFolder(mkpath(p)); o = call("open " + show(p), [&] { f->open(mode, strict); }); nontrivial(); if (ok && mode == vn::folder::MODE_READ_ONLY) { CHECK(o.ok || ref(), "imap.open.failed", "open() failed: %s", o.what.c_str()); break; } CHECK(!o.ok && !f->isOpen(), "imap.open.none", "open() of %s succeeded, it %s", show(p).c_str(), ok ? "cannot be opened for writing" : "cannot be opened"); break; }
				auto f = c.st->getFolder(mkpath(p)); if (chance(300, "attr.before")) { o = call("getAttributes " + show(p), [&] { cmp_attr(f->getAttributes(), b, "before open()"); }); rj = g_imap->rejections; } o = call("open " + show(p), [&] { f->open(mode, strict); }); if (!o.ok) { CHECK(ref(), "imap.open.failed", "open() failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); break; } F.f = f; F.ss = dynamic_cast<ImapSess*>(net_conns().back()->peer.get()); F.ident = F.ss->view; F.pos = F.ss->evlog.size(); F.lis.ev.clear(); f->addMessageChangedListener(&F.lis); f->addMessageCountListener(&F.lis); F.view_check("open"); int em = b->readonly ? int(vn::folder::MODE_READ_ONLY) : mode; CHECK(f->getMode() == em, "imap.mode", "getMode() is %d, the server granted %d", f->getMode(), em);
				if (chance(500, "attr.open")) { vn::folderAttributes a; rj = g_imap->rejections; o = call("getAttributes " + show(p), [&] { a = f->getAttributes(); }); if (o.ok) cmp_attr(a, b, "of the open folder"); else CHECK(ref(), "imap.attr.failed", "getAttributes() failed: %s", o.what.c_str()); } break;
			}
			default: { if (!F.f) break; auto b = g_imap->box(boxname(unpath(F.f->getFullPath()))); if (b && chance(500, "deliver")) g_imap->deliver(b, imap_msg(300)); else if (!F.ss->view.empty()) { auto m = F.ss->view[choose(u32(F.ss->view.size()), "uid.of")]; std::vector<size_t> v; o = call("getMessageNumbersStartingOnUID", [&] { v = F.f->getMessageNumbersStartingOnUID(vn::message::uid(fmt("%llu", (unsigned long long) m->uid))); }); nontrivial(); F.view_check("search"); if (o.ok) { CHECK(!ref(), "imap.search.refused_ok", "the search returned normally although the server refused it"); std::set<u64> g, w; for (size_t x : v) g.insert(x <= F.ss->view.size() && x ? F.ss->view[x - 1]->uid : 0); for (auto& q : F.ss->view) if (q->uid >= m->uid) w.insert(q->uid); for (u64 x : g) CHECK(w.count(x), "imap.search.result", "getMessageNumbersStartingOnUID(%llu) returned the message with uid %llu", (unsigned long long) m->uid, (unsigned long long) x); CHECK(g.count(m->uid), "imap.search.result", "getMessageNumbersStartingOnUID(%llu) did not return that message", (unsigned long long) m->uid); } else CHECK(ref(), "imap.search.failed", "the search failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); } break; }
		}
	}
	F.drop(); keep.clear(); g_imap->cfg.rej.clear(); vclose(c); advance(60000000); finish_checks();
}
// creating, renaming and deleting folders
SCENARIO(I03, folders, 7) {
	ImapCfg cfg = draw_imap(); if (chance(400, "rej?")) { u32 nr = 1 + choose(2, "rej.n"); for (u32 i = 0; i < nr; ++i) { ImapRej r = draw_rej({"CREATE", "DELETE", "RENAME"}); r.drop = false; r.delay = 0; cfg.rej.push_back(r); } } setup(cfg, false, 2); draw_tree(); app_init(); Cl c; c.make(); c.st->setTimeoutHandlerFactory(to_factory(ToCfg{600000000, 0, false}));
	Out o = call("connect", [&] { c.st->connect(); }); CHECK(o.ok, "imap.connect.failed", "connect() failed against a healthy server: %s %s", o.type.c_str(), o.what.c_str()); u32 n = 1 + sized(8, "ops"); struct Kept { shared_ptr<vn::folder> f; Path p; FolderLis l; }; std::list<Kept> kept;
	auto obj = [&](const Path& p) -> shared_ptr<vn::folder> { for (auto& k : kept) if (k.p == p && chance(700, "reuse")) return k.f; auto f = c.st->getFolder(mkpath(p)); kept.push_back({f, p, {}}); f->addFolderListener(&kept.back().l); return f; };
	for (u32 i = 0; i < n; ++i) {
		auto before = tree_now(); int rj = g_imap->rejections; auto ref = [&] { return g_imap->rejections != rj; }; u64 ch = g_imap->changes; for (auto& k : kept) k.l.ev.clear(); nontrivial();
		switch (weighted({40, 20, 30, 10}, "op")) {
			case 0: {
				Path p = draw_path(false); auto f = obj(p); AT a; a.setType(AT::TYPE_CONTAINS_MESSAGES | (chance(500, "both") ? AT::TYPE_CONTAINS_FOLDERS : 0)); static const std::pair<int, const char*> U[] = {{AT::SPECIALUSE_ARCHIVE, "\\Archive"}, {AT::SPECIALUSE_DRAFTS, "\\Drafts"}, {AT::SPECIALUSE_JUNK, "\\Junk"}, {AT::SPECIALUSE_SENT, "\\Sent"}, {AT::SPECIALUSE_TRASH, "\\Trash"}, {AT::SPECIALUSE_FLAGGED, "\\Flagged"}, {AT::SPECIALUSE_ALL, "\\All"}, {AT::SPECIALUSE_IMPORTANT, "\\Important"}}; int u = chance(250, "use") ? int(choose(8, "use.i")) : -1; if (u >= 0) a.setSpecialUse(U[u].first); if (chance(300, "exists.first")) call("exists", [&] { f->exists(); });
				o = call("create " + show(p), [&] { f->create(a); }); bool was = before.count(boxname(p)), sealed = false; for (size_t k = 1; k < p.size(); ++k) { auto q = before.find(boxname(Path(p.begin(), p.begin() + long(k)))); if (q != before.end() && q->second->noinferiors) sealed = true; }
				if (o.ok) { CHECK(!ref() && !was && !sealed, "imap.create.refused_ok", "create() returned normally although the server refused"); auto b = g_imap->box(boxname(p)); CHECK(bool(b), "imap.create.missing", "create() of %s returned normally, the server does not have that folder", show(p).c_str()); CHECK(b->use == (u >= 0 ? U[u].second : ""), "imap.create.use", "the new folder has the special use \"%s\"", b->use.c_str()); auto now = tree_now(); for (auto& x : before) CHECK(now.count(x.first), "imap.create.other", "create() made %s vanish", esc(x.first).c_str()); for (auto& x : now) { Path q = unbox(x.first); CHECK(before.count(x.first) || (q.size() <= p.size() && std::equal(q.begin(), q.end(), p.begin())), "imap.create.other", "create() of %s made %s", show(p).c_str(), esc(x.first).c_str()); } for (auto& k : kept) if (k.f == f) CHECK(k.l.ev == std::vector<std::string>{"C " + show(p)}, "imap.create.event", "%zu events after create()", k.l.ev.size()); else CHECK(k.l.ev.empty(), "imap.create.event", "an event for another folder after create()"); if (chance(500, "attr")) { o = call("getAttributes", [&] { cmp_attr(f->getAttributes(), b, "after create()"); }); CHECK(o.ok, "imap.attr.failed", "getAttributes() failed: %s", o.what.c_str()); } }
				else { CHECK(ref() || was || sealed || (u >= 0 && !cfg.caps.count("CREATE-SPECIAL-USE")), "imap.create.failed", "create() of %s failed although nothing went wrong: %s %s", show(p).c_str(), o.type.c_str(), o.what.c_str()); CHECK(g_imap->changes == ch, "imap.refused_but_done", "create() threw, but the server's mailboxes changed"); for (auto& k : kept) CHECK(k.l.ev.empty(), "imap.create.event", "event although create() failed"); } break;
			}
			case 1: {
				Path p = draw_path(true); auto f = obj(p); std::string nm = boxname(p); auto b = g_imap->box(nm); bool can = b && nm != "INBOX" && !(has_kids(b) && b->noselect); bool kids = b && has_kids(b); o = call("destroy " + show(p), [&] { f->destroy(); });
				if (o.ok) { CHECK(can && !ref(), "imap.destroy.refused_ok", "destroy() of %s returned normally although the server refused", show(p).c_str()); auto now = tree_now(); for (auto& x : before) { bool should = x.first != nm || kids; CHECK(now.count(x.first) == should, "imap.destroy.result", "after destroy() of %s, %s %s", show(p).c_str(), esc(x.first).c_str(), should ? "is gone" : "is still there"); } for (auto& k : kept) if (k.f == f) CHECK(k.l.ev == std::vector<std::string>{"D " + show(p)}, "imap.destroy.event", "%zu events after destroy()", k.l.ev.size()); if (!kids) { bool e = true; o = call("exists", [&] { e = f->exists(); }); CHECK(o.ok && !e, "imap.destroy.exists", "exists() after destroy()"); } }
				else { CHECK(!can || ref(), "imap.destroy.failed", "destroy() of %s failed although nothing went wrong: %s %s", show(p).c_str(), o.type.c_str(), o.what.c_str()); CHECK(g_imap->changes == ch, "imap.refused_but_done", "destroy() threw, but the server's mailboxes changed"); for (auto& k : kept) CHECK(k.l.ev.empty(), "imap.destroy.event", "event although destroy() failed"); } break;
			}
			case 2: {
				Path p = draw_path(true), q = draw_path(chance(150, "toexisting")); auto f = obj(p); std::string a = boxname(p), z = boxname(q); auto b = g_imap->box(a); bool sub = (z + cfg.delim).compare(0, a.size() + 1, a + cfg.delim) == 0; bool can = b && a != "INBOX" && !g_imap->box(z) && !sub; bool hole = false; o = call("rename " + show(p) + " to " + show(q), [&] { f->rename(mkpath(q)); }); (void) hole;
				if (o.ok) {
					CHECK(can && !ref(), "imap.rename.refused_ok", "rename() returned normally although the server refused"); auto now = tree_now(); for (auto& x : before) { Path y = unbox(x.first); std::string w = x.first; if (y.size() >= p.size() && std::equal(p.begin(), p.end(), y.begin())) { Path g = q; g.insert(g.end(), y.begin() + long(p.size()), y.end()); w = boxname(g); } CHECK(now.count(w) && now[w] == x.second, "imap.rename.result", "after rename() of %s to %s the folder %s is not at %s", show(p).c_str(), show(q).c_str(), esc(x.first).c_str(), esc(w).c_str()); }
					for (auto& k : kept) { bool in = k.p.size() >= p.size() && std::equal(p.begin(), p.end(), k.p.begin()); Path np = k.p; if (in && (k.f == f || k.p.size() > p.size())) { np = q; np.insert(np.end(), k.p.begin() + long(p.size()), k.p.end()); } else if (in) { k.p = Path{"\x01"}; continue; } Path is = unpath(k.f->getFullPath()); CHECK(is == np, "imap.rename.path", "after rename() of %s to %s the folder object of %s has the path %s", show(p).c_str(), show(q).c_str(), show(k.p).c_str(), show(is).c_str()); if (np != k.p) CHECK(k.l.ev == std::vector<std::string>{"R " + show(np)}, "imap.rename.event", "after rename() of %s to %s: %zu events for %s: %s", show(p).c_str(), show(q).c_str(), k.l.ev.size(), show(k.p).c_str(), k.l.ev.empty() ? "" : k.l.ev[0].c_str()); else CHECK(k.l.ev.empty(), "imap.rename.event", "event for %s, which was not renamed", show(k.p).c_str()); k.p = np; } kept.remove_if([](const Kept& k) { if (k.p == Path{"\x01"}) { k.f->removeFolderListener(const_cast<FolderLis*>(&k.l)); return true; } return false; });
				} else { CHECK(!can || ref(), "imap.rename.failed", "rename() of %s to %s failed although nothing went wrong: %s %s", show(p).c_str(), show(q).c_str(), o.type.c_str(), o.what.c_str()); CHECK(g_imap->changes == ch, "imap.refused_but_done", "rename() threw, but the server's mailboxes changed"); for (auto& k : kept) { CHECK(k.l.ev.empty(), "imap.rename.event", "event although rename() failed"); Path is = unpath(k.f->getFullPath()); CHECK(is == k.p, "imap.rename.path", "a failed rename() changed the path of %s to %s", show(k.p).c_str(), show(is).c_str()); } } break;
			}
			default: do_list(c.st, Path(), true);
		}
	}
	for (auto& k : kept) k.f->removeFolderListener(&k.l); kept.clear(); g_imap->cfg.rej.clear(); vclose(c); advance(60000000); finish_checks();
}

// ------------------------------------------------------------------ driver for the cross-protocol scenarios
namespace {
struct ImapDrv : Drv {
	Cl c; Fold F;
	void serve(bool nf) override {
		ImapCfg cfg = draw_imap(); cfg.implicit_tls = srv.implicit_tls; if (srv.starttls) { cfg.caps.insert("STARTTLS"); } cfg.starttls_ok = srv.starttls_ok; cfg.tls = srv.tls; cfg.inject_after_starttls = srv.inject; if (!srv.mechs.empty()) { cfg.mechs = srv.mechs; cfg.mechs_clear = srv.mechs_clear; } cfg.sasl = srv.sasl;
		setup(cfg, nf, srv.maxmsgs);
	}
	void listen(const std::string& ip) override { imap_listen(ip, port()); }
	std::function<std::shared_ptr<Peer>()> peer_factory() override { return net_listener("192.0.2.1", port())->make; }
	void make() override {
		c.sess = vn::session::create(); std::string sch = srv.implicit_tls ? "imaps" : "imap", pre = "store." + sch + "."; auto& p = c.sess->getProperties(); if (cli.tls) p[pre + "connection.tls"] = true; if (cli.required) p[pre + "connection.tls.required"] = true;
		p[pre + "auth.username"] = cli.user.empty() ? g_imap->cfg.user : cli.user; p[pre + "auth.password"] = cli.pass.empty() ? g_imap->cfg.pass : cli.pass; if (cli.sasl >= 0 ? !cli.sasl : chance(300, "opt.nosasl")) p[pre + "options.sasl"] = false;
		if (cli.fallback >= 0) p[pre + "options.sasl.fallback"] = bool(cli.fallback); if (!cli.token.empty()) p[pre + "auth.accesstoken"] = cli.token;
		c.st = c.sess->getStore(drv_url(sch, pre, p, cli)); if (cli.tracer) c.st->setTracerFactory(tracer_factory()); if (cli.authenticator) c.st->setAuthenticator(cli.authenticator); if (!cli.nover) c.st->setCertificateVerifier(cli.ver ? cli.ver : verifier(cli.roots, cli.trusted));
	}
	shared_ptr<vn::service> svc() override { return c.st; }
	void must(const Out& o, const char* what) { if (exact) CHECK(o.ok, "imap.op.failed", "%s failed although nothing went wrong: %s %s", what, o.type.c_str(), o.what.c_str()); }
	void roots() { for (auto& b : g_imap->boxes) for (auto& m : b->msgs) if (!m->root) { Rng r(7); m->root = gen_mime(r, 0, "x", 3, true); m->data = m->root->all(); } }   // what was appended gets a body the checks know about
	void op(bool faults) override {
		roots();
		if (F.f && (!F.f->isOpen() || F.ss->st != ImapSess::SELECTED)) F.drop();
		if (!F.f && chance(700, "op.open")) { F.open(c.st, "INBOX", chance(500, "ro") ? vn::folder::MODE_READ_ONLY : vn::folder::MODE_READ_WRITE, exact); return; }
		switch (F.f ? weighted({50, 8, 8, 10, 8, 8, 8}, "op") : 3 + weighted({50, 0, 25, 25}, "op2")) {
			case 1: { Out o = call("setFlags", [&] { F.f->setMessageFlags(vn::messageSet::byNumber(1, size_t(-1)), NM::FLAG_SEEN, NM::FLAG_MODE_ADD); }); break; }
			case 2: { Source s(std::string("Subject: x\r\n\r\nbody\r\n")); Out o = call("addMessage", [&] { F.f->addMessage(s, s.d.size()); }); break; }
			case 3: { std::vector<shared_ptr<vn::folder>> v; Out o = call("list", [&] { v = c.st->getRootFolder()->getFolders(chance(500, "rec")); }); must(o, "getFolders()"); if (o.ok && !hostile) { std::set<std::string> have, want; for (auto& x : v) have.insert(upper(x->getName().getBuffer())); for (auto& b : g_imap->boxes) want.insert(upper(b->name)); CHECK(have == want && v.size() == want.size(), "imap.list.incomplete", "getFolders() found %zu folders, the server has %zu", v.size(), want.size()); } break; }
			case 4: { size_t a = 0, b = 0; Out o = call("status", [&] { F.f->status(a, b); }); must(o, "status()"); if (o.ok && !hostile) CHECK(a == g_imap->box("INBOX")->msgs.size(), "imap.status.count", "status() counts %zu messages, there are %zu", a, g_imap->box("INBOX")->msgs.size()); break; }
			case 5: { bool e = false; Out o = call("exists", [&] { e = c.st->getFolder(vn::folder::path("Other"))->exists(); }); must(o, "exists()"); if (o.ok && !hostile) CHECK(e, "imap.exists.false", "exists() is false for a folder that is there"); shared_ptr<vn::folderStatus> fs; Out q = call("status2", [&] { fs = c.st->getFolder(vn::folder::path("Other"))->getStatus(); }); must(q, "getStatus()"); if (q.ok && !hostile) CHECK(fs->getMessageCount() == g_imap->box("Other")->msgs.size(), "imap.status.count", "getStatus() counts %zu messages, there are %zu", fs->getMessageCount(), g_imap->box("Other")->msgs.size()); break; }
			case 6: { if (F.f && chance(300, "close")) { Out o = call("close", [&] { F.f->close(false); }); must(o, "close()"); F.drop(); } else { Out o = call("noop", [&] { c.st->noop(); }); must(o, "noop()"); } break; }
			default: if (!retrieve(F, faults) && (!F.ss->conn() || chance(500, "giveup"))) F.drop(); g_imap->passages.erase("badsection");
		}
	}
	shared_ptr<vn::folder> wf; std::vector<shared_ptr<vn::message>> ms; Listener wl;
	size_t cnt() { return std::min<size_t>(wf->getMessageCount(), 60); }
	void parts(shared_ptr<vn::message> m, shared_ptr<vn::messageStructure> st, int depth) {
		for (size_t i = 0; i < st->getPartCount() && i < 6; ++i) { auto p = st->getPartAt(i); p->getType(); p->getSize(); p->getName(); p->getNumber(); if (chance(400, "ph")) call("fetchPartHeader", [&] { m->fetchPartHeader(p); p->getHeader()->getFieldCount(); }); if (chance(300, "pe")) { Sink s; call("extractPart", [&] { m->extractPart(p, s); }); } if (depth < 4) parts(m, p->getStructure(), depth + 1); }
	}
	void wild() override {
		roots(); if (!wf || !wf->isOpen() || chance(60, "newfolder")) {
			if (chance(250, "store")) { switch (choose(5, "st")) {
				case 0: call("noop", [&] { c.st->noop(); }); return;
				case 1: call("list", [&] { auto v = c.st->getRootFolder()->getFolders(chance(500, "rec")); for (auto& x : v) { x->getName(); x->getAttributes(); } }); return;
				case 2: call("create", [&] { vn::folderAttributes a; a.setType(vn::folderAttributes::TYPE_CONTAINS_MESSAGES); c.st->getFolder(vn::folder::path("new"))->create(a); }); return;
				case 3: call("rename", [&] { c.st->getFolder(vn::folder::path("Other"))->rename(vn::folder::path("Renamed")); }); return;
				default: call("exists", [&] { auto x = c.st->getFolder(vn::folder::path("Other")); x->exists(); x->getAttributes(); x->getStatus(); }); return; } }
			auto g = c.st->getFolder(vn::folder::path("INBOX")); Out o = call("open", [&] { g->open(chance(500, "ro") ? vn::folder::MODE_READ_ONLY : vn::folder::MODE_READ_WRITE); }); if (!o.ok) return; wf = g; wf->addMessageCountListener(&wl); wf->addMessageChangedListener(&wl); if (wl.ev.size() > 100000) wl.ev.clear();
		}
		FA all(FA::ENVELOPE | FA::STRUCTURE | FA::FLAGS | FA::SIZE | FA::UID | FA::IMPORTANCE | (chance(300, "fullhdr") ? FA::FULL_HEADER : 0));
		switch (choose(15, "wild")) {
			case 0: call("noop", [&] { vmime::dynamicCast<vi::IMAPFolder>(wf)->noop(); }); break;
			case 1: { size_t a, b; call("status", [&] { wf->status(a, b); }); break; }
			case 2: call("delete", [&] { wf->deleteMessages(vn::messageSet::byNumber(1 + choose(4, "which"))); }); break;
			case 3: call("close", [&] { wf->close(chance(300, "expunge")); }); break;
			case 4: call("expunge", [&] { wf->expunge(); }); break;
			case 5: { Source s(std::string("Subject: x\r\n\r\nbody\r\n")); call("append", [&] { wf->addMessage(s, s.d.size()); }); break; }
			case 6: call("copy", [&] { wf->copyMessages(vn::folder::path("Other"), vn::messageSet::byNumber(1, 2)); }); break;
			case 7: call("setflags", [&] { wf->setMessageFlags(vn::messageSet::byNumber(1), NM::FLAG_SEEN, NM::FLAG_MODE_ADD); }); break;
			case 8: call("startuid", [&] { wf->getMessageNumbersStartingOnUID(vn::message::uid("1")); }); break;
			case 9: call("getAndFetch", [&] { auto v = wf->getAndFetchMessages(chance(500, "uid") ? vn::messageSet::byUID(vn::message::uid("1"), vn::message::uid("*")) : vn::messageSet::byNumber(1, std::max<size_t>(1, cnt())), all); for (auto& m : v) if (ms.size() < 12) ms.push_back(m); }); break;
			default: {
				shared_ptr<vn::message> m; if (!ms.empty() && chance(500, "reuse")) m = ms[choose(u32(ms.size()), "m")]; else call("getMessage", [&] { m = wf->getMessage(1 + choose(u32(cnt()), "which")); ms.push_back(m); }); if (!m) break;
				switch (choose(5, "msg")) {
					case 0: { Sink s; call("extract", [&] { m->extract(s); }); break; }
					case 1: call("parsed", [&] { auto p = m->getParsedMessage(); Sink s; vmime::generationContext ctx; p->generate(ctx, s); }); break;
					case 2: { shared_ptr<vn::messageStructure> st; call("structure", [&] { st = m->getStructure(); }); if (st) parts(m, st, 0); break; }
					default: call("fetch", [&] { wf->fetchMessage(m, all); }); }
				call("getters", [&] { m->isExpunged(); m->getNumber(); m->getUID(); m->getSize(); m->getFlags(); auto h = m->getHeader(); for (auto& fl : h->getFieldList()) { fl->getName(); fl->generate(); } });
			}
		}
	}
	void wdrop() { if (wf) { wf->removeMessageCountListener(&wl); wf->removeMessageChangedListener(&wl); } if (chance(500, "order")) ms.clear(); wf = vmime::null; ms.clear(); }
	void release() override { F.drop(); wdrop(); }
	void destroy() override { if (chance(300, "order")) { c.st = vmime::null; c.sess = vmime::null; } F.drop(); wdrop(); c.st = vmime::null; c.sess = vmime::null; }
	void heal() override { g_imap->cfg.rej.clear(); }
	void reject(u32 n) override { for (u32 i = 0; i < n; ++i) g_imap->cfg.rej.push_back(draw_rej({"FETCH", "UID FETCH", "SELECT", "SEARCH", "LOGIN", "LIST", "CAPABILITY", "NOOP", "CLOSE", "STATUS", "STORE", "APPEND"})); }
	void final_check() override {}
	int logins() override { return g_imap->logins; }
	std::vector<WireCmd> wire() override { std::vector<WireCmd> v; for (auto& w : g_imap->wire) v.push_back({w.first, w.second}); return v; }
	int quits() override { int n = 0; for (auto& w : g_imap->wire) if (upper(w.second).find(" LOGOUT") != std::string::npos) ++n; return n; }
};
}
std::unique_ptr<Drv> sim::drv_imap() { auto d = std::make_unique<ImapDrv>(); d->proto = "imap"; return d; }

// POP3 properties P01, P02
#include "pop3.hpp"
#include "drv.hpp"
using namespace sim;
namespace {
struct Cl {
	shared_ptr<vn::session> sess; shared_ptr<vn::store> st;
	void make(const std::string& url = "pop3://mail.example.com") {
		sess = vn::session::create(); auto& p = sess->getProperties(); std::string pre = url.find("pop3s") == 0 ? "store.pop3s." : "store.pop3.";
		p[pre + "auth.username"] = g_pop->cfg.user; p[pre + "auth.password"] = g_pop->cfg.pass;
		if (chance(300, "opt.nosasl")) p[pre + "options.sasl"] = false;
		st = sess->getStore(vmime::utility::url(url));
	}
	shared_ptr<vn::folder> inbox() { return chance(500, "how") ? st->getDefaultFolder() : st->getFolder(vn::folder::path("INBOX")); }
};
std::string gen_message(size_t maxlen, u32 idx) {
	Rng r = subrng("msg"); std::string tok = "tk" + rnd_token(r, 8), h;
	h = "From: a" + tok + "@example.org\r\nSubject: s " + tok + "\r\nMessage-Id: <" + tok + "@id>\r\n";
	u32 extra = r.below(6); for (u32 i = 0; i < extra; ++i) switch (r.below(5)) { case 0: h += "X-" + rnd_token(r, 5) + ": v\r\n"; break; case 1: h += "X-Folded: one\r\n\ttwo\r\n"; break; case 2: h += ".dotted: yes\r\n"; break; case 3: h += "To: <b@c.d>\r\n"; break; default: h += "X-Long: " + std::string(1 + r.below(600), 'h') + "\r\n"; }
	if (r.below(12) == 0) return h;                    // no body, no separator
	std::string b = r.below(8) == 0 ? "" : draw_text(maxlen, tok);
	for (u32 i = 0; i < 3 && r.below(4) == 0 && b.size() > 4; ++i) { size_t p = 1 + r.below(u32(b.size()) - 3); if (b[p] != '\n' && b[p + 1] != '\n') b[p] = '\r'; }
	if (r.below(8) == 0) b += "..\r\r\n.\r\r\n";
	if (r.below(10) == 0) b += "\r\n\r\n";
	(void) idx; return h + "\r\n" + b;
}
size_t maxlen() { size_t n = oneof<size_t>({300, 3000, 40000, 150000}, "maxlen"); return g_net.seg == 1 || g_net.rxmax || g_net.sndcap < 200 ? std::min<size_t>(n, 6000) : n; }
std::string S1(Rng& r, size_t n) { std::string o; while (o.size() < n) o += char(33 + r.below(94)); return o; }   // what a unique id may consist of
void setup(PopCfg cfg, bool netfaults, u32 maxmsgs, const std::string& who) {
	g_pop = new PopWorld; g_pop->cfg = cfg; g_net = draw_net(netfaults);
	dns_add("mail.example.com", DnsEntry{{"192.0.2.1"}, 200, 0, false}); pop_listen("192.0.2.1", cfg.implicit_tls ? 995 : 110);
	u32 n = sized(maxmsgs, "nmsgs"); size_t ml = maxlen(); (void) who; if (maxmsgs > 2 && g_net.seg != 1 && !g_net.rxmax && chance(120, "nmsgs.many")) { n = 8 + choose(20, "nmsgs.more"); ml = std::min<size_t>(ml, 300); }
	for (u32 i = 0; i < n; ++i) { PopMsg m; m.data = gen_message(ml, i); Rng r = subrng("uid"); m.uid = fmt("%u", i) + "." + rnd_token(r, 1 + r.below(60)); if (r.below(3) == 0) { m.uid = r.below(2) ? S1(r, 1 + r.below(4)) : std::string(); m.uid += fmt("%u", i) + S1(r, r.below(2) ? r.below(4) : r.below(60)); for (auto& o : g_pop->drop) if (o.uid == m.uid) m.uid += fmt("%u", 1000 + i); } g_pop->drop.push_back(m); }
}
bool content_ok(const std::string& got, const std::string& want) { return got == want || got + "\r\n" == want; }
std::string hdr_of(const std::string& d) { size_t e = d.find("\r\n\r\n"); return e == std::string::npos ? d : d.substr(0, e + 2); }
std::string canon(const vmime::header& h) { std::string o; for (size_t i = 0; i < h.getFieldCount(); ++i) { auto f = h.getFieldAt(i); o += f->getName() + ":" + f->getValue()->generate() + "\n"; } return o; }
// one retrieval of anything, checked against the server's copy
void retrieve(shared_ptr<vn::folder> f, const std::vector<PopMsg>& ref, bool faults, const std::set<size_t>& del) {
	size_t n = 1 + choose(u32(ref.size()), "which"); const PopMsg& want = ref[n - 1]; shared_ptr<vn::message> m; bool gone = del.count(n);
	Out g = call("getMessage", [&] { m = f->getMessage(n); }); if (!g.ok) { CHECK(faults, "pop3.getmessage", "getMessage(%zu) failed: %s %s", n, g.type.c_str(), g.what.c_str()); return; }
	switch (choose(5, "what")) {
		case 0: case 1: {
			Sink s; if (faults && chance(150, "sink.fail?")) s.fail_at = sized(u32(want.data.size()), "sink.fail"); Progress p; bool up = chance(500, "prog");
			Out o = call(fmt("extract(%zu)", n), [&] { m->extract(s, up ? &p : nullptr); });
			if (o.ok) { CHECK(!gone, "pop3.extract.deleted", "extract() of a message that the server refuses to retrieve returned normally"); CHECK(!s.failed, "pop3.sink_error_swallowed", "extract() returned normally although writing its output failed"); CHECK(content_ok(s.d, want.data), "pop3.content", "extract(%zu) delivered something else than the stored message: %s", n, diff_at(s.d, want.data).c_str()); if (up) CHECK(p.bad.empty() && p.st == 2, "pop3.progress", "progress listener: %s", p.bad.empty() ? "never stopped" : p.bad.c_str()); nontrivial(); }
			else CHECK(faults || gone || s.failed, "pop3.extract.failed", "extract(%zu) failed although nothing went wrong: %s %s", n, o.type.c_str(), o.what.c_str());
			if (!o.ok && gone && !faults) CHECK(o.cmd, "pop3.extract.err", "a refused RETR surfaced as %s (%s) instead of a command error", o.type.c_str(), o.what.c_str());
			break;
		}
		case 2: {
			shared_ptr<vmime::message> pm; Out o = call(fmt("getParsedMessage(%zu)", n), [&] { pm = m->getParsedMessage(); });
			if (o.ok) { vmime::message ref2; ref2.parse(want.data.size() > 1 && want.data.compare(want.data.size() - 2, 2, "\r\n") == 0 ? want.data.substr(0, want.data.size() - 2) : want.data); CHECK(canon(*pm->getHeader()) == canon(*ref2.getHeader()), "pop3.parsed", "getParsedMessage(%zu) has another header than the stored message", n); nontrivial(); }
			else CHECK(faults || gone, "pop3.extract.failed", "getParsedMessage(%zu) failed although nothing went wrong: %s %s", n, o.type.c_str(), o.what.c_str());
			break;
		}
		default: {
			int attr = 0; if (chance(600, "size")) attr |= vn::fetchAttributes::SIZE; if (chance(600, "uid")) attr |= vn::fetchAttributes::UID; if (chance(600, "hdr") || !attr) attr |= vn::fetchAttributes::FULL_HEADER;
			std::vector<shared_ptr<vn::message>> v = {m}; std::vector<size_t> ns = {n}; bool multi = chance(500, "multi"); bool anygone = gone;
			if (multi) { u32 k = choose(4, "more"); for (u32 i = 0; i < k; ++i) { size_t q = 1 + choose(u32(ref.size()), "which"); v.push_back(f->getMessage(q)); ns.push_back(q); if (del.count(q)) anygone = true; } }
			Progress p; Out o = call(fmt("fetch(%zu messages, %d)", v.size(), attr), [&] { if (multi) f->fetchMessages(v, vn::fetchAttributes(attr), &p); else f->fetchMessage(m, vn::fetchAttributes(attr)); });
			if (!o.ok) { CHECK(faults || anygone, "pop3.fetch.failed", "fetch failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); break; }
			for (size_t i = 0; i < v.size(); ++i) {
				const PopMsg& w = ref[ns[i] - 1]; bool refused = del.count(ns[i]) || g_pop->rejections;
				if (attr & vn::fetchAttributes::SIZE) { size_t sz = ~size_t(0); Out q = call("getSize", [&] { sz = v[i]->getSize(); }); if (q.ok) CHECK(sz == w.data.size(), "pop3.size", "message %zu: size %zu, the server said %zu", ns[i], sz, w.data.size()); else CHECK(refused, "pop3.size.missing", "message %zu: no size after a successful fetch", ns[i]); }
				if (attr & vn::fetchAttributes::UID) { std::string u = std::string(v[i]->getUID()); CHECK(u == w.uid || (refused && u.empty()), "pop3.uid", "message %zu: uid \"%s\", the server said \"%s\"", ns[i], esc(u).c_str(), esc(w.uid).c_str()); }
				if (attr & vn::fetchAttributes::FULL_HEADER) { vmime::header h; h.parse(hdr_of(w.data)); std::string a = canon(*v[i]->getHeader()), b = canon(h); CHECK(a == b, "pop3.header", "message %zu: header differs: %s", ns[i], diff_at(a, b).c_str()); }
			}
			nontrivial();
		}
	}
}
PopRej draw_rej() {
	PopRej r; r.cmd = oneof<std::string>({"DELE", "RETR", "TOP", "LIST", "UIDL", "STAT", "RSET", "NOOP", "QUIT"}, "rej.cmd"); r.nth = int(sized(4, "rej.nth")); r.sticky = chance(150, "rej.sticky");
	if (chance(250, "rej.late")) r.delay = 45000000; else if (chance(150, "rej.drop")) r.drop = true; r.text = oneof<std::string>({"-ERR refused", "-ERR", "-ERR [SYS/TEMP] try again later", "-ERR ...", "-ERR a much longer explanation of what went wrong, far beyond the usual length of such lines"}, "rej.text");
	return r;
}
void vclose(Cl& c) { if (c.st->isConnected() && chance(800, "end.disconnect")) call("disconnect", [&] { c.st->disconnect(); }); c.st = vmime::null; c.sess = vmime::null; }
struct L : vn::events::messageChangedListener, vn::events::messageCountListener {
	std::vector<size_t> changed; std::vector<size_t> added, removed;
	void messageChanged(const shared_ptr<vn::events::messageChangedEvent>& e) override { for (size_t n : e->getNumbers()) changed.push_back(n); }
	void messagesAdded(const shared_ptr<vn::events::messageCountEvent>& e) override { for (size_t n : e->getNumbers()) added.push_back(n); }
	void messagesRemoved(const shared_ptr<vn::events::messageCountEvent>& e) override { for (size_t n : e->getNumbers()) removed.push_back(n); }
};
}
SCENARIO(P01, retrieve, 10) {
	PopCfg cfg = draw_pop(); cfg.implicit_tls = chance(120, "pop3s"); setup(cfg, false, 6, ""); app_init(); Cl c; c.make(cfg.implicit_tls ? "pop3s://mail.example.com" : "pop3://mail.example.com"); if (cfg.implicit_tls) c.st->setCertificateVerifier(verifier({"ca"}));
	c.st->setTimeoutHandlerFactory(to_factory(ToCfg{600000000, 0, chance(300, "to.none")}));
	Out o = call("connect", [&] { c.st->connect(); }); CHECK(o.ok, "pop3.connect.failed", "connect() failed against a healthy server: %s %s", o.type.c_str(), o.what.c_str());
	auto f = c.inbox(); o = call("open", [&] { f->open(vn::folder::MODE_READ_WRITE); }); CHECK(o.ok, "pop3.open.failed", "open() failed: %s %s", o.type.c_str(), o.what.c_str());
	auto ref = g_pop->drop; CHECK(f->getMessageCount() == ref.size(), "pop3.count", "message count %zu, the server holds %zu", f->getMessageCount(), ref.size());
	if (ref.empty()) { nontrivial(); size_t a = 9, b = 9; o = call("status", [&] { f->status(a, b); }); CHECK(o.ok && a == 0, "pop3.status", "status of an empty maildrop"); std::vector<shared_ptr<vn::message>> v; if (chance(500, "all")) { o = call("fetch all", [&] { v = f->getAndFetchMessages(vn::messageSet::byNumber(1, size_t(-1)), vn::fetchAttributes(vn::fetchAttributes::SIZE | vn::fetchAttributes::UID)); }); } }
	else { u32 n = 1 + sized(6, "ops"); for (u32 i = 0; i < n; ++i) { retrieve(f, ref, false, {}); if (chance(100, "status")) { size_t a, b; o = call("status", [&] { f->status(a, b); }); CHECK(o.ok && a == ref.size(), "pop3.status", "status() counts %zu messages, the server %zu", a, ref.size()); } } }
	o = call("close", [&] { f->close(chance(500, "expunge")); }); CHECK(o.ok, "pop3.close.failed", "close() failed: %s %s", o.type.c_str(), o.what.c_str());
	f = vmime::null; vclose(c); advance(60000000); CHECK(g_pop->removed.empty(), "pop3.lost", "messages were removed although none was deleted"); finish_checks();
}
// refusals, broken connections, failing output: an error or the true content, never something else
// several threads, each with a session and a store of its own
SCENARIO(P01, threads, 3) {
	setup(draw_pop(), false, 4, ""); app_init(); auto ref = g_pop->drop; u32 nt = 2 + choose(2, "threads"), g = oneof<u32>({0, 20, 300, 5000, 50000}, "bb.gap"); std::vector<std::unique_ptr<Cl>> cs; std::vector<shared_ptr<vn::folder>> fs; std::vector<u32> k;
	for (u32 i = 0; i < nt; ++i) { cs.emplace_back(new Cl); cs[i]->make(); cs[i]->st->setTimeoutHandlerFactory(to_factory(ToCfg{600000000, 0, chance(300, "to.none")})); fs.push_back(vmime::null); k.push_back(ref.empty() ? 0 : 1 + choose(g && g < 500 ? 2 : 4, "ops")); }
	for (u32 i = 0; i < nt; ++i) spawn(fmt("thread%u", i), [&, i] {
		Out o = call("connect", [&] { cs[i]->st->connect(); fs[i] = cs[i]->inbox(); fs[i]->open(vn::folder::MODE_READ_WRITE); }); CHECK(o.ok, "pop3.connect.failed", "connect() and open() failed against a healthy server: %s %s", o.type.c_str(), o.what.c_str());
		CHECK(fs[i]->getMessageCount() == ref.size(), "pop3.count", "message count %zu, the server holds %zu", fs[i]->getMessageCount(), ref.size());
		for (u32 j = 0; j < k[i]; ++j) retrieve(fs[i], ref, false, {});
		o = call("close", [&] { fs[i]->close(false); fs[i] = vmime::null; cs[i]->st->disconnect(); }); CHECK(o.ok, "pop3.close.failed", "close() failed: %s %s", o.type.c_str(), o.what.c_str()); });
	if (g) set_bb_preempt(g); else set_preempt(oneof<u32>({50, 300, 800}, "preempt")); join_all(); set_bb_preempt(0); set_preempt(0); nontrivial();
	for (auto& c : cs) vclose(*c); advance(60000000); CHECK(g_pop->removed.empty(), "pop3.lost", "messages were removed although none was deleted"); finish_checks();
}
SCENARIO(P01, faults, 10) {
	PopCfg cfg = draw_pop(); bool nf = chance(600, "net?"); u32 nr = nf ? 0 : 1 + choose(2, "rej.n"); for (u32 i = 0; i < nr; ++i) cfg.rej.push_back(draw_rej()); setup(cfg, nf, 5, "");
	if (nf) { NetCfg::Cut k; k.conn = 0; k.dir = chance(850, "cut.dir") ? 0 : 1; k.at = k.dir ? sized(200, "cut.at") : chance(600, "cut.deep") ? sized(40000, "cut.at") : sized(900, "cut.at"); k.kind = 1 + int(choose(3, "cut.kind")); if (k.kind == 3 && chance(400, "cut.heal")) k.heal = oneof<u64>({1000000, 25000000, 40000000, 100000000}, "cut.healt"); g_net.cuts.push_back(k); }
	if (chance(500, "nonempty") && g_pop->drop.empty()) { g_pop->drop.push_back(PopMsg{gen_message(3000, 0), "u"}); }
	app_init(); Cl c; c.make(); ToCfg tc; tc.limit = 30000000; tc.continues = int(choose(3, "to.cont")); c.st->setTimeoutHandlerFactory(to_factory(tc)); auto ref = g_pop->drop;
	u32 n = 1 + sized(6, "ops"); shared_ptr<vn::folder> f;
	for (u32 i = 0; i < n; ++i) {
		if (!c.st->isConnected()) { f = vmime::null; if (i && !chance(700, "reconnect")) break; call("connect", [&] { c.st->connect(); }); if (!c.st->isConnected()) continue; }
		if (!f) { auto g = c.inbox(); Out o = call("open", [&] { g->open(vn::folder::MODE_READ_ONLY); }); if (!o.ok) continue; f = g; CHECK(f->getMessageCount() == ref.size(), "pop3.count", "message count %zu, the server holds %zu", f->getMessageCount(), ref.size()); }
		if (ref.empty()) break;
		retrieve(f, ref, true, {});
		if (chance(150, "pause")) advance(oneof<u64>({1000000, 60000000}, "pause.t"));
	}
	// once the faults stop, everything works again
	g_pop->cfg.rej.clear(); g_net = NetCfg(); advance(100000000); f = vmime::null;
	for (int i = 0; i < 2; ++i) {
		if (!c.st->isConnected()) { Out o = call("connect", [&] { c.st->connect(); }); CHECK(o.ok, "pop3.reconnect.failed", "connect() failed after the faults stopped: %s %s", o.type.c_str(), o.what.c_str()); }
		f = c.inbox(); Out o = call("open", [&] { f->open(vn::folder::MODE_READ_ONLY); }); if (!o.ok) { CHECK(i == 0, "pop3.no_recovery", "open() on a fresh connection failed: %s %s", o.type.c_str(), o.what.c_str()); f = vmime::null; continue; }
		if (!ref.empty()) for (int k = 0; k < 2; ++k) { bool first = i == 0; retrieve(f, ref, first, {}); if (!c.st->isConnected()) break; }
		f = vmime::null;
		if (i == 0 && c.st->isConnected() && chance(500, "cycle")) call("disconnect", [&] { c.st->disconnect(); });
	}
	vclose(c); advance(60000000); CHECK(g_pop->removed.empty(), "pop3.lost", "messages were removed although none was deleted"); finish_checks();
}
SCENARIO(P02, deletions, 10) {
	PopCfg cfg = draw_pop(); u32 nr = sized(3, "rej.n"); for (u32 i = 0; i < nr; ++i) cfg.rej.push_back(draw_rej()); bool nf = chance(250, "net?"); setup(cfg, nf, 8, "");
	if (nf) { NetCfg::Cut k; k.conn = int(choose(2, "cut.conn")); k.dir = int(choose(2, "cut.dir")); k.at = sized(k.dir ? 300 : 800, "cut.at"); k.kind = 1 + int(choose(3, "cut.kind")); if (k.kind == 3 && chance(400, "cut.heal")) k.heal = oneof<u64>({1000000, 25000000, 45000000}, "cut.healt"); g_net.cuts.push_back(k); }
	app_init(); Cl c; c.make(); c.st->setTimeoutHandlerFactory(to_factory(ToCfg{30000000, int(choose(2, "to.cont")), false}));
	struct Obj { shared_ptr<vn::message> m; size_t n; }; std::vector<Obj> objs; shared_ptr<vn::folder> f; L lis;
	// what the user was told, per session
	std::set<size_t> told; bool expunged = false, unsure = false; std::vector<PopMsg> ref; std::set<std::string> must_go; size_t sess0 = 0; bool late = false; for (auto& r : cfg.rej) if (r.delay) late = true; for (auto& k : g_net.cuts) if (k.kind == 3) late = true;
	std::set<std::string> may_go;
	auto end_session = [&](bool told_quit) {
		// evaluate the session that just ended
		advance(200000000);
		for (size_t i = sess0; i < g_pop->infos.size(); ++i) {
			auto& in = g_pop->infos[i];
			if (!in.committed.empty()) { CHECK(!f || expunged || unsure, "pop3.removed_unasked", "%zu messages were removed by a session whose folder had not been closed with expunge", in.committed.size()); for (size_t n : in.committed) CHECK(told.count(n), "pop3.removed_other", "message %zu was removed although its deletion had not been reported as successful", n); }
			if (in.quit && told_quit && expunged && !unsure && !in.quit_refused) CHECK(in.committed == told, "pop3.not_removed", "%zu messages were removed at the end of the session, %zu had been reported as deleted", in.committed.size(), told.size());
		}
		sess0 = g_pop->infos.size(); told.clear(); expunged = false; unsure = false;
	};
	bool connected = false; u32 ops = 2 + sized(14, "ops");
	for (u32 i = 0; i < ops; ++i) {
		if (connected && !c.st->isConnected()) { // connection lost: nothing may be removed
			advance(200000000); for (size_t k = sess0; k < g_pop->infos.size(); ++k) CHECK(g_pop->infos[k].committed.empty() || g_pop->infos[k].quit, "pop3.lost_commit", "messages removed by a lost connection");
			for (size_t k = sess0; k < g_pop->infos.size(); ++k) CHECK(g_pop->infos[k].committed.empty(), "pop3.lost_commit", "messages were removed although the connection was lost before the session ended");
			f = vmime::null; if (chance(600, "keepobjs")) { for (auto& o : objs) call("getFlags", [&] { o.m->getFlags(); Sink s; o.m->extract(s); }); } objs.clear(); connected = false; sess0 = g_pop->infos.size(); told.clear(); expunged = unsure = false;
		}
		if (!connected) { Out o = call("connect", [&] { c.st->connect(); }); connected = c.st->isConnected(); CHECK(o.ok == connected, "pop3.connected", "connect() %s but isConnected() is %d", o.ok ? "returned" : "threw", int(connected)); if (!connected) { advance(100000000); sess0 = g_pop->infos.size(); } continue; }
		auto ss = dynamic_cast<PopSess*>(net_conns().back()->peer.get()); int rj = g_pop->rejections; bool clean = !late && !nf;
		if (!f) {
			auto g = c.inbox(); Out o = call("open", [&] { g->open(vn::folder::MODE_READ_WRITE); }); if (!o.ok) { CHECK(!clean || g_pop->rejections != rj, "pop3.open.failed", "open() failed: %s", o.what.c_str()); continue; }
			f = g; ref = ss->msgs; f->addMessageChangedListener(&lis); f->addMessageCountListener(&lis);
			CHECK(f->getMessageCount() == ref.size(), "pop3.count", "message count %zu, the maildrop of this session has messages 1 to %zu (%zu marked as deleted)", f->getMessageCount(), ref.size(), ss->del.size());
			continue;
		}
		switch (weighted({40, 15, 10, 15, 6, 10, 8}, "op")) {
			case 0: {
				vn::messageSet set = vn::messageSet::empty(); std::set<size_t> want; if (ref.empty()) break;
				if (chance(150, "del.all")) { set = vn::messageSet::byNumber(1, size_t(-1)); for (size_t n = 1; n <= ref.size(); ++n) want.insert(n); } else { u32 k = 1 + choose(3, "del.n"); std::vector<size_t> v; for (u32 q = 0; q < k; ++q) { size_t n = 1 + choose(u32(ref.size()), "which"); v.push_back(n); want.insert(n); } set = vn::messageSet::byNumber(std::vector<size_t>(want.begin(), want.end())); }
				std::set<size_t> before = ss->del; lis.changed.clear();
				Out o = call("deleteMessages", [&] { f->deleteMessages(set); });
				if (o.ok) for (size_t n : want) told.insert(n);
				std::set<size_t> newly; for (size_t n : ss->del) if (!before.count(n)) newly.insert(n);
				if (c.st->isConnected()) {
					if (o.ok) for (size_t n : want) CHECK(ss->del.count(n) && !before.count(n), "pop3.delete.not_done", "deleteMessages() returned normally but message %zu is not marked as deleted by this call", n);
					else { CHECK(!clean || g_pop->rejections != rj || std::any_of(want.begin(), want.end(), [&](size_t n) { return before.count(n) > 0; }), "pop3.delete.failed", "deleteMessages() failed: %s", o.what.c_str()); for (size_t n : newly) told.insert(n); }
					std::set<size_t> ev(lis.changed.begin(), lis.changed.end()); CHECK(ev == newly && lis.changed.size() == newly.size(), "pop3.delete.event", "listeners were told of %zu changed messages, %zu were newly marked as deleted", lis.changed.size(), newly.size());
				} else for (size_t n : newly) told.insert(n);
				nontrivial(); break;
			}
			case 1: if (!ref.empty()) { size_t n = 1 + choose(u32(ref.size()), "which"); shared_ptr<vn::message> m; Out o = call("getMessage", [&] { m = f->getMessage(n); }); CHECK(o.ok, "pop3.getmessage", "getMessage(%zu) failed although the session has messages 1 to %zu: %s", n, ref.size(), o.type.c_str()); objs.push_back({m, n}); } break;
			case 2: { size_t a = 0, b = 0; Out o = call("status", [&] { f->status(a, b); }); if (o.ok) CHECK(a == ref.size() || a == ref.size() - ss->del.size(), "pop3.status", "status() counts %zu messages: the session has %zu, %zu of them marked as deleted", a, ref.size(), ss->del.size()); if (c.st->isConnected()) CHECK(f->getMessageCount() == ref.size(), "pop3.count", "message count %zu, the maildrop of this session has messages 1 to %zu (%zu marked as deleted)", f->getMessageCount(), ref.size(), ss->del.size()); break; }
			case 3: if (!ref.empty()) retrieve(f, ref, g_pop->rejections || late || nf || !cfg.rej.empty(), ss->del); break;
			case 4: call("noop", [&] { c.st->noop(); }); break;
			case 5: {
				bool ex = chance(500, "expunge"); Out o = call(ex ? "close(expunge)" : "close", [&] { f->close(ex); });
				if (o.ok) { objs.clear(); f->removeMessageChangedListener(&lis); f->removeMessageCountListener(&lis); f = vmime::null; if (!ex) { told.clear(); if (c.st->isConnected()) CHECK(ss->del.empty(), "pop3.close.undelete", "close() without expunge returned, but %zu messages are still marked as deleted", ss->del.size()); expunged = false; } else expunged = true; }
				else if (c.st->isConnected()) unsure = true;
				break;
			}
			case 6: {
				bool hadopen = bool(f); if (hadopen && chance(700, "closefirst")) break;
				if (hadopen) unsure = true;
				Out o = call("disconnect", [&] { c.st->disconnect(); }); CHECK(o.ok, "pop3.disconnect.failed", "disconnect() threw: %s %s", o.type.c_str(), o.what.c_str()); CHECK(!c.st->isConnected(), "pop3.disconnect.still", "still connected after disconnect()");
				end_session(true); f = vmime::null; objs.clear(); connected = false; break;
			}
		}
		if (f && c.st->isConnected()) for (auto& o : objs) { bool d = (o.m->getFlags() & vn::message::FLAG_DELETED) != 0; CHECK(d == (ss->del.count(o.n) > 0), "pop3.deleted_flag", "message %zu: deleted flag is %d, on the server it is %s", o.n, int(d), ss->del.count(o.n) ? "marked as deleted" : "not marked"); }
	}
	bool lost = connected && !c.st->isConnected();
	if (connected && !lost && f) { Out o = call("close", [&] { f->close(true); }); if (o.ok) expunged = true; else unsure = true; f = vmime::null; }
	bool dis = connected && c.st->isConnected(); objs.clear(); f = vmime::null;
	if (dis) { call("disconnect", [&] { c.st->disconnect(); }); end_session(true); }
	c.st = vmime::null; c.sess = vmime::null; advance(200000000); finish_checks();
}

// ------------------------------------------------------------------ driver for the cross-protocol scenarios
namespace {
struct PopDrv : Drv {
	Cl c; shared_ptr<vn::folder> f; std::set<size_t> gone; std::set<std::string> asked;
	void serve(bool nf) override {
		PopCfg cfg = draw_pop(); cfg.implicit_tls = srv.implicit_tls; if (srv.starttls) cfg.capa.insert("STLS"); cfg.stls_ok = srv.starttls_ok; cfg.tls = srv.tls; cfg.inject_after_stls = srv.inject; if (!srv.mechs.empty()) { cfg.mechs = srv.mechs; cfg.mechs_clear = srv.mechs_clear; cfg.capa_ok = true; } cfg.sasl = srv.sasl;
		setup(cfg, nf, srv.maxmsgs, ""); if (srv.maxlen) for (auto& m : g_pop->drop) if (m.data.size() > srv.maxlen) m.data = m.data.substr(0, m.data.find("\r\n") + 2);
	}
	void listen(const std::string& ip) override { pop_listen(ip, port()); }
	std::function<std::shared_ptr<Peer>()> peer_factory() override { return net_listener("192.0.2.1", port())->make; }
	void make() override {
		c.sess = vn::session::create(); std::string sch = srv.implicit_tls ? "pop3s" : "pop3", pre = "store." + sch + "."; auto& p = c.sess->getProperties(); if (cli.tls) p[pre + "connection.tls"] = true; if (cli.required) p[pre + "connection.tls.required"] = true;
		p[pre + "auth.username"] = cli.user.empty() ? g_pop->cfg.user : cli.user; p[pre + "auth.password"] = cli.pass.empty() ? g_pop->cfg.pass : cli.pass; if (cli.sasl >= 0 ? !cli.sasl : chance(300, "opt.nosasl")) p[pre + "options.sasl"] = false;
		if (cli.fallback >= 0) p[pre + "options.sasl.fallback"] = bool(cli.fallback); if (!cli.token.empty()) p[pre + "auth.accesstoken"] = cli.token; if (cli.apop >= 0) p[pre + "options.apop"] = bool(cli.apop); if (cli.apop_fallback >= 0) p[pre + "options.apop.fallback"] = bool(cli.apop_fallback);
		c.st = c.sess->getStore(drv_url(sch, pre, p, cli)); if (cli.tracer) c.st->setTracerFactory(tracer_factory()); if (cli.authenticator) c.st->setAuthenticator(cli.authenticator); if (!cli.nover) c.st->setCertificateVerifier(cli.ver ? cli.ver : verifier(cli.roots, cli.trusted));
	}
	shared_ptr<vn::service> svc() override { return c.st; }
	void op(bool faults) override {
		if (f && !f->isOpen()) f = vmime::null;
		if (!f) {
			if (chance(150, "op.noop")) { Out o = call("noop", [&] { c.st->noop(); }); if (exact) CHECK(o.ok, "pop3.noop.failed", "noop() failed: %s", o.what.c_str()); return; }
			auto g = c.inbox(); Out o = call("open", [&] { g->open(vn::folder::MODE_READ_WRITE); }); if (exact) CHECK(o.ok, "pop3.open.failed", "open() failed: %s %s", o.type.c_str(), o.what.c_str()); if (!o.ok) return; f = g; auto& in = g_pop->infos.back(); gone = in.deleted; return;
		}
		switch (weighted({60, 10, 10, 10, 10}, "op")) {
			case 1: { Out o = call("noop", [&] { c.st->noop(); }); if (exact) CHECK(o.ok, "pop3.noop.failed", "noop() failed: %s", o.what.c_str()); break; }
			case 2: { size_t a = 0, b = 0; Out o = call("status", [&] { f->status(a, b); }); if (exact) CHECK(o.ok, "pop3.status.failed", "status() failed: %s", o.what.c_str()); break; }
			case 3: if (!g_pop->drop.empty() && !srv.quiet) { size_t n = 1 + choose(u32(g_pop->drop.size()), "which"); call("delete", [&] { f->deleteMessages(vn::messageSet::byNumber(n)); }); gone.insert(n); asked.insert(g_pop->drop[n - 1].uid); break; } // fall through
			case 4: if (chance(300, "op.close")) { Out o = call("close", [&] { f->close(false); }); if (exact) CHECK(o.ok, "pop3.close.failed", "close() failed: %s %s", o.type.c_str(), o.what.c_str()); f = vmime::null; break; } // fall through
			default: if (!g_pop->drop.empty()) retrieve(f, g_pop->drop, faults, gone);
		}
	}
	std::vector<shared_ptr<vn::message>> ms;
	void wild() override {
		if (!f || !f->isOpen()) { auto g = c.inbox(); Out o = call("open", [&] { g->open(chance(500, "rw") ? vn::folder::MODE_READ_WRITE : vn::folder::MODE_READ_ONLY); }); if (o.ok) f = g; else return; }
		switch (choose(9, "wild")) {
			case 0: call("noop", [&] { c.st->noop(); }); break;
			case 1: { size_t a, b; call("status", [&] { f->status(a, b); }); break; }
			case 2: call("delete", [&] { f->deleteMessages(vn::messageSet::byNumber(1 + choose(4, "which"))); }); break;
			case 3: call("close", [&] { f->close(chance(300, "expunge")); }); break;
			case 4: call("getAndFetch", [&] { auto v = f->getAndFetchMessages(vn::messageSet::byNumber(1, size_t(-1)), vn::fetchAttributes(vn::fetchAttributes::SIZE | vn::fetchAttributes::UID | vn::fetchAttributes::FULL_HEADER)); for (auto& m : v) { if (ms.size() < 12) ms.push_back(m); } }); break;
			default: {
				shared_ptr<vn::message> m; if (!ms.empty() && chance(500, "reuse")) m = ms[choose(u32(ms.size()), "m")]; else call("getMessage", [&] { m = f->getMessage(1 + choose(u32(std::min<size_t>(f->getMessageCount(), 50)), "which")); ms.push_back(m); }); if (!m) break;
				if (chance(300, "extract")) { Sink s; call("extract", [&] { m->extract(s); }); } else if (chance(300, "parsed")) call("parsed", [&] { auto p = m->getParsedMessage(); }); else call("fetch", [&] { f->fetchMessage(m, vn::fetchAttributes(vn::fetchAttributes::SIZE | vn::fetchAttributes::UID | vn::fetchAttributes::FULL_HEADER)); });
				call("getters", [&] { m->getFlags(); m->getUID(); m->getSize(); m->getHeader(); m->isExpunged(); m->getNumber(); });
			}
		}
	}
	void release() override { if (chance(500, "order")) { ms.clear(); f = vmime::null; } else { f = vmime::null; ms.clear(); } }
	void destroy() override { if (chance(300, "order")) { c.st = vmime::null; c.sess = vmime::null; } release(); c.st = vmime::null; c.sess = vmime::null; }
	void heal() override { g_pop->cfg.rej.clear(); }
	void reject(u32 n) override { for (u32 i = 0; i < n; ++i) g_pop->cfg.rej.push_back(draw_rej()); }
	void final_check() override { advance(60000000); for (auto& u : g_pop->removed) CHECK(asked.count(u), "pop3.lost", "a message was removed that nobody asked to delete"); }
	int logins() override { return g_pop->logins; }
	std::vector<WireCmd> wire() override { std::vector<WireCmd> v; for (auto& w : g_pop->wire) v.push_back({w.first, w.second}); return v; }
	int quits() override { return g_pop->quits; }
};
}
std::unique_ptr<Drv> sim::drv_pop() { auto d = std::make_unique<PopDrv>(); d->proto = "pop3"; return d; }

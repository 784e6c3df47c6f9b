// SMTP properties S01-S04
#include "smtp.hpp"
#include "drv.hpp"
#include "values.hpp"
#include "vmime/net/smtp/SMTPSendOptions.hpp"
#include "vmime/net/smtp/DSNAttributes.hpp"
#include "vmime/contentTypeField.hpp"
using namespace sim;
namespace {
struct Sub { std::string from; std::vector<std::string> rcpts; std::string data; bool dataplus = true; bool ok = false; bool expect_fail = false; Out out; std::string token; bool src_failed = false; bool rejected = false; size_t size = 0; bool before_faults = true; u64 rej_before = 0; bool bdat_path = false; bool asmsg = false; };

struct Client {
	shared_ptr<vn::session> sess; shared_ptr<vn::transport> tr_; std::vector<Sub> subs; bool tracer = false, parallel = false; size_t conn = 0;   // parallel: one of several threads; conn: an equivalent connection
	void make(const std::string& url = "smtp://mail.example.com") {
		sess = vn::session::create();
		tr_ = sess->getTransport(vmime::utility::url(url));
		tr_->setTracerFactory(tracer ? tracer_factory() : vmime::null);
	}
};

std::string gen_addr(Rng& r, bool utf8) {
	static const char* doms[] = {"example.org", "example.com", "a.b", "xn--bcher-kva.example", "b\xc3\xbc" "cher.example", "\xe4\xbe\x8b\xe3\x81\x88.example"};
	std::string l = rnd_token(r, 1 + r.below(10)); if (r.below(4) == 0) l += "." + rnd_token(r, 3); if (r.below(6) == 0) l += "+tag"; if (r.below(9) == 0) l += "'=x";
	if (r.below(12) == 0) { static const char* odd[] = {" b", "\"q\"", "a@b", "back\\slash", "(c)", "<x>", ",;:"}; l.insert(r.below(u32(l.size()) + 1), odd[r.below(7)]); while (l.size() > 1 && (l.back() == ' ')) l += "z"; }
	if (utf8 && r.below(4) == 0) { l += "\xc3\xa9"; if (r.below(3) == 0) l += rnd_token(r, 1 + r.below(60)); }
	return l + "@" + doms[r.below(utf8 ? 6 : 4)];
}
bool eight(const std::string& s) { for (char c : s) if (c & 0x80) return true; return false; }
std::string canon_addr(const std::string& a) { size_t at = a.rfind('@'); return smtp_canon(a.substr(0, at), a.substr(at + 1)); }

vmime::mailbox mbox(const std::string& a) {
	size_t at = a.rfind('@');
	return vmime::mailbox(vmime::emailAddress(vmime::word(a.substr(0, at), vmime::charsets::UTF_8), vmime::word(a.substr(at + 1), vmime::charsets::UTF_8)));
}

// recipients (and what must not be transmitted) taken from the header fields
struct ByHdr { bool on = false; vmime::mailbox from, sender; bool has_sender = false; std::vector<vmime::mailbox> rcpts; std::vector<u32> group, field; bool stale = false; };
shared_ptr<vmime::message> make_msg(const std::string& body, const std::string& enc, int shape, const std::string& token, shared_ptr<Source> src, const ByHdr& bh = ByHdr(), bool hidden = false) {
	auto m = make_shared<vmime::message>();
	auto h = m->getHeader();
	if (bh.on) {
		h->From()->setValue(bh.from); if (bh.has_sender) h->Sender()->setValue(bh.sender); h->Date()->setValue(vmime::datetime(2020, 2, 3, 4, 5, 6)); h->MimeVersion()->setValue(std::string("1.0"));
		const char* const F[] = {"To", "Cc", "Bcc"}; for (u32 f = 0; f < (hidden ? 3u : 2u); ++f) { vmime::addressList l; shared_ptr<vmime::mailboxGroup> g; u32 gid = 0; for (size_t i = 0; i < bh.rcpts.size(); ++i) if (bh.field[i] == f) { auto mb = make_shared<vmime::mailbox>(bh.rcpts[i]); if (!bh.group[i]) { l.appendAddress(mb); g = nullptr; } else { if (!g || gid != bh.group[i]) { g = make_shared<vmime::mailboxGroup>(vmime::text("group")); gid = bh.group[i]; l.appendAddress(g); } g->appendMailbox(mb); } } if (l.getAddressCount()) h->getField(F[f])->setValue(l); }
		if (bh.stale && hidden) { h->getField("Return-Path")->setValue(vmime::path("old", "return.example")); h->getField("Original-Recipient")->setValue(std::string("rfc822; hidden@return.example")); }
	} else {
	h->From()->setValue(vmime::mailbox("from@example.org")); 
	{ vmime::addressList l; l.appendAddress(make_shared<vmime::mailbox>("to@example.org")); h->To()->setValue(l); } }
	h->Subject()->setValue(vmime::text("s " + std::string(token[2] & 1 ? "caf\xc3\xa9 " : "") + token, vmime::charsets::UTF_8)); h->MessageId()->setValue(vmime::messageId(token + "@id"));
	auto content = [&]() -> shared_ptr<vmime::contentHandler> {
		if (src) return make_shared<vmime::streamContentHandler>(src, src->d.size());
		return make_shared<vmime::stringContentHandler>(body);
	};
	if (shape == 0) {
		m->getBody()->setContents(content()); h->ContentType()->setValue(vmime::mediaType("text/plain")); h->ContentTransferEncoding()->setValue(vmime::encoding(enc));
	} else {
		h->ContentType()->setValue(vmime::mediaType("multipart/mixed")); vmime::dynamicCast<vmime::contentTypeField>(h->ContentType())->setBoundary("=_b" + token);
		auto p1 = make_shared<vmime::bodyPart>(), p2 = make_shared<vmime::bodyPart>();
		p1->getBody()->setContents(make_shared<vmime::stringContentHandler>("text part\r\n.\r\n")); p1->getHeader()->ContentType()->setValue(vmime::mediaType("text/plain")); p1->getHeader()->ContentTransferEncoding()->setValue(vmime::encoding("7bit"));
		p2->getBody()->setContents(content()); p2->getHeader()->ContentType()->setValue(vmime::mediaType("application/octet-stream")); p2->getHeader()->ContentTransferEncoding()->setValue(vmime::encoding(enc));
		m->getBody()->appendPart(p1); m->getBody()->appendPart(p2);
	}
	return m;
}

// one send(): draws its arguments, performs it, records what happened
bool want_chunks;   // several BDAT chunks per message
void do_send(Client& c, bool srcfaults, size_t maxlen, bool mustsucceed) {
	Rng r = subrng("send.args");
	Sub s; s.token = "tk" + rnd_token(r, 8);
	auto ss = net_conns().empty() ? nullptr : dynamic_cast<SmtpSess*>(net_conns()[c.parallel ? c.conn : net_conns().size() - 1]->peer.get());
	bool utf8 = ss && ss->esmtp && ss->ext.count("SMTPUTF8") && !g_smtp->cfg.lowercase, intl = chance(400, "send.intl");
	s.from = gen_addr(r, intl); u32 nr = 1 + sized(12, "send.nrcpt"); for (u32 i = 0; i < nr; ++i) s.rcpts.push_back(gen_addr(r, intl));
	bool asmsg = want_chunks || chance(450, "send.asmsg"); s.asmsg = asmsg; bool usesender = chance(150, "send.sender");
	vmime::mailbox exp = mbox(s.from), snd; if (usesender) { std::string f = gen_addr(r, intl); snd = mbox(f); s.from = f; }
	bool i18n = eight(s.from); for (auto& a : s.rcpts) i18n = i18n || eight(a); if (i18n) count("smtp.international"); i18n = i18n && utf8;
	s.from = canon_addr(s.from); std::vector<std::string> raw = s.rcpts; for (auto& a : s.rcpts) a = canon_addr(a);
	vmime::mailboxList rl; for (auto& a : raw) rl.appendMailbox(make_shared<vmime::mailbox>(mbox(a)));
	Progress prog; bool useprog = chance(500, "send.progress");
	int rej0 = g_smtp->rejections;
	if (!asmsg) {
		s.data = draw_text(maxlen, s.token); s.size = s.data.size();
		SrcCfg sc = draw_src(srcfaults, s.data.size()); Source src(s.data, sc);
		s.out = call(fmt("send(stream of %zu bytes, %u recipients)", s.data.size(), nr), [&] { c.tr_->send(exp, rl, src, s.size, useprog ? &prog : nullptr, snd); });
		s.src_failed = src.failed;
	} else {
		std::string enc = want_chunks ? "7bit" : oneof<std::string>({"base64", "quoted-printable", "7bit", "8bit", "binary"}, "send.enc"); int shape = int(choose(2, "send.shape"));
		std::string body; if (enc == "base64" || enc == "quoted-printable" || (enc == "binary" && 0)) { u32 n = sized(u32(maxlen), "text.len"); Rng q = subrng("bytes"); body = gen_bytes(q, n, int(q.below(8))); } else { body = draw_text(maxlen, s.token); if (enc == "7bit") for (char& ch : body) if (ch & 0x80) ch = 'h'; }
		SrcCfg sc = draw_src(srcfaults, body.size()); sc.late_eof = false; shared_ptr<Source> src, ref; bool stream = chance(600, "send.streamed");
		if (stream) { src = make_shared<Source>(body, sc); ref = make_shared<Source>(body); }
		ByHdr bh; if (chance(250, "send.by_header")) { bh.on = true; bh.from = exp; bh.sender = snd; bh.has_sender = usesender; bh.stale = chance(300, "send.stale"); u32 f = 0, g = 0; for (size_t i = 0; i < raw.size(); ++i) { bh.rcpts.push_back(mbox(raw[i])); if (f < 2 && chance(250, "send.field")) { ++f; g = 0; } if (chance(250, "send.group")) g = g ? 0 : u32(i) + 1; bh.field.push_back(f); bh.group.push_back(g); } count("smtp.by_header"); }
		bool bd = ss && ss->esmtp && ss->ext.count("CHUNKING") && !g_smtp->cfg.lowercase;
		{ vmime::generationContext ctx(vmime::generationContext::getDefaultContext()); ctx.setInternationalizedEmailSupport(i18n); vmime::utility::outputStreamStringAdapter os(s.data); make_msg(body, enc, shape, s.token, ref, bh)->generate(ctx, os); }
		s.bdat_path = bd;
		if (bd && (enc == "7bit" || enc == "8bit" || enc == "binary") && g_net.seg != 1 && !g_net.rxmax && g_net.sndcap >= 1000 && (want_chunks || chance(100, "send.exact"))) {
			// a message that fills the client's chunks exactly (or nearly)
			u32 k = 1 + choose(2, "send.exact.k"); size_t want = size_t(k) * 262144 + choose(3, "send.exact.off") - 1; if (want > s.data.size() + 100) {
				size_t add = want - s.data.size(); std::string pad; while (pad.size() + 80 < add) pad += std::string(76, 'p') + "\r\n"; pad += std::string(add - pad.size(), 'q'); if (add - pad.size() == 0) { body = pad + body; sc.fail_at = sc.fail_at == ~0ull ? ~0ull : sc.fail_at + add;
				if (stream) { src = make_shared<Source>(body, sc); ref = make_shared<Source>(body); }
				if (sc.piece && sc.piece < 500 && src) src->c.piece = 500 + sc.piece;
				s.data.clear(); vmime::generationContext ctx(vmime::generationContext::getDefaultContext()); ctx.setInternationalizedEmailSupport(i18n); vmime::utility::outputStreamStringAdapter os(s.data); make_msg(body, enc, shape, s.token, ref, bh)->generate(ctx, os); if (s.data.size() == size_t(k) * 262144) count("smtp.exact_chunks"); }
			}
		}
		auto m = make_msg(body, enc, shape, s.token, src, bh, true); auto hdr0 = m->getHeader(); size_t nf = hdr0->getFieldCount();
		s.out = call(fmt("send(message of %zu bytes, %s, %u recipients)", s.data.size(), enc.c_str(), nr), [&] { if (bh.on) c.tr_->send(m, useprog ? &prog : nullptr); else c.tr_->send(m, exp, rl, useprog ? &prog : nullptr, snd); });
		if (m->getHeader() != hdr0 || hdr0->getFieldCount() != nf) violate("smtp.header_changed", "send() changed the header of the message");
		s.src_failed = src && src->failed;
	}
	s.ok = s.out.ok; s.rejected = g_smtp->rejections != rej0;
	if (s.ok && useprog) CHECK(prog.bad.empty() && (prog.st == 2), "smtp.progress", "progress listener: %s", prog.bad.empty() ? "never stopped" : prog.bad.c_str());
	if (mustsucceed) CHECK(s.ok, "smtp.send.spurious_failure", "send() failed although the server accepts everything and no fault was injected: %s: %s", s.out.type.c_str(), s.out.what.c_str());
	if (s.ok) CHECK(!s.src_failed, "smtp.send.source_error_swallowed", "send() returned normally although the source stream failed");
	c.subs.push_back(s);
}

bool same_txn(const SmtpTxn& t, const Sub& s) {
	if (t.from != s.from || t.rcpts != s.rcpts) return false;
	if (t.bdat) return t.data == s.data;
	return t.data == s.data || t.data == s.data + "\r\n";
}

// conservation between submissions and what the server accepted
void check_world(Client& c, bool netfaults) {
	advance(120000000);
	std::vector<int> n(c.subs.size(), 0);
	for (auto& t : g_smtp->accepted) {
		int hit = -1;
		for (size_t i = 0; i < c.subs.size(); ++i) if (same_txn(t, c.subs[i]) && n[i] == 0) { hit = int(i); break; }
		if (hit < 0) {
			for (size_t i = 0; i < c.subs.size(); ++i) if (same_txn(t, c.subs[i])) violate("smtp.duplicate", "one send() was accepted twice by the server (from <%s>, %zu bytes)", t.from.c_str(), t.data.size());
			std::string why = "no submission resembles it";
			for (auto& s : c.subs) if (t.data.find(s.token) != std::string::npos || t.from == s.from) {
				if (t.from != s.from) why = fmt("envelope sender <%s>, submitted with <%s>", t.from.c_str(), s.from.c_str());
				else if (t.rcpts != s.rcpts) { why = fmt("%zu recipients, %zu submitted", t.rcpts.size(), s.rcpts.size()); if (t.rcpts.size() == s.rcpts.size()) for (size_t k = 0; k < t.rcpts.size(); ++k) if (t.rcpts[k] != s.rcpts[k]) why = fmt("recipient <%s> instead of <%s>", esc(t.rcpts[k]).c_str(), esc(s.rcpts[k]).c_str()); }
				else why = std::string(s.src_failed ? "(the source failed) " : "") + "content differs: " + diff_at(t.data, s.data);
				if (t.from == s.from) break;
			}
			violate("smtp.accepted.corrupt", "the server accepted a message that was not submitted like this: %s", why.c_str());
		}
		++n[hit];
		auto& s = c.subs[hit];
		if (s.asmsg && !t.utf8 && eight(t.data.substr(0, t.data.find("\r\n\r\n")))) violate("smtp.ext", "the header of a message has unencoded non-ASCII characters although SMTPUTF8 was not announced");
		if (s.ok && t.forgiven) violate("smtp.send.rejected_chunk", "send() returned normally although the server refused a part of the message");
		if (t.forgiven) continue;
		if (!s.ok && !netfaults) violate("smtp.send.failed_but_accepted", "send() threw %s (%s) although the server accepted the message and replied so", s.out.type.c_str(), s.out.what.c_str());
		if (t.size_param && s.size) CHECK(t.size_param == s.size, "smtp.size_param", "SIZE=%llu announced for a message of %zu bytes", (unsigned long long) t.size_param, s.size);
	}
	for (size_t i = 0; i < c.subs.size(); ++i) if (c.subs[i].ok && n[i] != 1) violate("smtp.send.ok_but_not_accepted", "send() returned normally but the server accepted the message %d times", n[i]);
}

void setup(SmtpCfg cfg, bool netfaults) {
	g_smtp = new SmtpWorld; g_smtp->cfg = cfg; g_net = draw_net(netfaults);
	dns_add("mail.example.com", DnsEntry{{"192.0.2.1"}, 200, 0, false}); smtp_listen("192.0.2.1", cfg.implicit_tls ? 465 : 25);
}
void options(Client& c) {
	if (chance(200, "opt.nopipe")) c.sess->getProperties()["transport.smtp.options.pipelining"] = false;
	if (chance(200, "opt.nochunk")) c.sess->getProperties()["transport.smtp.options.chunking"] = false;
}
Out do_connect(Client& c) { return call("connect", [&] { c.tr_->connect(); }); }
void teardown(Client& c) {
	if (c.tr_->isConnected() && chance(800, "end.disconnect")) call("disconnect", [&] { c.tr_->disconnect(); });
	c.tr_ = vmime::null; c.sess = vmime::null;
}
size_t draw_maxlen() { size_t n = oneof<size_t>({300, 3000, 40000, 150000}, "maxlen"); return g_net.seg == 1 || g_net.rxmax || g_net.sndcap < 200 ? std::min<size_t>(n, 8000) : n; }
SmtpRej draw_rej(bool late) {
	SmtpRej r; r.cmd = oneof<std::string>({"MAIL", "RCPT", "DATA", "FINAL", "BDAT", "RSET", "EHLO", "NOOP"}, "rej.cmd"); r.nth = int(sized(r.cmd == "RCPT" ? 12 : 3, "rej.nth"));
	r.code = oneof<int>({550, 421, 450, 451, 452, 500, 502, 503, 552, 554}, "rej.code"); if (r.cmd == "RCPT" && chance(200, "rej.sticky")) r.sticky = true;
	if (late && chance(300, "rej.late")) r.delay = 45000000; else if (chance(120, "rej.drop")) r.drop = true; else { r.mixed = chance(150, "rej.mixed"); r.forget = r.cmd == "BDAT" && chance(500, "rej.forget"); }
	return r;
}
}

// exact delivery while the server accepts everything
SCENARIO(S01, delivery, 10) {
	setup(draw_smtp(), false); app_init(); Client c; c.tracer = chance(200, "tracer");
	c.make(); options(c); c.tr_->setTimeoutHandlerFactory(to_factory(ToCfg{600000000, 0, chance(300, "to.none")}));
	Out o = do_connect(c); CHECK(o.ok, "smtp.connect.failed", "connect() failed against a healthy server: %s %s", o.type.c_str(), o.what.c_str());
	u32 n = 1 + sized(3, "sends"); size_t ml = draw_maxlen();
	if (g_net.seg == 1 || g_net.rxmax || g_net.sndcap < 200) ml = std::min<size_t>(ml, 8000);
	for (u32 i = 0; i < n; ++i) { do_send(c, false, ml, true); if (chance(200, "noop")) { Out k = call("noop", [&] { c.tr_->noop(); }); CHECK(k.ok, "smtp.noop.failed", "noop() failed: %s", k.what.c_str()); } }
	nontrivial(); check_world(c, false); teardown(c); check_world(c, false); finish_checks();
}
// several threads, each with a session and a transport of its own
SCENARIO(S01, threads, 3) {
	setup(draw_smtp(), false); app_init(); u32 n = 2 + choose(3, "threads"), g = oneof<u32>({0, 5, 60, 500, 5000}, "bb.gap"); std::vector<Client> cs(n); size_t ml = std::min<size_t>(draw_maxlen(), g && g < 500 ? 1500 : g ? 8000 : 40000); std::vector<u32> k; for (auto& c : cs) { c.parallel = true; c.tracer = chance(200, "tracer"); c.make(); options(c); c.tr_->setTimeoutHandlerFactory(to_factory(ToCfg{600000000, 0, chance(300, "to.none")})); k.push_back(1 + choose(3, "sends")); }
	for (u32 i = 0; i < n; ++i) spawn(fmt("thread%u", i), [&, i] {
		Client& c = cs[i]; Out o = do_connect(c); CHECK(o.ok, "smtp.connect.failed", "connect() failed against a healthy server: %s %s", o.type.c_str(), o.what.c_str());
		for (size_t x = 0; x < net_conns().size(); ++x) { auto ss = dynamic_cast<SmtpSess*>(net_conns()[x]->peer.get()); if (ss && ss->hello) { c.conn = x; break; } }
		for (u32 j = 0; j < k[i]; ++j) do_send(c, false, ml, true); if (chance(800, "end")) call("disconnect", [&] { c.tr_->disconnect(); });
	});
	if (g) set_bb_preempt(g); else set_preempt(oneof<u32>({50, 300, 800}, "preempt")); join_all(); set_bb_preempt(0); set_preempt(0);
	Client all; for (auto& c : cs) all.subs.insert(all.subs.end(), c.subs.begin(), c.subs.end()); nontrivial(); check_world(all, false); for (auto& c : cs) { c.tr_ = vmime::null; c.sess = vmime::null; } finish_checks();
}
// the same over TLS
SCENARIO(S01, tls, 2) {
	SmtpCfg cfg = draw_smtp(); cfg.implicit_tls = chance(400, "smtps"); if (!cfg.implicit_tls) cfg.ext.insert("STARTTLS"); setup(cfg, false); app_init(); Client c;
	c.make(cfg.implicit_tls ? "smtps://mail.example.com" : "smtp://mail.example.com"); c.tr_->setCertificateVerifier(verifier({"ca"}));
	if (!cfg.implicit_tls) { c.sess->getProperties()["transport.smtp.connection.tls"] = true; c.sess->getProperties()["transport.smtp.connection.tls.required"] = true; }
	c.tr_->setTimeoutHandlerFactory(to_factory(ToCfg{600000000, 0, false}));
	Out o = do_connect(c); CHECK(o.ok, "smtp.connect.failed", "connect() failed against a healthy TLS server: %s %s", o.type.c_str(), o.what.c_str());
	u32 n = 1 + sized(2, "sends"); size_t ml = std::min<size_t>(draw_maxlen(), g_net.seg == 1 || g_net.rxmax || g_net.sndcap < 200 ? 4000 : 60000);
	for (u32 i = 0; i < n; ++i) do_send(c, false, ml, true);
	nontrivial(); check_world(c, false); teardown(c); check_world(c, false);
}
// rejections and source failures at every position
SCENARIO(S02, reject, 10) {
	SmtpCfg cfg = draw_smtp(); u32 nr = chance(800, "rej?") ? 1 + choose(2, "rej.n") : 0; for (u32 i = 0; i < nr; ++i) cfg.rej.push_back(draw_rej(false)); if (chance(150, "srv.sizeenf")) { cfg.ext.insert("SIZE"); cfg.size_limit = 200; cfg.size_enforced = true; }
	setup(cfg, false); app_init(); Client c; c.make(); options(c); c.tr_->setTimeoutHandlerFactory(to_factory(ToCfg{600000000, 0, false}));
	Out o = do_connect(c); if (!o.ok) { CHECK(g_smtp->rejections, "smtp.connect.failed", "connect() failed: %s %s", o.type.c_str(), o.what.c_str()); end_run(); }
	do_send(c, chance(500, "srcfaults"), draw_maxlen(), false);
	auto& s = c.subs.back(); if (!s.ok) CHECK(s.src_failed || s.rejected, "smtp.send.spurious_failure", "send() threw %s (%s) although nothing was rejected and the source did not fail", s.out.type.c_str(), s.out.what.c_str());
	bool drop = false; for (auto& r : cfg.rej) if (r.drop) drop = true;
	check_world(c, drop); teardown(c); check_world(c, drop);
}
// a chunk of many refused, with and without pipelining
SCENARIO(S02, chunks, 3) {
	SmtpCfg cfg = draw_smtp(); cfg.lowercase = false; cfg.ext.insert("CHUNKING"); if (chance(700, "pipe")) cfg.ext.insert("PIPELINING"); SmtpRej r = draw_rej(false); r.cmd = "BDAT"; r.nth = int(choose(4, "rej.which")); if (!r.drop) { r.forget = chance(600, "rej.forget2"); if (r.forget) r.mixed = false; } cfg.rej.push_back(r);
	setup(cfg, false); if (g_net.seg == 1 || g_net.rxmax || g_net.sndcap < 1000) g_net = NetCfg(); app_init(); want_chunks = true; Client c; c.make(); options(c); c.tr_->setTimeoutHandlerFactory(to_factory(ToCfg{600000000, 0, false}));
	Out o = do_connect(c); if (o.ok) { do_send(c, false, 3000, false); auto& s = c.subs.back(); if (!s.ok) CHECK(s.src_failed || s.rejected, "smtp.send.spurious_failure", "send() threw %s (%s) although nothing was rejected", s.out.type.c_str(), s.out.what.c_str()); nontrivial(); }
	check_world(c, r.drop); teardown(c); check_world(c, r.drop);
}
// connection lost, stalled or slow at every byte
SCENARIO(S02, network, 8) {
	SmtpCfg cfg = draw_smtp(); setup(cfg, true);
	NetCfg::Cut k; k.conn = 0; k.dir = int(choose(2, "cut.dir")); k.at = k.dir ? (chance(500, "cut.deep") ? sized(60000, "cut.at") : sized(600, "cut.at")) : sized(700, "cut.at"); k.kind = 1 + int(choose(3, "cut.kind")); if (k.kind == 3 && chance(400, "cut.heal")) k.heal = oneof<u64>({1000000, 25000000, 40000000, 100000000}, "cut.healt"); g_net.cuts.push_back(k);
	app_init(); Client c; c.make(); options(c); ToCfg tc; tc.limit = 30000000; tc.continues = int(choose(3, "to.cont")); c.tr_->setTimeoutHandlerFactory(to_factory(tc));
	Out o = do_connect(c);
	if (o.ok) { u32 n = 1 + sized(2, "sends"); size_t ml = std::min<size_t>(draw_maxlen(), g_net.seg == 1 || g_net.rxmax || g_net.sndcap < 200 ? 8000 : 70000); for (u32 i = 0; i < n && c.tr_->isConnected(); ++i) do_send(c, chance(100, "srcfaults"), ml, false); }
	check_world(c, true); teardown(c); check_world(c, true);
}
// many operations on one connection, some failing
SCENARIO(S03, sequence, 10) {
	SmtpCfg cfg = draw_smtp(); u32 nr = 1 + sized(3, "rej.n"); for (u32 i = 0; i < nr; ++i) cfg.rej.push_back(draw_rej(true));
	setup(cfg, false); bool stall = chance(150, "stall"); if (stall) { NetCfg::Cut k; k.conn = 0; k.dir = int(choose(2, "cut.dir")); k.at = sized(3000, "cut.at"); k.kind = 3; k.heal = 45000000; g_net.cuts.push_back(k); }
	app_init(); Client c; c.make(); options(c); c.tr_->setTimeoutHandlerFactory(to_factory(ToCfg{30000000, 0, false})); bool srcf = chance(500, "srcfaults");
	Out o = do_connect(c); size_t ml = oneof<size_t>({300, 3000, 40000, 90000}, "maxlen"); if (g_net.seg == 1 || g_net.rxmax || g_net.sndcap < 200) ml = std::min<size_t>(ml, 8000);
	u32 n = 2 + sized(6, "ops"); bool late = stall; for (auto& r : cfg.rej) if (r.delay || r.drop) late = true;
	for (u32 i = 0; i < n; ++i) {
		if (!c.tr_->isConnected()) { if (!chance(700, "reconnect")) break; g_smtp->cfg.rej.clear(); call("connect", [&] { c.tr_->connect(); }); if (!c.tr_->isConnected()) break; }
		if (chance(150, "noop")) call("noop", [&] { c.tr_->noop(); });
		else { do_send(c, srcf && chance(500, "srcfault"), ml, false); auto& s = c.subs.back(); if (!s.ok && !late) CHECK(s.src_failed || s.rejected || s.out.notconn || g_smtp->rejections, "smtp.send.spurious_failure", "send() threw %s (%s) although nothing was rejected and the source did not fail", s.out.type.c_str(), s.out.what.c_str()); }
		if (chance(200, "pause")) advance(oneof<u64>({1000000, 60000000}, "pause.t"));
	}
	check_world(c, late); teardown(c); check_world(c, late);
}
// after the failures stop, a fresh or surviving connection works
SCENARIO(S03, recovery, 5) {
	SmtpCfg cfg = draw_smtp(); cfg.rej.push_back(draw_rej(false)); cfg.rej[0].nth = int(choose(2, "rej.first")); setup(cfg, false);
	app_init(); Client c; c.make(); options(c); c.tr_->setTimeoutHandlerFactory(to_factory(ToCfg{30000000, 0, false}));
	do_connect(c); size_t ml = std::min<size_t>(draw_maxlen(), 40000); if (g_net.seg == 1 || g_net.rxmax || g_net.sndcap < 200) ml = std::min<size_t>(ml, 8000);
	bool drop = cfg.rej[0].drop;
	for (int i = 0; i < 2 && c.tr_->isConnected(); ++i) { do_send(c, i == 0 && chance(300, "srcfaults"), ml, false); }
	g_smtp->cfg.rej.clear(); g_net = NetCfg(); advance(100000000);
	for (int i = 0; i < 2; ++i) {
		if (!c.tr_->isConnected()) { Out o = do_connect(c); CHECK(o.ok, "smtp.reconnect.failed", "connect() failed after the faults stopped: %s %s", o.type.c_str(), o.what.c_str()); }
		do_send(c, false, ml, false); auto& s = c.subs.back();
		if (i == 0 && !s.ok) { CHECK(!c.tr_->isConnected() || !drop || 1, "x", "x"); continue; }
		CHECK(s.ok, "smtp.no_recovery", "a send() on a fresh connection after the faults stopped failed: %s %s", s.out.type.c_str(), s.out.what.c_str());
	}
	check_world(c, drop); teardown(c); check_world(c, drop);
}
// feature discovery, TLS upgrade, HELO fallback
SCENARIO(S04, session, 10) {
	SmtpCfg cfg = draw_smtp(); cfg.ehlo_ok = !chance(200, "srv.noehlo"); cfg.helo_ok = !chance(100, "srv.nohelo"); bool tls = chance(450, "tls"), req = chance(500, "tls.req");
	if (chance(600, "srv.starttls")) cfg.ext.insert("STARTTLS"); cfg.starttls_ok = !chance(250, "srv.notls"); cfg.ext_tls.clear(); for (const char* e : {"PIPELINING", "CHUNKING", "SIZE", "8BITMIME", "SMTPUTF8", "DSN"}) if (chance(400, e)) cfg.ext_tls.insert(e);
	if (chance(150, "greet.bad")) { cfg.greet_code = oneof<int>({554, 421, 250, 120}, "greet.code"); cfg.greeting = fmt("%d go away\r\n", cfg.greet_code); }
	if (chance(150, "rej")) { cfg.rej.push_back(draw_rej(false)); cfg.rej.back().cmd = oneof<std::string>({"EHLO", "STARTTLS", "GREETING"}, "rej.what"); cfg.rej.back().nth = int(choose(2, "rej.n2")); cfg.rej.back().drop = chance(300, "rej.drop"); }
	setup(cfg, false); app_init(); Client c; c.make(); options(c); c.tr_->setCertificateVerifier(verifier({"ca"}));
	c.sess->getProperties()["transport.smtp.connection.tls"] = tls; c.sess->getProperties()["transport.smtp.connection.tls.required"] = req;
	c.tr_->setTimeoutHandlerFactory(to_factory(ToCfg{600000000, 0, false}));
	g_smtp->on_cmd = nullptr;
	Out o = do_connect(c); nontrivial();
	bool can = cfg.greet_code == 220 && (cfg.ehlo_ok || cfg.helo_ok) && cfg.rej.empty();
	auto sessn = net_conns().empty() ? nullptr : dynamic_cast<SmtpSess*>(net_conns()[0]->peer.get());
	if (o.ok) {
		CHECK(g_smtp->greeted && cfg.greet_code == 220, "smtp.connect.greeting", "connect() succeeded although the server's greeting was a refusal (%d)", cfg.greet_code);
		CHECK(sessn && sessn->hello, "smtp.connect.hello", "connect() succeeded although the server does not know the client (neither EHLO nor HELO was accepted in this session)");
		if (tls && req) CHECK(sessn->tls_ready, "smtp.connect.tls", "connect() succeeded without TLS although it was required");
		CHECK(c.tr_->isSecuredConnection() == sessn->tls_ready, "smtp.secured_flag", "isSecuredConnection() is %d but the connection is %s", int(c.tr_->isSecuredConnection()), sessn->tls_ready ? "under TLS" : "in the clear");
		g_smtp->cfg.ext = sessn->ext; g_smtp->cfg.ehlo_ok = sessn->esmtp;
		u32 n = 1 + sized(2, "sends"); size_t ml = oneof<size_t>({300, 3000, 40000, 90000}, "maxlen"); if (g_net.seg == 1 || g_net.rxmax || g_net.sndcap < 200) ml = std::min<size_t>(ml, 8000);
		for (u32 i = 0; i < n; ++i) do_send(c, false, ml, cfg.rej.empty());
		if (c.tr_->isConnected() && cfg.rej.empty() && chance(350, "dsn")) {   // delivery status notifications, announced or not
			Rng r = subrng("dsn"); std::string id = rnd_token(r, 1 + r.below(20)), ret = r.below(3) ? r.below(2) ? "FULL" : "HDRS" : "", cond = std::vector<std::string>{"NEVER", "SUCCESS,FAILURE", "DELAY", ""}[r.below(4)]; if (r.below(4) == 0) id = ""; vn::smtp::SMTPSendOptions so; so.setDSNAttributes(make_shared<vn::smtp::DSNAttributes>(cond, ret, id));
			Sub s; s.token = "tk" + rnd_token(r, 8); s.from = "s@x.example"; u32 nr = 1 + r.below(3); vmime::mailboxList rl; for (u32 i = 0; i < nr; ++i) { s.rcpts.push_back(fmt("r%u@x.example", i)); rl.appendMailbox(make_shared<vmime::mailbox>(vmime::emailAddress(s.rcpts.back()))); } s.data = draw_text(400, s.token); s.size = s.data.size(); vmime::utility::inputStreamStringAdapter is(s.data); size_t a0 = g_smtp->accepted.size();
			bool known = sessn->ext.count("DSN"); s.out = call("send with notification options", [&] { c.tr_->send(vmime::mailbox(vmime::emailAddress(s.from)), rl, is, s.size, nullptr, vmime::mailbox(), so); }); s.ok = s.out.ok; c.subs.push_back(s); count(known ? "dsn.sent" : "dsn.unsupported");
			if (!known) CHECK(!s.ok && g_smtp->accepted.size() == a0, "smtp.dsn.unsupported", "a message was sent with notification options although the server does not support them");
			else if (s.ok && g_smtp->accepted.size() == a0 + 1) { auto& t = g_smtp->accepted.back(); std::string m = (ret.empty() ? "" : " RET=" + ret) + (id.empty() ? "" : " ENVID=<" + id + ">"), rc = cond.empty() ? "" : " NOTIFY=" + cond; CHECK(t.mail_dsn == m, "smtp.dsn.mail", "MAIL carried the options \"%s\" instead of \"%s\"", t.mail_dsn.c_str(), m.c_str()); CHECK(t.rcpt_dsn.size() == nr, "smtp.dsn.rcpt", "%zu recipients", t.rcpt_dsn.size()); for (auto& x : t.rcpt_dsn) CHECK(x == rc, "smtp.dsn.rcpt", "RCPT carried the options \"%s\" instead of \"%s\"", x.c_str(), rc.c_str()); }
			else if (!g_smtp->rejections && !g_smtp->cfg.lowercase) CHECK(s.ok, "smtp.dsn.failed", "send() with notification options failed: %s %s", s.out.type.c_str(), s.out.what.c_str());
		}
	} else {
		bool tlsfail = tls && req && (!cfg.starttls_ok);
		CHECK(!can || tlsfail || !cfg.starttls_ok, "smtp.connect.failed", "connect() failed against a server it could talk to: %s %s", o.type.c_str(), o.what.c_str());
		if (can && tls && !req && !cfg.starttls_ok) CHECK(o.ok, "smtp.connect.opportunistic", "connect() failed although TLS is optional and the server just refused it: %s %s", o.type.c_str(), o.what.c_str());
	}
	check_world(c, false); teardown(c); check_world(c, false);
}

// addresses and options of any content
SCENARIO(W01, smtp, 6) {
	setup(draw_smtp(), false); app_init(); Client c; c.tracer = chance(200, "tracer"); c.make(); options(c); c.tr_->setTimeoutHandlerFactory(to_factory(ToCfg{600000000, 0, false})); bool dsn = chance(300, "dsn");
	Out o = do_connect(c); CHECK(o.ok, "smtp.connect.failed", "connect() failed against a healthy server: %s %s", o.type.c_str(), o.what.c_str()); u32 n = 1 + sized(4, "ops"); Rng r = subrng("values");
	static const char* bads[] = {"\r\nXEVIL 1", "\nXEVIL", "\r", "> SIZE=1", " ", "<", "\t", "\x7f"};
	auto clean = [](const std::string& d) { for (unsigned char ch : d) if (!isalnum(ch) && ch != '.' && ch != '-' && !(ch & 0x80)) return false; return !d.empty(); };
	for (u32 i = 0; i < n; ++i) {
		if (!c.tr_->isConnected()) { o = do_connect(c); CHECK(o.ok, "smtp.reconnect.failed", "connect() failed: %s %s", o.type.c_str(), o.what.c_str()); }
		Sub s; s.token = "tk" + rnd_token(r, 8); bool bad = false, intl = chance(500, "intl");
		auto addr = [&](std::string& canon) { std::string l = chance(600, "odd.local") ? gen_value(r, V_TOKEN | V_BREAK | (intl ? V_WIDE : 0)) : rnd_token(r, 5), d = chance(250, "odd.domain") ? "x" + rnd_token(r, 3) + bads[r.below(8)] + rnd_token(r, 3) : "example.org"; if (breaks(l) || breaks(d) || !clean(d)) bad = true; if (l.find("=?") != std::string::npos) { size_t p; while ((p = l.find("=?")) != std::string::npos) l.erase(p, 1); } canon = smtp_canon(l, d); return vmime::mailbox(vmime::emailAddress(vmime::word(l, vmime::charsets::UTF_8), vmime::word(d, vmime::charsets::UTF_8))); };
		vmime::mailbox from = addr(s.from); vmime::mailboxList rl; u32 nr = 1 + choose(3, "nrcpt"); for (u32 k = 0; k < nr; ++k) { s.rcpts.push_back(""); rl.appendMailbox(make_shared<vmime::mailbox>(addr(s.rcpts.back()))); }
		s.data = draw_text(400, s.token); s.size = s.data.size(); vn::smtp::SMTPSendOptions so; auto ss = dynamic_cast<SmtpSess*>(net_conns().back()->peer.get()); bool usedsn = dsn && ss && ss->ext.count("DSN") && !g_smtp->cfg.lowercase && chance(500, "dsn.use");
		if (usedsn) { std::string id = rnd_token(r, 6); if (chance(400, "dsn.bad")) { id += "\r\nXEVIL 1"; bad = true; } so.setDSNAttributes(make_shared<vn::smtp::DSNAttributes>("NEVER", "FULL", id)); }
		int rej0 = g_smtp->rejections; (void) rej0; vmime::utility::inputStreamStringAdapter is(s.data); size_t a0 = g_smtp->accepted.size();
		s.out = call(fmt("send from \"%s\" to %u", esc(s.from).c_str(), nr), [&] { c.tr_->send(from, rl, is, s.size, nullptr, vmime::mailbox(), so); }); s.ok = s.out.ok; nontrivial(); count(s.ok ? "value.sent" : "value.refused");
		if (!s.ok) { CHECK(bad, "value.send.refused", "send() failed for addresses that can be sent: from \"%s\": %s %s", esc(s.from).c_str(), s.out.type.c_str(), s.out.what.c_str()); CHECK(g_smtp->accepted.size() == a0, "value.send.half", "send() threw but the server accepted a message"); }
		c.subs.push_back(s); no_evil(g_smtp->wire);
		if (c.tr_->isConnected() && chance(500, "control")) do_send(c, false, 300, true);
	}
	check_world(c, false); teardown(c); check_world(c, false); no_evil(g_smtp->wire); finish_checks();
}

// ------------------------------------------------------------------ driver for the cross-protocol scenarios
namespace {
struct SmtpDrv : Drv {
	Client c;
	void serve(bool nf) override {
		SmtpCfg cfg = draw_smtp(); cfg.implicit_tls = srv.implicit_tls; if (srv.starttls) cfg.ext.insert("STARTTLS"); cfg.starttls_ok = srv.starttls_ok; cfg.tls = srv.tls; cfg.inject_after_starttls = srv.inject; cfg.sasl = srv.sasl;
		if (!srv.mechs.empty()) { cfg.mechs = srv.mechs; cfg.mechs_clear = srv.mechs_clear; cfg.ext.insert("AUTH"); cfg.ext_tls = cfg.ext; cfg.ext_tls.erase("STARTTLS"); cfg.need_auth = cli.auth; cfg.lowercase = false; } else cfg.ext.erase("AUTH"), cfg.ext_tls.erase("AUTH");
		setup(cfg, nf);
	}
	void listen(const std::string& ip) override { smtp_listen(ip, port()); }
	std::function<std::shared_ptr<Peer>()> peer_factory() override { return net_listener("192.0.2.1", port())->make; }
	void make() override {
		c.tracer = cli.tracer; c.sess = vn::session::create(); std::string sch = srv.implicit_tls ? "smtps" : "smtp", pre = "transport." + sch + "."; auto& p = c.sess->getProperties(); if (cli.tls) p[pre + "connection.tls"] = true; if (cli.required) p[pre + "connection.tls.required"] = true;
		if (cli.auth) { p[pre + "options.need-authentication"] = true; p[pre + "auth.username"] = cli.user; p[pre + "auth.password"] = cli.pass; if (cli.sasl >= 0) p[pre + "options.sasl"] = bool(cli.sasl); if (!cli.token.empty()) p[pre + "auth.accesstoken"] = cli.token; }
		c.tr_ = c.sess->getTransport(drv_url(sch, pre, p, cli)); if (cli.tracer) c.tr_->setTracerFactory(tracer_factory()); options(c); if (cli.authenticator) c.tr_->setAuthenticator(cli.authenticator);
		if (!cli.nover) c.tr_->setCertificateVerifier(cli.ver ? cli.ver : verifier(cli.roots, cli.trusted));
	}
	shared_ptr<vn::service> svc() override { return c.tr_; }
	void op(bool faults) override {
		if (chance(200, "op.noop")) { Out o = call("noop", [&] { c.tr_->noop(); }); if (exact) CHECK(o.ok, "smtp.noop.failed", "noop() failed: %s %s", o.type.c_str(), o.what.c_str()); return; }
		size_t ml = srv.maxlen ? srv.maxlen : draw_maxlen(); if (g_net.seg == 1 || g_net.rxmax || g_net.sndcap < 200) ml = std::min<size_t>(ml, 4000); do_send(c, faults && !srv.quiet && chance(200, "srcfaults"), ml, exact);
	}
	void wild() override {
		if (chance(150, "op.noop")) { call("noop", [&] { c.tr_->noop(); }); return; }
		Rng r = subrng("send.args"); bool utf8 = chance(200, "utf8"); std::string from = gen_addr(r, utf8), to = gen_addr(r, utf8); vmime::mailboxList rl; u32 n = 1 + choose(4, "nrcpt"); for (u32 i = 0; i < n; ++i) rl.appendMailbox(make_shared<vmime::mailbox>(mbox(gen_addr(r, utf8)))); std::string data = draw_text(g_net.seg == 1 || g_net.rxmax || g_net.sndcap < 200 ? 1000 : 20000, "tok");
		if (chance(500, "asmsg")) { auto m = make_msg(data, "base64", int(choose(2, "shape")), "tok", nullptr); call("send(message)", [&] { c.tr_->send(m, mbox(from), rl); }); } else { Source src(data, draw_src(true, data.size())); call("send(stream)", [&] { c.tr_->send(mbox(from), rl, src, data.size()); }); }
	}
	void release() override {}
	void destroy() override { c.tr_ = vmime::null; c.sess = vmime::null; }
	void heal() override { g_smtp->cfg.rej.clear(); }
	void reject(u32 n) override { for (u32 i = 0; i < n; ++i) g_smtp->cfg.rej.push_back(draw_rej(false)); }
	void final_check() override { check_world(c, true); }
	int logins() override { return g_smtp->authed; }
	std::vector<WireCmd> wire() override { std::vector<WireCmd> v; for (auto& w : g_smtp->wire) v.push_back({w.first, w.second}); return v; }
	int quits() override { return g_smtp->quits; }
};
}
std::unique_ptr<Drv> sim::drv_smtp() { auto d = std::make_unique<SmtpDrv>(); d->proto = "smtp"; return d; }

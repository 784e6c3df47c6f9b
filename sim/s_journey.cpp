// E01: the whole journey: a message is composed, sent, delivered, retrieved and read; the receipt and the answer travel back.
#include "smtp.hpp"
#include "pop3.hpp"
#include "imap.hpp"
#include "maildir.hpp"
#include <time.h>
#include "vmime/contentTypeField.hpp"
#include "vmime/htmlTextPart.hpp"
#include "vmime/attachmentHelper.hpp"
#include "vmime/mdn/MDNHelper.hpp"
using namespace sim;
namespace {
namespace vn = vmime::net; namespace vu = vmime::utility; namespace vm = vmime::mdn;
typedef std::string S; typedef shared_ptr<vmime::message> Msg;
const vmime::charset U8("utf-8");
S sq(const S& x) { S o; for (char c : x) if (c != ' ') o += c; return o; }   // a parsed header written again may gain a space between an encoded and an unencoded word
S conv(const vmime::text& t) { return t.getConvertedText(U8); }
S words(Rng& r, size_t n, bool intl) { static const char* W[] = {"meeting", "report", "Quarter", "draft4", "follow-up", "to_do", "re", "X"}; static const char* I[] = {"\xc3\xa9t\xc3\xa9", "\xd0\x9f\xd1\x80\xd0\xb8", "\xe6\x97\xa5\xe6\x9c\xac", "na\xc3\xafve"}; S o; for (size_t i = 0; i < n; ++i) { if (i) o += ' '; o += intl && r.below(3) == 0 ? I[r.below(4)] : W[r.below(8)]; } return o; }
struct Person { S name, addr; vmime::mailbox box() const { return vmime::mailbox(vmime::text(name, U8), vmime::emailAddress(addr)); } };
Person person(Rng& r, const char* who) { Person p; p.name = r.below(4) ? words(r, 1 + r.below(3), true) : S(); p.addr = S(who) + rnd_token(r, 1 + r.below(6)) + (r.below(3) ? "" : "." + rnd_token(r, 3)) + (r.below(2) ? "@example.org" : "@mail.a-b.example"); return p; }
struct Att { S name, type, data, desc; };
struct Span { u64 a, b; };
struct Letter { Person from; std::vector<Person> to, cc, bcc; S subject, text, html; bool is_html = false; std::vector<Att> atts; S id; std::vector<Span> made; S re; std::vector<S> refs; };   // made: when the date may have been taken
u64 secs() { return real_now() / 1000000; }
bool faults; u32 kind;   // 0 POP3, 1 IMAP, 2 maildir
S how_kind() { return kind == 0 ? "POP3" : kind == 1 ? "IMAP" : "maildir"; }
void heal() { g_net = NetCfg(); g_fs = FsCfg(); g_smtp->cfg.rej.clear(); if (g_pop) g_pop->cfg.rej.clear(); if (g_imap) g_imap->cfg.rej.clear(); advance(100000000); }
void cut(int conn) { NetCfg::Cut k; k.conn = conn; k.dir = chance(500, "cut.dir"); k.at = chance(500, "cut.deep") ? sized(40000, "cut.at") : sized(1200, "cut.at"); k.kind = 1 + int(choose(3, "cut.kind")); g_net.cuts.push_back(k); }
void trouble_sending() { if (!faults || chance(300, "calm")) return; if (chance(500, "net?")) cut(int(net_conns().size()) + int(choose(2, "cut.which"))); else { SmtpRej r; r.cmd = oneof<S>({"MAIL", "RCPT", "DATA", "FINAL", "BDAT", "EHLO"}, "rej.cmd"); r.nth = g_smtp->seen[r.cmd] + int(choose(2, "rej.nth")); r.code = oneof<int>({450, 421, 451, 452}, "rej.code"); if (chance(300, "rej.drop")) r.drop = true; g_smtp->cfg.rej.push_back(r); } }
// submits the message until the transport says it went; returns what the server accepted meanwhile
std::vector<SmtpTxn> submit(const Msg& m, std::vector<Span>& made, const char* what) {
	size_t n0 = g_smtp->accepted.size(); bool sent = false; shared_ptr<vn::session> sess = vn::session::create(); shared_ptr<vn::transport> t;
	for (int attempt = 0; attempt < 5 && !sent; ++attempt) {
		if (attempt == 4) heal(); else if (attempt == 0 || chance(500, "again")) trouble_sending(); bool hopeful = !faults || attempt == 4; if (!t || chance(300, "fresh")) t = sess->getTransport(vu::url("smtp://mail.example.com")); t->setTimeoutHandlerFactory(to_factory(ToCfg{30000000, 0, false})); Span sp{secs(), 0};
		Out o = call("connect and send", [&] { if (!t->isConnected()) t->connect(); t->send(m); }); sp.b = secs(); made.push_back(sp); sent = o.ok; CHECK(o.ok || !hopeful, "journey.send", "%s cannot be sent to a healthy server: %s %s", what, o.type.c_str(), o.what.c_str());
		if (!o.ok) { count("journey.retries"); if (t->isConnected()) call("disconnect", [&] { t->disconnect(); }); t = vmime::null; advance(oneof<u64>({0, 1000000, 300000000}, "wait")); }
	}
	if (t && chance(700, "bye")) call("disconnect", [&] { t->disconnect(); }); t = vmime::null; CHECK(g_smtp->accepted.size() > n0, "journey.lost", "%s was sent, but the server has taken none", what); return std::vector<SmtpTxn>(g_smtp->accepted.begin() + long(n0), g_smtp->accepted.end());
}
size_t g_seq;
void deliver(const S& data) {
	if (kind == 0) { PopMsg p; p.data = data; p.uid = fmt("u%zu", ++g_seq); g_pop->drop.push_back(p); }
	else if (kind == 1) { auto m = std::make_shared<ImapMsg>(); m->data = data; g_imap->deliver(g_imap->box("INBOX"), m); }
	else if (chance(500, "by.vmime")) { MdCl c; c.make(); Out o = call("add to the maildir", [&] { c.st->connect(); auto f = c.folder("inbox"); f->open(vn::folder::MODE_READ_WRITE); vu::inputStreamStringAdapter is(data); f->addMessage(is, data.size(), chance(500, "seen") ? vn::message::FLAG_SEEN : vn::message::FLAG_RECENT); f->close(false); c.st->disconnect(); }); CHECK(o.ok, "journey.deliver", "a message cannot be added to a maildir: %s", o.what.c_str()); }
	else { MMsg m; m.data = data; g_md->deliver("inbox", m, chance(400, "cur"), chance(500, "flags") ? vn::message::FLAG_SEEN : -1); }
}
// what stands in the mailbox, in the order of the numbers; parsed by the store or from the extracted text
std::vector<Msg> collect(size_t expected, const char* what) {
	std::vector<Msg> v; for (int attempt = 0; attempt < 5; ++attempt) {
		v.clear(); if (attempt == 4) heal(); else if (faults && kind != 2 && (attempt == 0 || chance(500, "again")) && !chance(300, "calm")) cut(int(net_conns().size()) + int(choose(kind == 1 ? 3 : 2, "cut.which"))); bool hopeful = !faults || attempt == 4; shared_ptr<vn::session> sess = vn::session::create(); shared_ptr<vn::store> st; shared_ptr<vn::folder> f; MdCl md; bool parsed = kind != 1 && chance(500, "parsed"), peek = kind != 2 && chance(300, "peek");
		Out o = call("collect", [&] {
			if (kind == 2) { md.make(); st = md.st; } else { auto& p = sess->getProperties(); S pre = kind == 0 ? "store.pop3." : "store.imap."; p[pre + "auth.username"] = S("jane"); p[pre + "auth.password"] = S("s3cret pa.ss"); st = sess->getStore(vu::url(kind == 0 ? "pop3://mail.example.com" : "imap://mail.example.com")); st->setTimeoutHandlerFactory(to_factory(ToCfg{30000000, 0, false})); }
			st->connect(); f = kind == 2 ? md.folder("inbox") : st->getDefaultFolder(); f->open(vn::folder::MODE_READ_WRITE); size_t n = f->getMessageCount(); CHECK(n == expected, "journey.count", "the %s holds %zu messages instead of %zu", how_kind().c_str(), n, expected);
			std::vector<shared_ptr<vn::message>> l; if (chance(500, "at.once")) l = f->getMessages(vn::messageSet::byNumber(1, n)); else for (size_t i = 1; i <= n; ++i) l.push_back(f->getMessage(i)); if (chance(500, "fetch")) f->fetchMessages(l, vn::fetchAttributes(vn::fetchAttributes::SIZE | vn::fetchAttributes::UID | vn::fetchAttributes::FULL_HEADER));
			for (auto& m : l) { if (parsed) { auto p = m->getParsedMessage(); S t; vu::outputStreamStringAdapter os(t); m->extract(os); v.push_back(p); if (p->getParsedLength() == 0) violate("journey.empty", "a parsed message has no text"); } else { S t; vu::outputStreamStringAdapter os(t); m->extract(os, nullptr, 0, size_t(-1), kind == 1 && peek); auto p = make_shared<vmime::message>(); p->parse(t); v.push_back(p); } }
			f->close(false); f = vmime::null; st->disconnect(); });
		if (o.ok) return v; CHECK(!hopeful, "journey.collect", "%s cannot be read from a healthy %s: %s %s", what, how_kind().c_str(), o.type.c_str(), o.what.c_str()); count("journey.recollected"); f = vmime::null; call("drop", [&] { if (st && st->isConnected()) st->disconnect(); st = vmime::null; }); v.clear(); advance(oneof<u64>({0, 1000000, 300000000}, "wait"));
	}
	return v;
}
S people(const std::vector<Person>& v) { S o; for (auto& p : v) o += (o.empty() ? "" : ", ") + p.name + "<" + p.addr + ">"; return o; }
S people(const vmime::addressList& l) { S o; for (size_t i = 0; i < l.getAddressCount(); ++i) { auto a = vmime::dynamicCast<const vmime::mailbox>(l.getAddressAt(i)); o += (o.empty() ? "" : ", ") + (a ? conv(a->getName()) + "<" + a->getEmail().toString() + ">" : S("(a group)")); } return o; }
S text_of(const shared_ptr<const vmime::contentHandler>& c) { Sink s; c->extract(s); return s.d; }
int64_t epoch(const vmime::datetime& d) { int64_t y = d.getYear(), m = d.getMonth(), dd = d.getDay(); y -= m <= 2; int64_t era = y / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + dd - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return ((era * 146097 + doe - 719468) * 86400) + d.getHour() * 3600 + d.getMinute() * 60 + d.getSecond() - d.getZone() * 60; }
void judge_date(const shared_ptr<const vmime::message>& m, const std::vector<Span>& made, const char* what) { auto d = m->getHeader()->findFieldValue<vmime::datetime>("Date"); if (!d) violate("journey.date", "%s has no date", what); int64_t e = epoch(*d); for (auto& s : made) if (e >= int64_t(s.a) && e <= int64_t(s.b)) return; violate("journey.date", "%s is dated %s (%lld), but was made at %llu", what, d->generate().c_str(), (long long) e, (unsigned long long) made[0].a); }
void judge_envelope(const SmtpTxn& t, const Person& from, std::vector<Person> to, const char* what) { auto c = [](const S& a) { size_t at = a.rfind('@'); return smtp_canon(a.substr(0, at), a.substr(at + 1)); }; CHECK(t.from == c(from.addr) || t.from == from.addr, "journey.envelope", "%s went out as from %s instead of %s", what, t.from.c_str(), from.addr.c_str()); std::multiset<S> a(t.rcpts.begin(), t.rcpts.end()), b; for (auto& p : to) b.insert(c(p.addr)); CHECK(a == b, "journey.envelope", "%s went to %zu recipients instead of %zu, or to others", what, a.size(), b.size()); }
void judge(const Letter& L, const Msg& m, S& id, const char* what, bool inner = false, size_t more = 0) {   // inner: within another message, its header written anew; more: attached messages
	auto eq = [&](const S& a, const S& b) { return a == b || (inner && sq(a) == sq(b)); };
	Out o = call("read the message", [&] {
		vmime::messageParser p(m); auto h = m->getHeader(); CHECK(eq(conv(p.getSubject()), L.subject), "journey.subject", "%s: the subject is '%s' instead of '%s'", what, conv(p.getSubject()).c_str(), L.subject.c_str());
		CHECK(p.getExpeditor().getEmail().toString() == L.from.addr && eq(conv(p.getExpeditor().getName()), L.from.name), "journey.sender", "%s: it comes from %s <%s> instead of %s <%s>", what, conv(p.getExpeditor().getName()).c_str(), p.getExpeditor().getEmail().toString().c_str(), L.from.name.c_str(), L.from.addr.c_str());
		CHECK(eq(people(p.getRecipients()), people(L.to)), "journey.recipients", "%s: it is addressed to '%s' instead of '%s'", what, people(p.getRecipients()).c_str(), people(L.to).c_str()); CHECK(eq(people(p.getCopyRecipients()), people(L.cc)), "journey.recipients", "%s: copies go to '%s' instead of '%s'", what, people(p.getCopyRecipients()).c_str(), people(L.cc).c_str());
		CHECK(p.getBlindCopyRecipients().getAddressCount() == 0 && !h->hasField("Bcc"), "journey.bcc", "%s: it tells who got a blind copy", what); judge_date(m, L.made, what); CHECK(h->hasField("Mime-Version"), "journey.mime", "%s: no Mime-Version", what);
		auto mid = h->findFieldValue<vmime::messageId>("Message-Id"); CHECK(mid && !mid->getLeft().empty() && !mid->getRight().empty(), "journey.id", "%s: it has no message identifier", what); id = mid->getId(); CHECK(L.id.empty() || id == L.id, "journey.id", "%s: the identifier is %s instead of %s", what, id.c_str(), L.id.c_str());
		if (!L.re.empty()) { auto q = h->findFieldValue<vmime::messageIdSequence>("In-Reply-To"); CHECK(q && q->getMessageIdCount() == 1 && q->getMessageIdAt(0)->getId() == L.re, "journey.thread", "%s: In-Reply-To is '%s' instead of '%s'", what, q ? q->generate().c_str() : "", L.re.c_str()); auto rf = h->findFieldValue<vmime::messageIdSequence>("References"); std::vector<S> g; if (rf) for (size_t i = 0; i < rf->getMessageIdCount(); ++i) g.push_back(rf->getMessageIdAt(i)->getId()); CHECK(g == L.refs, "journey.thread", "%s: %zu references instead of %zu, or others", what, g.size(), L.refs.size()); }
		S tx, hx; CHECK(p.getTextPartCount() == (L.is_html && !L.text.empty() ? 2u : 1u), "journey.text", "%s: %zu text parts", what, p.getTextPartCount()); shared_ptr<const vmime::textPart> t; for (size_t i = 0; i < p.getTextPartCount(); ++i) { auto x = p.getTextPartAt(i); CHECK(x->getCharset() == U8, "journey.text", "%s: the text is in %s", what, x->getCharset().getName().c_str()); if (x->getType().getSubType() == (L.is_html ? "html" : "plain")) t = x; } CHECK(t, "journey.text", "%s: no text of the kind composed", what); if (L.is_html) { auto hp = vmime::dynamicCast<const vmime::htmlTextPart>(t); CHECK(hp, "journey.text", "%s: the text is not HTML", what); hx = text_of(hp->getText()); tx = text_of(hp->getPlainText()); } else tx = text_of(t->getText());
		if (!more && L.atts.empty() && (!L.is_html || L.text.empty())) { S& x = L.is_html ? hx : tx; const S& w = L.is_html ? L.html : L.text; if (x == w + "\r\n" || x + "\r\n" == w) x = w; }   // SMTP ends the text of a message with a line break; POP3 may lose it
		CHECK(tx == L.text, "journey.text", "%s: the text differs: %s", what, diff_at(tx, L.text).c_str()); CHECK(hx == L.html, "journey.text", "%s: the HTML text differs: %s", what, diff_at(hx, L.html).c_str());
		CHECK(p.getAttachmentCount() == L.atts.size() + more, "journey.attachments", "%s: %zu attachments instead of %zu", what, p.getAttachmentCount(), L.atts.size() + more); for (size_t i = 0; i < L.atts.size(); ++i) { auto a = p.getAttachmentAt(i); auto& w = L.atts[i]; CHECK(eq(a->getName().getConvertedText(U8), w.name) && a->getType().generate() == w.type && eq(conv(a->getDescription()), w.desc), "journey.attachments", "%s: attachment %zu is '%s' (%s, '%s') instead of '%s' (%s, '%s')", what, i, a->getName().getConvertedText(U8).c_str(), a->getType().generate().c_str(), conv(a->getDescription()).c_str(), w.name.c_str(), w.type.c_str(), w.desc.c_str()); S d = text_of(a->getData()); CHECK(d == w.data, "journey.attachments", "%s: attachment %zu differs: %s", what, i, diff_at(d, w.data).c_str()); }
	});
	CHECK(o.ok, "journey.read", "%s cannot be read: %s %s", what, o.type.c_str(), o.what.c_str());
}
Letter compose(Rng& r, Person from, Person reader, size_t maxlen, Msg& m) {
	Letter L; L.from = from; L.subject = words(r, 1 + r.below(14), true); u32 where = choose(3, "reader.in"); (where == 0 ? L.to : where == 1 ? L.cc : L.bcc).push_back(reader); u32 n = choose(4, "others"); for (u32 i = 0; i < n; ++i) { auto& v = oneof<int>({0, 1, 2}, "other.in") == 0 ? L.to : chance(500, "other.cc") ? L.cc : L.bcc; v.insert(v.begin() + long(r.below(v.size() + 1)), person(r, fmt("p%u", i).c_str())); } if (L.to.empty() && L.cc.empty()) L.to.push_back(person(r, "q"));
	L.text = words(r, r.below(1 + sized(120, "text.words")), true); if (r.below(3) == 0) L.text += "\r\n.\r\n.. \r\nFrom here\r\n\r\n-- \r\nsig \t" + words(r, 3, true); L.is_html = chance(350, "html"); if (L.is_html) L.html = "<p>" + words(r, r.below(60), true) + "</p>\r\n.<br>";
	u32 na = choose(4, "attachments"); static const char* T[] = {"application/octet-stream", "image/png", "application/pdf", "text/csv"}; for (u32 i = 0; i < na; ++i) { Att a; a.name = words(r, 1 + r.below(3), r.below(2)) + fmt("%u.bin", i); a.type = T[r.below(4)]; a.data = gen_bytes(r, r.below(1 + sized(u32(maxlen), "att.len")), int(r.below(4))); a.desc = r.below(2) ? words(r, 1 + r.below(8), true) : S(); L.atts.push_back(a); }
	Out o = call("compose", [&] {
		vmime::messageBuilder mb; mb.setExpeditor(from.box()); auto list = [](const std::vector<Person>& v) { vmime::addressList l; for (auto& p : v) l.appendAddress(make_shared<vmime::mailbox>(p.box())); return l; }; if (!L.to.empty()) mb.setRecipients(list(L.to)); if (!L.cc.empty()) mb.setCopyRecipients(list(L.cc)); if (!L.bcc.empty()) mb.setBlindCopyRecipients(list(L.bcc)); mb.setSubject(vmime::text(L.subject, U8));
		if (L.is_html) { mb.constructTextPart(vmime::mediaType("text/html")); auto hp = vmime::dynamicCast<vmime::htmlTextPart>(mb.getTextPart()); hp->setCharset(U8); hp->setText(make_shared<vmime::stringContentHandler>(L.html)); hp->setPlainText(make_shared<vmime::stringContentHandler>(L.text)); } else { mb.getTextPart()->setCharset(U8); mb.getTextPart()->setText(make_shared<vmime::stringContentHandler>(L.text)); }
		for (auto& a : L.atts) { shared_ptr<vmime::contentHandler> c = make_shared<vmime::stringContentHandler>(a.data); mb.appendAttachment(make_shared<vmime::defaultAttachment>(c, vmime::encoding(oneof<const char*>({"base64", "quoted-printable"}, "att.enc")), vmime::mediaType(a.type), vmime::text(a.desc, U8), vmime::word(a.name, U8))); }
		Span s{secs(), 0}; m = mb.construct(); s.b = secs(); L.made.push_back(s); if (chance(500, "own.id")) { auto id = vmime::messageId::generateId(); m->getHeader()->MessageId()->setValue(id); L.id = id.getId(); } if (chance(150, "undated")) { m->getHeader()->removeField(m->getHeader()->Date()); L.made.clear(); } });
	CHECK(o.ok, "journey.compose", "a message cannot be composed: %s %s", o.type.c_str(), o.what.c_str()); return L;
}
S received(const SmtpTxn& t) { return "Return-Path: <" + t.from + ">\r\nReceived: from relay.example by mail.example.com; Mon, 1 Jan 2024 00:00:00 +0000\r\n" + t.data; }
// the time zone of the host, and a clock that may stand near a change of its offset
void zone() {
	static const char* Z[] = {"UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "NST3:30NDT,M3.2.0,M11.1.0", "IST-5:30", "XXX12", "YYY-14", "LHST-10:30LHDT-11,M10.1.0,M4.1.0"}; u32 z = choose(8, "zone"); setenv("TZ", Z[z], 1); tzset(); if (!chance(400, "zone.clock")) return;
	static const u64 T[] = {1792890000, 1793512800, 1806195600, 1805007600, 1798718400}; int64_t to = int64_t(T[choose(5, "zone.near")]) + int64_t(range(0, 24 * 3600, "zone.off")) - 12 * 3600; skew((to - int64_t(secs())) * 1000000); count("journey.zone_clock");
}
void pass_time() { if (chance(500, "pause")) advance(oneof<u64>({1000000, 3600000000ull, 86400000000ull * 40}, "pause.len")); if (chance(150, "clock")) skew(oneof<int64_t>({-7200000000ll, 3600000000ll, 86400000000ll * 365}, "clock.jump")); }
void world() {
	faults = chance(450, "faults"); kind = choose(3, "mailbox"); SmtpCfg sc = draw_smtp(); sc.size_limit = 0; sc.lowercase = false; g_smtp = new SmtpWorld; g_smtp->cfg = sc; g_net = draw_net(faults); dns_add("mail.example.com", DnsEntry{{"192.0.2.1"}, 200, 0, false}); smtp_listen("192.0.2.1", 25);
	if (kind == 0) { g_pop = new PopWorld; g_pop->cfg = draw_pop(); pop_listen("192.0.2.1", 110); } else if (kind == 1) { ImapCfg c = draw_imap(); c.crowd = 0; g_imap = new ImapWorld; g_imap->cfg = c; imap_listen("192.0.2.1", 143); g_imap->add_box("INBOX"); } else { g_md = new MdWorld; g_md->courier = chance(500, "layout"); fs_mkdirs(g_md->root); g_md->mkfolder("inbox"); set_hostname("localhost"); if (chance(500, "fs.partial")) { g_fs.shortrd = oneof<u32>({0, 200, 800}, "fs.shortrd"); g_fs.shortwr = oneof<u32>({0, 200, 800}, "fs.shortwr"); } }
	app_init(); zone(); set_work_limit(400000000); if (sc.ext.count("SMTPUTF8") || chance(300, "utf8.reader")) vmime::parsingContext::getDefaultContext().setInternationalizedEmailSupport(true);   // headers may travel as raw UTF-8 then
}
}
SCENARIO(E01, journey, 10) {
	world(); Rng r = subrng("journey"); Person author = person(r, "a"), reader = person(r, "r"); size_t ml = g_net.seg == 1 || g_net.rxmax || g_net.sndcap < 200 ? 300 : oneof<size_t>({300, 5000, 40000}, "maxlen"); Msg m; Letter L = compose(r, author, reader, ml, m);
	bool dnt = chance(500, "receipt"); Person dnt_to = author; bool two = false; if (dnt) { if (chance(200, "receipt.other")) dnt_to = person(r, "n"); two = chance(150, "receipt.two"); Out o = call("attachMDNRequest", [&] { if (two) { vmime::mailboxList l; l.appendMailbox(make_shared<vmime::mailbox>(dnt_to.box())); l.appendMailbox(make_shared<vmime::mailbox>(person(r, "m").box())); vm::MDNHelper::attachMDNRequest(m, l); } else vm::MDNHelper::attachMDNRequest(m, dnt_to.box()); }); CHECK(o.ok, "journey.mdn", "a receipt cannot be requested: %s", o.what.c_str()); }
	pass_time(); std::vector<Person> all = L.to; all.insert(all.end(), L.cc.begin(), L.cc.end()); all.insert(all.end(), L.bcc.begin(), L.bcc.end()); std::vector<Span> at; auto tx = submit(m, at, "the message"); if (L.made.empty()) L.made = at; for (auto& t : tx) { judge_envelope(t, author, all, "the message"); deliver(received(t)); }
	pass_time(); auto got = collect(tx.size(), "the message"); CHECK(got.size() == tx.size(), "journey.count", "%zu messages were read instead of %zu", got.size(), tx.size()); S id; for (auto& g : got) judge(L, g, id, "the message"); nontrivial(); state(kind * 8 + dnt * 4 + faults * 2 + L.is_html); count(kind == 0 ? "journey.pop3" : kind == 1 ? "journey.imap" : "journey.maildir");
	Msg orig = got.back(); size_t before = got.size(); CHECK(!vm::MDNHelper::isMDN(orig), "journey.mdn", "an ordinary message is taken for a receipt"); std::vector<vm::sendableMDNInfos> poss; bool confirm = false; Out q = call("MDN request", [&] { poss = vm::MDNHelper::getPossibleMDNs(orig); confirm = vm::MDNHelper::needConfirmation(orig); }); CHECK(q.ok, "journey.mdn", "the request for a receipt cannot be read: %s", q.what.c_str()); CHECK(poss.size() == (dnt ? two ? 2u : 1u : 0u), "journey.mdn", "%zu receipts are requested", poss.size());
	if (dnt) {
		CHECK(poss[0].getRecipient().getEmail().toString() == dnt_to.addr && conv(poss[0].getRecipient().getName()) == dnt_to.name, "journey.mdn", "the receipt is to go to %s instead of %s", poss[0].getRecipient().getEmail().toString().c_str(), dnt_to.addr.c_str()); CHECK(confirm == (two || dnt_to.addr != author.addr), "journey.mdn.confirm", "confirmation is %s although the receipt goes to %s and the message came from %s", confirm ? "needed" : "not needed", two ? "two people" : dnt_to.addr.c_str(), author.addr.c_str());
		pass_time(); vmime::disposition d; d.setActionMode(oneof<S>({"manual-action", "automatic-action"}, "mdn.action")); d.setSendingMode(oneof<S>({"MDN-sent-manually", "MDN-sent-automatically"}, "mdn.sending")); d.setType(oneof<S>({"displayed", "deleted", "dispatched", "processed"}, "mdn.type")); std::vector<S> mods; for (const char* x : {"error", "expired", "mailbox-terminated"}) if (chance(250, x)) { d.addModifier(x); mods.push_back(x); } S txt = words(r, 1 + r.below(60), true), ua = chance(500, "mdn.ua") ? words(r, 1 + r.below(3), false) : S(); std::vector<S> prods; if (!ua.empty()) for (u32 i = choose(3, "mdn.products"); i > 0; --i) prods.push_back(rnd_token(r, 6)); std::map<S, S> extra; for (const char* x : {"Error", "Warning", "Failure"}) if (chance(250, x)) extra[x] = words(r, 1 + r.below(12), false);
		Msg n; Span sp{secs(), 0}; Out o = call("buildMDN", [&] { n = vm::MDNHelper::buildMDN(poss[0], txt, U8, reader.box(), d, ua, prods, extra); }); sp.b = secs(); CHECK(o.ok, "journey.mdn", "the receipt cannot be made: %s", o.what.c_str()); pass_time(); std::vector<Span> at2; auto t2 = submit(n, at2, "the receipt"); for (auto& t : t2) { judge_envelope(t, reader, {dnt_to}, "the receipt"); deliver(received(t)); } pass_time(); auto g2 = collect(before + t2.size(), "the receipt"); CHECK(g2.size() == before + t2.size(), "journey.count", "%zu messages were read instead of %zu", g2.size(), before + t2.size());
		std::vector<Msg> rc; for (auto& g : g2) if (vm::MDNHelper::isMDN(g)) rc.push_back(g); CHECK(rc.size() == t2.size(), "journey.mdn.recognized", "%zu receipts are recognized, %zu were sent", rc.size(), t2.size()); before = g2.size();
		for (auto& g : rc) { S f; Out k = call("read the receipt", [&] { auto i = vm::MDNHelper::getReceivedMDN(g); judge_date(g, {sp}, "the receipt"); CHECK(i.getOriginalMessageId().getId() == id, "journey.mdn.id", "the receipt is for %s instead of %s", i.getOriginalMessageId().getId().c_str(), id.c_str()); auto w = i.getDisposition(); CHECK(w.getActionMode() == d.getActionMode() && w.getSendingMode() == d.getSendingMode() && w.getType() == d.getType() && w.getModifierList() == mods, "journey.mdn.disposition", "the receipt says '%s' instead of '%s'", w.generate().c_str(), d.generate().c_str());
				auto from = g->getHeader()->findFieldValue<vmime::mailbox>("From"); CHECK(from && from->getEmail().toString() == reader.addr, "journey.mdn", "the receipt is not from the reader"); auto b = g->getBody(); CHECK(b->getPartCount() == 3, "journey.mdn", "the receipt has %zu parts", b->getPartCount()); S x = text_of(b->getPartAt(0)->getBody()->getContents()); CHECK(x == txt && b->getPartAt(0)->getBody()->getCharset() == U8, "journey.mdn.text", "the text of the receipt differs: %s", diff_at(x, txt).c_str());
				f = text_of(b->getPartAt(1)->getBody()->getContents()); vmime::header h; h.parse(f); auto val = [&](const char* nm) { auto fd = h.findField(nm); auto v = fd ? vmime::dynamicCast<const vmime::text>(fd->getValue()) : vmime::null; return v ? conv(*v) : S("<none>"); }; S fr = val("Final-Recipient"); CHECK(fr == "rfc822; " + reader.addr, "journey.mdn.recipient", "the receipt is issued for '%s' instead of %s", fr.c_str(), reader.addr.c_str()); S want; if (!ua.empty()) { want = ua; for (size_t j = 0; j < prods.size(); ++j) want += (j ? ", " : "; ") + prods[j]; } S got_ua = val("Reporting-UA"); CHECK(got_ua == (ua.empty() ? S("<none>") : want), "journey.mdn.ua", "the receipt was made by '%s' instead of '%s'", got_ua.c_str(), want.c_str()); for (const char* nm : {"Error", "Warning", "Failure"}) { S v = val(nm); CHECK(v == (extra.count(nm) ? extra[nm] : S("<none>")), "journey.mdn.field", "the receipt has the %s '%s' instead of '%s'", nm, v.c_str(), extra.count(nm) ? extra[nm].c_str() : "none"); }
				vmime::header oh; oh.parse(text_of(b->getPartAt(2)->getBody()->getContents())); auto os = oh.findFieldValue<vmime::text>("Subject"); auto oi = oh.findFieldValue<vmime::messageId>("Message-Id"); CHECK(os && sq(conv(*os)) == sq(L.subject) && oi && oi->getId() == id, "journey.mdn.header", "the receipt carries the headers of another message: '%s' %s instead of '%s' %s", os ? conv(*os).c_str() : "(no subject)", oi ? oi->getId().c_str() : "(no id)", L.subject.c_str(), id.c_str()); }); CHECK(k.ok, "journey.mdn", "the receipt cannot be read: %s %s", k.type.c_str(), k.what.c_str()); }
		count("journey.receipts");
	}
	if (chance(400, "answer")) {   // the reader answers; the thread is kept
		Msg a; Letter A = compose(r, reader, author, std::min<size_t>(ml, 2000), a); A.re = id; vmime::messageIdSequence s1, s2; for (u32 i = choose(12, "refs"); i > 0; --i) A.refs.push_back(rnd_token(r, 5 + r.below(30)) + "@" + rnd_token(r, 8) + ".example"); A.refs.push_back(id); auto mk = [](const S& x) { size_t p = x.find('@'); return make_shared<vmime::messageId>(x.substr(0, p), x.substr(p + 1)); }; s1.appendMessageId(mk(id)); for (auto& x : A.refs) s2.appendMessageId(mk(x)); Out o = call("thread", [&] { a->getHeader()->InReplyTo()->setValue(s1); a->getHeader()->References()->setValue(s2); }); CHECK(o.ok, "journey.thread", "In-Reply-To cannot be set: %s", o.what.c_str());
		pass_time(); std::vector<Person> ra = A.to; ra.insert(ra.end(), A.cc.begin(), A.cc.end()); ra.insert(ra.end(), A.bcc.begin(), A.bcc.end()); std::vector<Span> at3; auto t3 = submit(a, at3, "the answer"); if (A.made.empty()) A.made = at3; for (auto& t : t3) { judge_envelope(t, reader, ra, "the answer"); deliver(received(t)); } auto g3 = collect(before + t3.size(), "the answer"); size_t n = 0; for (auto& g : g3) { auto sj = g->getHeader()->findField("In-Reply-To"); if (!sj) continue; ++n; S i3; judge(A, g, i3, "the answer"); } CHECK(n == t3.size(), "journey.thread", "%zu answers were read, %zu were sent", n, t3.size()); count("journey.answers");
	}
	if (chance(300, "forward")) {   // the reader hands the message on, as an attachment
		Person friend_ = person(r, "f"); Msg w; Letter F = compose(r, reader, friend_, std::min<size_t>(ml, 2000), w); Out o = call("attach the message", [&] { vmime::attachmentHelper::addAttachment(w, orig); }); CHECK(o.ok, "journey.forward", "a message cannot be attached: %s %s", o.type.c_str(), o.what.c_str());
		pass_time(); std::vector<Person> rf = F.to; rf.insert(rf.end(), F.cc.begin(), F.cc.end()); rf.insert(rf.end(), F.bcc.begin(), F.bcc.end()); std::vector<Span> at4; auto t4 = submit(w, at4, "the forwarded message"); if (F.made.empty()) F.made = at4;
		for (auto& t : t4) { judge_envelope(t, reader, rf, "the forwarded message"); auto g = make_shared<vmime::message>(); S all_ = received(t), i4; Out k = call("parse", [&] { g->parse(all_); }); CHECK(k.ok, "journey.forward", "the forwarded message cannot be parsed: %s", k.what.c_str()); judge(F, g, i4, "the forwarding message", false, 1);
			k = call("read the attached message", [&] { vmime::messageParser p(g); shared_ptr<const vmime::messageAttachment> ma; for (size_t i = 0; i < p.getAttachmentCount(); ++i) if (auto x = vmime::dynamicCast<const vmime::messageAttachment>(p.getAttachmentAt(i))) ma = x; CHECK(ma, "journey.forward", "the attached message is not there"); auto im = ma->getMessage(); CHECK(im, "journey.forward", "the attached message is empty"); Letter X = L; X.id = id; S i5; judge(X, im, i5, "the attached message", true); }); CHECK(k.ok, "journey.forward", "the attached message cannot be read: %s %s", k.type.c_str(), k.what.c_str()); }
		count("journey.forwards");
	}
	heal(); finish_checks();
}

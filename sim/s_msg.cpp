// C02: messages generated to and parsed from imperfect streams and files.
#include "app.hpp"
#include "vmime/contentTypeField.hpp"
#include "vmime/contentDispositionField.hpp"
#include "vmime/fileContentHandler.hpp"
#include "vmime/fileAttachment.hpp"
#include "vmime/attachmentHelper.hpp"
#include "vmime/htmlTextPart.hpp"
#include "vmime/plainTextPart.hpp"
using namespace sim;
namespace {
namespace vu = vmime::utility;
typedef std::string S; typedef unsigned char u8;
shared_ptr<vu::fileSystemFactory> fsf() { return vmime::platform::getHandler()->getFileSystemFactory(); }
shared_ptr<vu::file> file(const S& p) { return fsf()->create(fsf()->stringToPath(p)); }
void disk() { g_fs = FsCfg(); if (chance(500, "fs.partial")) { g_fs.shortrd = oneof<u32>({0, 200, 800}, "fs.shortrd"); g_fs.shortwr = oneof<u32>({0, 200, 800}, "fs.shortwr"); } if (chance(300, "fs.eintr")) g_fs.eintr = oneof<u32>({20, 200}, "fs.eintr.pm"); }
// ---- the reference model of a message
struct Part { S type, charset, enc, data, file; bool bare = false, texts = true; S boundary, prolog, epilog; std::vector<Part> kids; int how = 0; std::shared_ptr<Source> src; };
struct Model { Part root; S subject, from_name, from, custom; std::vector<std::pair<S, S>> to; };
const char* const TYPES[] = {"application/octet-stream", "text/plain", "text/html", "image/png", "application/x-long-name-of-a-type"};
S words(Rng& r, size_t n, bool intl) { static const char* W[] = {"alpha", "beta", "Gamma", "delta4", "epsilon-zeta", "eta_theta", "iota", "K"}; static const char* I[] = {"\xc3\xa9t\xc3\xa9", "\xd0\x9f\xd1\x80\xd0\xb8", "\xe6\x97\xa5\xe6\x9c\xac", "na\xc3\xafve"}; S o; for (size_t i = 0; i < n; ++i) { if (i) o += ' '; o += intl && r.below(3) == 0 ? I[r.below(4)] : W[r.below(8)]; } return o; }
bool longer(const S& o, size_t e) { return e < o.size() && ((o[e] && strchr("x_=.+:", o[e])) || !o.compare(e, 2, "-a") || !o.compare(e, 3, "--b")); }   // the line goes on: not that boundary
S leaf_data(Rng& r, size_t n, const std::vector<S>& bounds, bool raw) {
	S o; u32 style = u32(r.below(6)); while (o.size() < n) switch (style) {
		case 0: o += char(r.below(256)); break;
		case 1: o += S(r.below(90), char('a' + r.below(26))) + "\r\n"; break;
		case 2: o += "\r\n"; if (r.below(2)) o += "--"; break;
		case 3: if (!bounds.empty() && r.below(3) == 0) { const S& b = bounds[r.below(bounds.size())]; switch (r.below(5)) { case 0: o += "\r\n--" + b.substr(0, b.size() - 1) + "\r\n"; break; case 1: o += "\r\nx--" + b + "\r\n"; break; case 2: o += "\r\n-" + b + "\r\n"; break; case 3: o += "\r\n--" + b + std::vector<S>{"x", "_1", "=", ".2", "+", ":", "-a", "--b"}[r.below(8)] + "\r\n"; break; default: o += "\r\n" + b + "--\r\n"; } } else o += S(r.below(70), 'k') + "\r\n"; break;
		case 4: o += S(r.below(3000), char('A' + r.below(26))); if (r.below(3)) o += "\r\n"; break;
		default: o += r.below(40) ? char(32 + r.below(95)) : '\n'; }
	o.resize(n); if (raw) for (auto& b : bounds) { size_t q; while ((q = o.find("--" + b)) != S::npos) { size_t e = q + 2 + b.size(); if (longer(o, e)) { S t = "--" + b; q = o.find(t, e); if (q == S::npos) break; } o[q] = '+'; } }
	if (raw) for (auto& b : bounds) for (size_t q = 0; (q = o.find("--" + b, q)) != S::npos; ++q) if (!longer(o, q + 2 + b.size())) o[q] = '+';
	return o;
}
Part gen_part(Rng& r, int depth, std::vector<S> bounds, size_t big, bool wire) {
	Part p; bool multi = depth > 0 && r.below(depth == 3 ? 10 : 3) < (depth == 3 ? 8u : 1u);
	if (multi) { p.type = r.below(2) ? "multipart/mixed" : "multipart/alternative"; p.boundary = "=_" + rnd_token(r, r.below(8) ? 10 : 60); if (!bounds.empty() && bounds.back().size() < 60 && r.below(3) == 0) p.boundary = bounds.back() + std::vector<S>{"x", "_1", "=", ".2", "+", ":", "-a", "--b"}[r.below(8)] + rnd_token(r, 4); bounds.push_back(p.boundary); if (r.below(4) == 0) p.prolog = words(r, 1 + r.below(6), false); if (r.below(4) == 0) p.epilog = words(r, 1 + r.below(6), false); size_t n = 1 + r.below(4); for (size_t i = 0; i < n; ++i) p.kids.push_back(gen_part(r, depth - 1, bounds, big, wire)); return p; }
	p.type = TYPES[r.below(5)]; if (p.type.compare(0, 5, "text/") == 0) p.charset = r.below(2) ? "utf-8" : "iso-8859-1"; p.enc = std::vector<S>{"base64", "quoted-printable", "8bit", "7bit", "binary", wire ? "base64" : "uuencode"}[r.below(6)]; bool raw = p.enc == "8bit" || p.enc == "7bit" || p.enc == "binary";
	size_t n = r.below(8) == 0 ? 0 : r.below(3) == 0 ? 4096 * (1 + r.below(big / 4096 + 1)) - r.below(300) : r.below(r.below(2) ? 100 : big); if (n > big + 4096) n = big; p.data = leaf_data(r, n, bounds, raw); if (r.below(3) == 0) p.file = words(r, 1 + r.below(2), r.below(3) == 0) + ".dat"; if (r.below(12) == 0 && raw && depth < 3) { p.bare = true; p.type = "text/plain"; p.charset = "us-ascii"; p.enc = "7bit"; p.file.clear(); }
	return p;
}
Model gen_model(size_t big, bool wire) { Rng r = subrng("msg"); Model m; m.root = gen_part(r, 3, {}, big, wire); m.subject = words(r, r.below(3) ? 1 + r.below(8) : 20 + r.below(30), r.below(2)); m.from = rnd_token(r, 6) + "@example.com"; m.from_name = r.below(2) ? words(r, 1 + r.below(3), !wire && r.below(2)) : ""; size_t n = 1 + r.below(r.below(4) ? 3 : 40); for (size_t i = 0; i < n; ++i) m.to.push_back({r.below(2) ? words(r, 1 + r.below(2), !wire && r.below(2)) : "", rnd_token(r, 1 + r.below(12)) + "@" + rnd_token(r, 5) + ".org"}); m.custom = words(r, 1 + r.below(30), false); return m; }
void leaves(Part& p, std::vector<Part*>& out) { if (p.kids.empty()) out.push_back(&p); for (auto& k : p.kids) leaves(k, out); }
// ---- building it with the library
S encoded(const S& d, const S& enc, bool text) { auto e = vmime::encoding(enc).getEncoder(); e->getProperties()["maxlinelength"] = size_t(76); e->getProperties()["text"] = text; vu::inputStreamStringAdapter is(d); S o; vu::outputStreamStringAdapter os(o); e->encode(is, os); return o; }
int g_files = 0; S g_eml = "/home/m.eml";
shared_ptr<vmime::contentHandler> handler(Part& p, int how, bool faults) {
	vmime::encoding E(p.enc); bool text = p.type.compare(0, 5, "text/") == 0; auto src = [&](const S& d) { SrcCfg c = draw_src(false, d.size()); p.src = std::make_shared<Source>(d, c); (void) faults; return p.src; };
	switch (how) {
		case 0: return make_shared<vmime::stringContentHandler>(p.data);
		case 1: return make_shared<vmime::stringContentHandler>(encoded(p.data, p.enc, text), E);
		case 2: return make_shared<vmime::streamContentHandler>(src(p.data), p.data.size());
		case 3: { S e = encoded(p.data, p.enc, text); return make_shared<vmime::streamContentHandler>(src(e), e.size(), E); }
		case 4: { S e = encoded(p.data, "base64", false); return make_shared<vmime::streamContentHandler>(src(e), e.size(), vmime::encoding("base64")); }
		default: { S f = fmt("/home/in/f%d", g_files++); fs_put(f, p.data); return make_shared<vmime::fileContentHandler>(file(f)); }
	}
}
void fill(const shared_ptr<vmime::bodyPart>& bp, Part& p, bool bounds) {
	auto h = bp->getHeader(); auto b = bp->getBody();
	if (!p.kids.empty()) { h->ContentType()->setValue(vmime::mediaType(p.type)); if (bounds) vmime::dynamicCast<vmime::contentTypeField>(h->ContentType())->setBoundary(p.boundary); b->setPrologText(p.prolog); b->setEpilogText(p.epilog); for (auto& k : p.kids) { auto c = make_shared<vmime::bodyPart>(); if (chance(500, "append.first")) { b->appendPart(c); fill(c, k, bounds); } else { fill(c, k, bounds); b->appendPart(c); } } return; }
	p.how = int(choose(6, "content")); if (p.bare) p.how = std::vector<int>{0, 2, 5}[size_t(p.how) % 3];   // nothing would announce the encoding of the data
	 auto ch = handler(p, p.how, false); if (p.bare) { b->setContents(ch); return; }
	if (!p.charset.empty()) b->setContents(ch, vmime::mediaType(p.type), vmime::charset(p.charset), vmime::encoding(p.enc)); else b->setContents(ch, vmime::mediaType(p.type), vmime::charset("us-ascii"), vmime::encoding(p.enc));
	if (!p.file.empty()) { h->ContentDisposition()->setValue(vmime::contentDisposition(vmime::contentDispositionTypes::ATTACHMENT)); vmime::dynamicCast<vmime::contentDispositionField>(h->ContentDisposition())->setFilename(vmime::word(p.file, vmime::charset("utf-8"))); }
}
shared_ptr<vmime::message> build(Model& m, bool bounds) {
	auto msg = make_shared<vmime::message>(); auto h = msg->getHeader(); vmime::charset u8c("utf-8"); h->From()->setValue(vmime::mailbox(vmime::text(m.from_name, u8c), vmime::emailAddress(m.from))); vmime::addressList al; for (auto& t : m.to) al.appendAddress(make_shared<vmime::mailbox>(vmime::text(t.first, u8c), vmime::emailAddress(t.second))); h->To()->setValue(al);
	h->Subject()->setValue(vmime::text(m.subject, u8c)); h->getField("X-Custom")->setValue(vmime::text(m.custom, vmime::charset("us-ascii"))); h->MimeVersion()->setValue(S("1.0")); fill(msg, m.root, bounds); return msg;
}
// ---- comparing a parsed message with the model
S conv(const vmime::text& t) { return t.getConvertedText(vmime::charset("utf-8")); }
S unb64(const S& s) { S o; u32 v = 0; int n = 0; for (char c : s) { int x = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; if (x < 0) continue; v = v << 6 | u32(x); n += 6; if (n >= 8) { n -= 8; o += char(v >> n & 255); } } return o; }
S strip(S s) { while (!s.empty() && (s.back() == '\r' || s.back() == '\n' || s.back() == ' ')) s.pop_back(); return s; }
struct Nested : Sink { std::function<void()> fn; size_t at = 0; bool ran = false; protected: void writeImpl(const vmime::byte_t* const data, const size_t n) override { Sink::writeImpl(data, n); if (fn && !ran && d.size() >= at) { ran = true; fn(); } } };
struct Judge { std::function<bool()> excused; S where; bool squeeze = false;   // squeeze: spaces in the headers do not count (the generator separates an encoded word from an unencoded one, however close they were)
	S sq(const S& x) const { if (!squeeze) return x; S o; for (char c : x) if (c != ' ') o += c; return o; }
	void bad(const char* sig, const S& what) const { violate(sig, "%s: %s", where.c_str(), what.c_str()); }
	S extract(const shared_ptr<const vmime::contentHandler>& c, size_t want, bool raw, bool& ok) const { Sink s; s.bs = oneof<size_t>({32768, 1000, 64, 7}, "sink.bs"); Progress pg; bool l = chance(300, "progress"); Out o = call(raw ? "extractRaw" : "extract", [&] { if (raw) c->extractRaw(s, l ? &pg : nullptr); else c->extract(s, l ? &pg : nullptr); }); ok = o.ok; if (!o) { if (!excused()) bad("msg.extract", "extract() failed: " + o.what); } else if (excused()) bad("msg.swallowed", "extract() returned normally although reading failed"); (void) want; if (!pg.bad.empty()) bad("msg.progress", pg.bad); else if (l && o.ok && pg.st != 2) bad("msg.progress", pg.st ? "stop() was never called" : "no progress at all"); return s.d; }
	void part(const Part& p, const shared_ptr<const vmime::bodyPart>& b, const S& path) const {
		auto ct = b->getHeader()->findField<vmime::contentTypeField>("Content-Type"); S type = ct ? ct->getValue<vmime::mediaType>()->generate() : S("text/plain"); if (type != p.type) bad("msg.type", path + ": type " + type + ", not " + p.type);
		if (b->getBody()->getPartCount() != p.kids.size()) bad("msg.structure", path + fmt(": %zu parts, not %zu", b->getBody()->getPartCount(), p.kids.size()));
		if (!p.kids.empty()) { if (p.texts && strip(b->getBody()->getPrologText()) != p.prolog) bad("msg.prolog", path + ": prolog '" + b->getBody()->getPrologText() + "'"); if (p.texts && strip(b->getBody()->getEpilogText()) != p.epilog) bad("msg.epilog", path + ": epilog '" + b->getBody()->getEpilogText() + "', not '" + p.epilog + "'"); for (size_t i = 0; i < p.kids.size(); ++i) part(p.kids[i], b->getBody()->getPartAt(i), path + fmt("/%zu", i)); return; }
		if (!p.charset.empty() && b->getBody()->getCharset() != vmime::charset(p.charset)) bad("msg.charset", path + ": charset " + b->getBody()->getCharset().getName()); if (b->getBody()->getEncoding().getName() != p.enc) bad("msg.encoding", path + ": encoding " + b->getBody()->getEncoding().getName() + ", not " + p.enc);
		if (!p.file.empty()) { auto cd = b->getHeader()->findField<vmime::contentDispositionField>("Content-Disposition"); S f = cd ? cd->getFilename().getConvertedText(vmime::charset("utf-8")) : ""; if (f != p.file) bad("msg.filename", path + ": file name '" + f + "', not '" + p.file + "'"); }
	}
	void headers(const Model& m, const shared_ptr<const vmime::message>& msg) const {
		auto h = msg->getHeader(); auto txt = [&](const char* n) { auto f = h->findFieldValue<vmime::text>(n); return f ? sq(conv(*f)) : S("<none>"); }; if (txt("Subject") != sq(m.subject)) bad("msg.header", "Subject '" + txt("Subject") + "', not '" + m.subject + "'"); if (txt("X-Custom") != sq(m.custom)) bad("msg.header", "X-Custom '" + txt("X-Custom") + "', not '" + m.custom + "'");
		auto fr = h->findFieldValue<vmime::mailbox>("From"); if (!fr || fr->getEmail().toString() != m.from || sq(conv(fr->getName())) != sq(m.from_name)) bad("msg.header", "From '" + (fr ? conv(fr->getName()) + "' <" + fr->getEmail().toString() + ">" : S()) + ", not '" + m.from_name + "' <" + m.from + ">");
		auto to = h->findFieldValue<vmime::addressList>("To"); if (!to || to->getAddressCount() != m.to.size()) { bad("msg.header", fmt("%zu recipients, not %zu", to ? to->getAddressCount() : 0, m.to.size())); return; } for (size_t i = 0; i < m.to.size(); ++i) { auto a = vmime::dynamicCast<const vmime::mailbox>(to->getAddressAt(i)); if (!a || a->getEmail().toString() != m.to[i].second || sq(conv(a->getName())) != sq(m.to[i].first)) bad("msg.header", fmt("recipient %zu is ", i) + (a ? conv(a->getName()) + " <" + a->getEmail().toString() + ">" : S("a group")) + ", not " + m.to[i].first + " <" + m.to[i].second + ">"); }
	}
	void contents(Model& m, const shared_ptr<const vmime::message>& msg) const {   // in any order, some repeatedly, some left half-way
		std::vector<std::pair<const Part*, shared_ptr<const vmime::bodyPart>>> l; std::function<void(const Part&, const shared_ptr<const vmime::bodyPart>&)> walk = [&](const Part& p, const shared_ptr<const vmime::bodyPart>& b) { if (p.kids.empty()) l.push_back({&p, b}); else for (size_t i = 0; i < p.kids.size(); ++i) walk(p.kids[i], b->getBody()->getPartAt(i)); }; walk(m.root, msg);
		size_t n = l.size() + choose(u32(l.size() + 1), "again"); u32 off = choose(u32(l.size()), "first"); for (size_t k = 0; k < n; ++k) { size_t i = k < l.size() ? (k + off) % l.size() : choose(u32(l.size()), "pick"); const Part& p = *l[i].first; auto c = l[i].second->getBody()->getContents();
			if (l.size() > 1 && chance(150, "interleave")) {   // another part is read while this one is being written
				Nested s; s.bs = oneof<size_t>({32768, 1000, 64, 7}, "sink.bs"); S in; size_t j = choose(u32(l.size()), "other"); bool iok = true; s.at = sized(u32(p.data.size()), "interleave.at"); if (j != i) { s.fn = [&] { auto oc = l[j].second->getBody()->getContents(); in = extract(oc, 0, false, iok); }; bool xf = false; Out o = call("extract", [&] { c->extract(s); }); xf = excused(); count("c02.interleaved");
					if (o.ok && !xf && iok) { if (s.d != p.data) bad("msg.content", fmt("part %zu (%s), another one being read meanwhile: ", i, p.enc.c_str()) + diff_at(s.d, p.data)); if (s.ran && in != l[j].first->data) bad("msg.content", fmt("part %zu (%s), read while another one was: ", j, l[j].first->enc.c_str()) + diff_at(in, l[j].first->data)); } else if (!o.ok && !xf && iok) bad("msg.extract", "extract() failed: " + o.what); } }
			if (chance(100, "half")) { Sink s; s.fail_at = sized(u32(p.data.size()), "half.at"); Out o = call("extract", [&] { c->extract(s); }); if (o && s.failed) bad("msg.swallowed", "extract() ignored the failing destination"); excused(); }
			bool ok; S d = extract(c, p.data.size(), false, ok); if (ok && d != p.data) bad("msg.content", fmt("part %zu (%s, %s): ", i, p.type.c_str(), p.enc.c_str()) + diff_at(d, p.data)); if (chance(200, "raw")) { bool rok; S w = extract(c, 0, true, rok); bool raw = p.enc == "7bit" || p.enc == "8bit" || p.enc == "binary"; if (rok) { if (raw && w != p.data) bad("msg.raw", fmt("part %zu (%s), raw: ", i, p.enc.c_str()) + diff_at(w, p.data)); if (!raw && w.empty() && !p.data.empty()) bad("msg.raw", fmt("part %zu (%s): nothing extracted raw", i, p.enc.c_str())); if (p.enc == "base64" && unb64(w) != p.data) bad("msg.raw", fmt("part %zu (base64), raw, decodes to ", i) + diff_at(unb64(w), p.data)); } }
			if (!ok && p.data.compare(0, d.size(), d)) bad("msg.content", fmt("part %zu, before failing: ", i) + diff_at(d, p.data)); }
	}
	void all(Model& m, const shared_ptr<const vmime::message>& msg) const { headers(m, msg); part(m.root, msg, ""); contents(m, msg); }
};
struct Fwd : vu::inputStream { shared_ptr<Source> s; Fwd(shared_ptr<Source> x) : s(x) {} bool eof() const override { return s->eof(); } void reset() override { s->reset(); } size_t read(vmime::byte_t* const b, const size_t n) override { return s->read(b, n); } size_t skip(const size_t) override { return 0; } };
// parse the same bytes along one of many ways; src is the simulated source if there is one
const char* const WAYS[] = {"a string", "a seekable stream", "a stream", "a file", "a part of a file", "a stream of unknown length", "a part of a string", "an istream"};
shared_ptr<vmime::message> parse(const S& d, u32 way, bool faults, std::shared_ptr<Source>& src, shared_ptr<vu::inputStream>& keep, Out& o, std::unique_ptr<std::istringstream>& iss) {
	auto m = make_shared<vmime::message>(); src = nullptr; S pre = "leading bytes\r\n--x\r\n", post = "\r\n--trailing\r\n";
	o = call("parse", [&] { switch (way) {
		case 0: m->parse(d); break;
		case 1: src = std::make_shared<Source>(d, draw_src(faults, d.size())); m->parse(src, d.size()); break;
		case 2: src = std::make_shared<Source>(d, draw_src(faults, d.size())); m->parse(make_shared<Fwd>(src), d.size()); break;
		case 3: fs_put(g_eml, d); keep = file(g_eml)->getFileReader()->getInputStream(); m->parse(keep, d.size()); break;
		case 4: fs_put(g_eml, pre + d + post); keep = file(g_eml)->getFileReader()->getInputStream(); { size_t np = 0; m->parse(keep, pre.size(), pre.size() + d.size(), &np); if (np != pre.size() + d.size()) violate("msg.position", "parsing from a range of a file ended at %zu, not %zu", np, pre.size() + d.size()); } break;
		case 5: src = std::make_shared<Source>(d, draw_src(faults, d.size())); if (chance(500, "seekable")) m->parse(src, 0); else m->parse(make_shared<Fwd>(src), 0); break;
		case 6: { size_t np = 0; m->parse(pre + d + post, pre.size(), pre.size() + d.size(), &np); if (np != pre.size() + d.size()) violate("msg.position", "parsing from a range of a string ended at %zu, not %zu", np, pre.size() + d.size()); } break;
		default: iss.reset(new std::istringstream(d)); keep = make_shared<vu::inputStreamAdapter>(*iss); m->parse(keep, d.size()); } });
	return m;
}
u32 draw_way() { return weighted({2, 3, 3, 3, 2, 1, 1, 2}, "way"); }
}
// build, generate into failing sinks and files, parse back along any way
static void roundtrip_();
SCENARIO(C02, roundtrip, 10) { roundtrip_(); finish_checks(); }
static void roundtrip_() {
	app_init(); disk(); fs_mkdirs("/home/in"); g_files = 0; size_t big = oneof<size_t>({300, 5000, 20000}, "big"); bool bounds = chance(800, "bounds"); Model m = gen_model(big, false); set_work_limit(400000000); std::vector<Part*> lv; leaves(m.root, lv); for (auto* l : lv) state(fnvs(l->enc) + m.root.kids.size()); if (lv.size() > 1) nontrivial();
	auto msg = build(m, bounds); if (chance(300, "copy")) { auto c = make_shared<vmime::message>(); if (chance(400, "copy.over")) c->parse("Subject: old\r\nX-Custom: old\r\nContent-Type: multipart/mixed; boundary=old\r\n\r\nold\r\n--old\r\n\r\nolder\r\n--old--\r\n"); else if (chance(300, "copy.over2")) c->parse("X-Other: old\r\n\r\nold text\r\n"); c->copyFrom(*msg); msg = c; count("c02.copied"); } vmime::generationContext ctx(vmime::generationContext::getDefaultContext()); ctx.setPrologText(""); ctx.setEpilogText(""); if (chance(300, "linelen")) ctx.setMaxLineLength(oneof<size_t>({76, 78, 998, 120}, "linelen.n")); S ref; u32 rounds = 1 + choose(4, "rounds"); bool have = false;
	for (u32 i = 0; i < rounds + 2; ++i) {
		bool faults = i && i < rounds && chance(600, "faults"); Part* bad = nullptr; std::vector<Part*> withsrc; for (auto* l : lv) if (l->src) withsrc.push_back(l); if (faults && !withsrc.empty() && chance(500, "src.fails")) { bad = withsrc[choose(u32(withsrc.size()), "which")]; bad->src->c.fail_at = sized(u32(bad->src->d.size()), "fail.at"); bad->src->failed = false; }
		u32 dest = choose(3, "dest"); S got; bool failed = false; Out o; g_fs_faults = 0; u64 before = g_fs_faults; (void) before;
		if (dest == 0) { Sink s; s.bs = oneof<size_t>({32768, 1, 7, 1000}, "sink.bs"); if (faults && have && chance(500, "sink.fails")) s.fail_at = sized(u32(ref.size()), "sink.at"); o = call("generate", [&] { msg->generate(ctx, s); }); got = s.d; failed = s.failed; }
		else if (dest == 1) { S f = "/home/out.eml"; fs_remove(f); file(f)->createFile(); bool armed = faults && chance(500, "disk.fails"); if (armed) { FsFail x; x.mask = oneof<u32>({FC_WRITE, FC_READ, FC_WRITE | FC_READ | FC_FSYNC}, "mask"); x.nth = sized(8, "nth"); x.err = oneof<int>({EIO, ENOSPC}, "err"); x.sticky = chance(300, "sticky"); g_fs.fails.push_back(x); } o = call("generate", [&] { auto w = file(f)->getFileWriter()->getOutputStream(); msg->generate(ctx, *w); w->flush(); }); g_fs.fails.clear(); failed = g_fs_faults != 0; fs_get(f, got); }
		else { std::ostringstream os; vu::outputStreamAdapter a(os); o = call("generate", [&] { msg->generate(ctx, a); a.flush(); }); got = os.str(); }
		if (bad) { failed |= bad->src->failed; bad->src->c.fail_at = ~0ull; }
		if (o.ok) { CHECK(!failed, "msg.swallowed", "generate() returned normally although a source or the destination failed"); if (have && bounds) CHECK(got == ref, "msg.generate", "generating again gives something else: %s", diff_at(got, ref).c_str()); if (!have || !bounds) { ref = got; have = bounds; } }
		else { CHECK(failed, "msg.generate.failed", "generate() failed although nothing went wrong: %s", o.what.c_str()); if (have && bounds) CHECK(ref.compare(0, got.size(), got) == 0, "msg.generate", "what was generated before the failure is wrong: %s", diff_at(got, ref).c_str()); continue; }
		u32 way = draw_way(); std::shared_ptr<Source> src; shared_ptr<vu::inputStream> keep; std::unique_ptr<std::istringstream> iss; bool rf = chance(250, "read.faults"); if (rf && (way == 3 || way == 4)) { FsFail x; x.mask = FC_READ; x.nth = sized(40, "nth"); x.err = EIO; x.sticky = chance(300, "sticky"); g_fs.fails.push_back(x); } g_fs_faults = 0; u64 seen = 0; Out po; auto p = parse(got, way, rf, src, keep, po, iss);
		if (!po.ok) { CHECK((src && src->failed) || g_fs_faults, "msg.parse", "parsing from %s failed: %s", WAYS[way], po.what.c_str()); g_fs.fails.clear(); continue; }
		CHECK(!(src && src->failed) && !g_fs_faults, "msg.swallowed", "parsing from %s returned normally although reading failed", WAYS[way]);
		Judge j; j.where = S("parsed from ") + WAYS[way]; j.excused = [&] { bool e = (src && src->failed) || g_fs_faults > seen; if (src) src->failed = false; seen = g_fs_faults; return e; }; j.all(m, p); g_fs.fails.clear();
		if (chance(300, "regenerate") && !(src && src->c.fail_at != ~0ull)) { S again; vu::outputStreamStringAdapter os(again); Out go = call("generate (parsed)", [&] { p->generate(ctx, os); }); CHECK(go.ok, "msg.generate.failed", "generating the parsed message failed: %s", go.what.c_str()); auto p2 = make_shared<vmime::message>(); p2->parse(again); Judge j2; j2.where = "parsed, generated and parsed again"; j2.excused = [] { return false; }; j2.squeeze = true; j2.all(m, p2); count("c02.regenerated"); }
	}
}
// ---- a message written by somebody else
namespace {
S fold(const S& name, const S& v, const S& nl, Rng& r) { S o = name + ":"; if (r.below(5)) o += " "; for (size_t i = 0; i < v.size(); ++i) { if (v[i] == ' ' && r.below(8) == 0) o += nl + (r.below(3) ? " " : "\t"); else o += v[i]; } return o + nl; }
S qp(const S& d, Rng& r) { S o; size_t col = 0; for (size_t i = 0; i < d.size(); ++i) { u8 c = u8(d[i]); S t = c > 32 && c < 127 && c != '=' && (c != '-' || i % 3) && r.below(50) ? S(1, char(c)) : fmt(r.below(9) ? "=%02X" : "=%02x", c); if (col + t.size() > 75) { o += "=\r\n"; col = 0; } o += t; col += t.size(); } return o; }
S b64w(const S& d, Rng& r) { S e = b64(d), o; size_t w = r.below(3) ? 76 : 4 + r.below(60); for (size_t i = 0; i < e.size(); i += w) { o += e.substr(i, w); o += "\r\n"; } if (r.below(2) && o.size() > 1) o.resize(o.size() - 2); return o; }
S wire_part(const Part& p, const S& nl, Rng& r, bool root) {
	S o; if (!p.kids.empty()) { o += "Content-Type: " + p.type + ";" + (r.below(2) ? nl + "\t" : " ") + "boundary=\"" + p.boundary + "\"" + nl + nl; if (!p.prolog.empty()) o += p.prolog + nl; else if (r.below(3) == 0) o += nl; for (auto& k : p.kids) o += "--" + p.boundary + (r.below(8) ? "" : r.below(2) ? " " : " \t ") + nl + wire_part(k, nl, r, false) + nl; o += "--" + p.boundary + "--"; if (!p.epilog.empty()) o += nl + p.epilog; if (root || r.below(2)) o += nl; return o; }
	if (p.bare) return nl + p.data; S disp; if (!p.file.empty()) disp = "Content-Disposition: attachment; filename=\"" + p.file + "\"" + nl; S cte = (r.below(2) ? "Content-Transfer-Encoding: " : "content-transfer-encoding: ") + p.enc + nl, ct = "Content-Type: " + p.type + (p.charset.empty() ? S() : r.below(2) ? "; charset=" + p.charset : ";" + nl + " charset=\"" + p.charset + "\"") + nl; o = r.below(2) ? ct + cte + disp : disp + cte + ct; return o + nl + (p.enc == "base64" ? b64w(p.data, r) : p.enc == "quoted-printable" ? qp(p.data, r) : p.data);
}
S wire(const Model& m, const S& nl) { Rng r = subrng("wire"); S o; o += fold("From", (m.from_name.empty() ? S() : m.from_name + " ") + "<" + m.from + ">", nl, r); S to; for (auto& t : m.to) to += (to.empty() ? "" : ", ") + (t.first.empty() ? t.second : t.first + " <" + t.second + ">"); o += fold("To", to, nl, r); S s = m.subject; o += fold("Subject", s, nl, r) + fold("X-Custom", m.custom, nl, r) + "MIME-Version: 1.0" + nl; return o + wire_part(m.root, nl, r, true); }
}
static void foreign_();
SCENARIO(C02, foreign, 8) { foreign_(); finish_checks(); }
static void foreign_() {
	app_init(); disk(); fs_mkdirs("/home/in"); size_t big = oneof<size_t>({300, 5000, 20000}, "big"); Model m = gen_model(big, true); { Rng r = subrng("subject"); m.subject = words(r, 1 + r.below(12), false); } set_work_limit(400000000); S nl = chance(250, "bare.lf") ? "\n" : "\r\n"; std::vector<Part*> lv; leaves(m.root, lv); for (auto* l : lv) { state(fnvs(l->enc) + m.root.kids.size()); for (auto& c : l->file) if (u8(c) > 126) c = 'e'; if (nl == "\n" && !l->data.empty() && l->data.back() == '\r') l->data.back() = 'r'; } if (lv.size() > 1) nontrivial();
	S d = wire(m, nl); u32 rounds = 1 + choose(3, "rounds"); for (u32 i = 0; i < rounds; ++i) {
		u32 way = draw_way(); std::shared_ptr<Source> src; shared_ptr<vu::inputStream> keep; std::unique_ptr<std::istringstream> iss; bool rf = chance(250, "read.faults"); if (rf && (way == 3 || way == 4)) { FsFail x; x.mask = FC_READ; x.nth = sized(40, "nth"); x.err = EIO; x.sticky = chance(300, "sticky"); g_fs.fails.push_back(x); } g_fs_faults = 0; u64 seen = 0; Out po; auto p = parse(d, way, rf, src, keep, po, iss);
		if (!po.ok) { CHECK((src && src->failed) || g_fs_faults, "msg.parse", "parsing from %s failed: %s", WAYS[way], po.what.c_str()); g_fs.fails.clear(); continue; }
		CHECK(!(src && src->failed) && !g_fs_faults, "msg.swallowed", "parsing from %s returned normally although reading failed", WAYS[way]);
		Judge j; j.where = S("parsed from ") + WAYS[way]; j.excused = [&] { bool e = (src && src->failed) || g_fs_faults > seen; if (src) src->failed = false; seen = g_fs_faults; return e; }; j.all(m, p); g_fs.fails.clear();
	}
}
// ---- damaged messages: whatever they mean, they mean the same along every way
namespace {
void dump(const shared_ptr<const vmime::bodyPart>& b, size_t base, S& o, int depth) {
	for (auto& f : b->getHeader()->getFieldList()) { S v; try { v = f->getValue()->generate(); } catch (std::exception& e) { v = S("! ") + typeid(e).name(); } o += S(size_t(depth), ' ') + f->getName() + ": " + v + "\n"; }
	auto bd = b->getBody(); o += fmt("%*sbody %zu+%zu in %zu+%zu, %zu parts, '", depth, "", bd->getParsedOffset() - base, bd->getParsedLength(), b->getParsedOffset() - base, b->getParsedLength(), bd->getPartCount()) + bd->getPrologText() + "' '" + bd->getEpilogText() + "'\n";
	if (!bd->getPartCount()) { for (int raw = 0; raw < 2; ++raw) { S d; vu::outputStreamStringAdapter os(d); try { if (raw) bd->getContents()->extractRaw(os); else bd->getContents()->extract(os); } catch (vmime::exceptions::system_error&) { throw; } catch (vmime::exceptions::filesystem_exception&) { throw; } catch (std::exception& e) { d += S("! ") + typeid(e).name(); } o += fmt("%zu:", d.size()) + d + "\n"; } }
	for (size_t i = 0; i < bd->getPartCount(); ++i) dump(bd->getPartAt(i), base, o, depth + 1);
}
S damage(S d, const Model& m) {
	Rng r = subrng("damage"); u32 n = 1 + u32(r.below(r.below(3) ? 4 : 30)); for (u32 i = 0; i < n && !d.empty(); ++i) { size_t p = r.below(d.size()); switch (r.below(11)) { case 0: d.erase(p, 1 + r.below(30)); break; case 1: d.resize(p); break; case 2: d[p] = char(r.below(256)); break; case 3: d.insert(p, std::vector<S>{"\n", "\r", "\r\n\r\n", "--", "=", "\0", " ", "\t", ";", "\"", ":", "\r\n ", "=?utf-8?q?", "?=", "(", "<", ",", "%", "*0*="}[r.below(19)]); break; case 4: { size_t q = d.find("\n--", p); if (q != S::npos) d.erase(q, 1 + r.below(20)); break; } case 5: { size_t q = d.find('\n', p); if (q != S::npos) d.insert(q + 1, "--" + m.root.boundary + std::vector<S>{"\r\n", "--\r\n", "-\r\n", "--", "", "junk\r\n", " \t"}[r.below(7)]); break; } case 6: { size_t q = d.find("boundary", p); if (q == S::npos) q = d.find("boundary"); if (q != S::npos) d.erase(q, 8 + r.below(16)); break; } case 7: { size_t q = d.find('\n', p), e = q == S::npos ? q : d.find('\n', q + 1); if (e != S::npos) d.insert(e + 1, d.substr(q + 1, e - q)); break; } case 8: { size_t len = std::min<size_t>(r.below(5000), d.size() - p); S x = d.substr(p, len); d.insert(r.below(d.size()), x); break; } case 9: d.insert(p, S(r.below(9000), "a =-\n"[r.below(5)])); break; default: { size_t q; while ((q = d.find("\r\n")) != S::npos && r.below(400)) d.erase(q, 1); } } if (d.size() > 80000) d.resize(80000); }
	return d;
}
}
static void damaged_();
SCENARIO(C02, damaged, 8) { damaged_(); finish_checks(); }
static void damaged_() {
	app_init(); disk(); fs_mkdirs("/home/in"); size_t big = oneof<size_t>({60, 300, 5000}, "big"); Model m = gen_model(big, chance(500, "own")); S d = damage(wire(m, "\r\n"), m); set_work_limit(2000000000ull); if (d.size() > 100) nontrivial(); state(d.size() % 997);
	S ref; { auto p = make_shared<vmime::message>(); p->parse(d); dump(p, 0, ref, 0); S g; vu::outputStreamStringAdapter os(g); Out o = call("generate", [&] { p->generate(os); }); CHECK(o.ok || o.type.find("vmime") != S::npos || o.type.find("exception") != S::npos || !o.type.empty(), "msg.x", "x"); }
	u32 rounds = 1 + choose(3, "rounds"); for (u32 i = 0; i < rounds; ++i) {
		u32 way = draw_way(); std::shared_ptr<Source> src; shared_ptr<vu::inputStream> keep; std::unique_ptr<std::istringstream> iss; bool rf = chance(250, "read.faults"); if (rf && (way == 3 || way == 4)) { FsFail x; x.mask = FC_READ; x.nth = sized(40, "nth"); x.err = EIO; g_fs.fails.push_back(x); } g_fs_faults = 0; Out po; auto p = parse(d, way, rf, src, keep, po, iss); bool f1 = (src && src->failed) || g_fs_faults; CHECK(po.ok == !f1, po.ok ? "msg.swallowed" : "msg.parse", "parsing from %s %s", WAYS[way], po.ok ? "returned normally although reading failed" : po.what.c_str()); if (!po.ok) { g_fs.fails.clear(); continue; }
		S got; Out eo = call("read contents", [&] { dump(p, p->getParsedOffset(), got, 0); }); bool f2 = (src && src->failed) || g_fs_faults; g_fs.fails.clear(); CHECK(eo.ok == !f2, eo.ok ? "msg.swallowed" : "msg.extract", "reading contents (%s) %s", WAYS[way], eo.ok ? "returned normally although reading failed" : eo.what.c_str()); if (eo.ok) CHECK(got == ref, "msg.segmentation", "parsed from %s, the message is another one: %s", WAYS[way], diff_at(got, ref).c_str());
	}
}
// ---- the message builder and the message parser
static void builder_();
SCENARIO(C02, builder, 8) { builder_(); finish_checks(); }
static Model submodel() { Model m = gen_model(oneof<size_t>({300, 4000}, "message.big"), false); std::function<void(Part&)> plain = [&](Part& p) { p.texts = false; for (auto& k : p.kids) plain(k); }; plain(m.root); return m; }
static void builder_() {
	app_init(); disk(); fs_mkdirs("/home/in"); g_files = 0; set_work_limit(400000000); Rng r = subrng("msg"); vmime::charset u8c("utf-8"); vmime::messageBuilder mb; S subject = words(r, 1 + r.below(12), true), from = rnd_token(r, 5) + "@a.org"; mb.setSubject(vmime::text(subject, u8c)); mb.setExpeditor(vmime::mailbox(from)); vmime::addressList to; to.appendAddress(make_shared<vmime::mailbox>("to@b.org")); mb.setRecipients(to); S txt = words(r, r.below(200), true), htm, obj; bool html = chance(400, "html"), embed = html && chance(600, "object"); std::vector<S> ids; std::vector<S> objs;
	struct Att { S name, data, type; std::shared_ptr<Source> src; bool isfile = false, ismsg = false; Model msg; }; std::vector<Att> atts; u32 n = choose(4, "attachments"); bool errors = chance(400, "errors"); auto mtxt = make_shared<vmime::stringContentHandler>(txt);
	if (html) { mb.constructTextPart(vmime::mediaType("text/html")); auto hp = vmime::dynamicCast<vmime::htmlTextPart>(mb.getTextPart()); hp->setCharset(u8c); htm = "<html>" + txt + "</html>"; if (embed) { u32 k = 1 + choose(3, "objects"); for (u32 i = 0; i < k; ++i) { S o = gen_bytes(r, r.below(3000), 0); S f = fmt("/home/in/o%u", i); fs_put(f, o); objs.push_back(o); shared_ptr<vmime::contentHandler> och; if (chance(500, "object.file")) och = make_shared<vmime::fileContentHandler>(file(f)); else och = make_shared<vmime::stringContentHandler>(o); S id = hp->addObject(och, vmime::encoding("base64"), vmime::mediaType("image/png"))->getReferenceId(); ids.push_back(id); htm += "<img src=\"" + id + "\">"; } } hp->setText(make_shared<vmime::stringContentHandler>(htm)); hp->setPlainText(mtxt); }
	else { mb.getTextPart()->setCharset(u8c); mb.getTextPart()->setText(mtxt); }
	for (u32 i = 0; i < n; ++i) { Att a; a.name = words(r, 1 + r.below(2), r.below(2)) + fmt("%u.bin", i); a.data = gen_bytes(r, r.below(r.below(3) ? 400 : 20000), 0); a.type = TYPES[r.below(5)]; u32 kind = weighted({3, 3, 3, 2}, "kind"); vmime::mediaType mt(a.type);
		if (kind == 0) { a.isfile = true; S fn = fmt("f%d.bin", g_files++); a.name = fn; fs_put("/home/in/" + fn, a.data); mb.appendAttachment(make_shared<vmime::fileAttachment>("/home/in/" + fn, mt)); }
		else if (kind == 1) { a.src = std::make_shared<Source>(a.data, draw_src(false, a.data.size())); mb.appendAttachment(make_shared<vmime::defaultAttachment>(make_shared<vmime::streamContentHandler>(a.src, a.data.size()), vmime::encoding("base64"), mt, vmime::text("d"), vmime::word(a.name, u8c))); }
		else if (kind == 3) { a.ismsg = true; a.name = ""; a.type = "message/rfc822"; a.msg = submodel(); { auto im = build(a.msg, true); Sink sk; im->generate(sk); a.data = sk.d; } shared_ptr<vmime::contentHandler> ch = make_shared<vmime::stringContentHandler>(a.data); mb.appendAttachment(make_shared<vmime::defaultAttachment>(ch, vmime::encoding(oneof<const char*>({"base64", "quoted-printable", "8bit"}, "message.enc")), vmime::mediaType(a.type), vmime::text("d"))); count("c02.message_attached"); }
		else { shared_ptr<vmime::contentHandler> ch = make_shared<vmime::stringContentHandler>(a.data); mb.appendAttachment(make_shared<vmime::defaultAttachment>(ch, mt, vmime::text("d"), vmime::word(a.name, u8c))); } atts.push_back(a); }
	if (n || embed) nontrivial(); state(n * 4 + html * 2 + embed); shared_ptr<vmime::message> msg; Out bo = call("construct", [&] { msg = mb.construct(); }); CHECK(bo.ok, "msg.construct", "construct() failed: %s", bo.what.c_str()); bool later = chance(300, "late") && !html; Att la; if (later) { la.name = "late.bin"; la.type = "image/png"; la.data = gen_bytes(r, r.below(2000), 0); shared_ptr<vmime::contentHandler> ch = make_shared<vmime::stringContentHandler>(la.data); Out o = call("addAttachment", [&] { vmime::attachmentHelper::addAttachment(msg, make_shared<vmime::defaultAttachment>(ch, vmime::encoding("base64"), vmime::mediaType(la.type), vmime::text("d"), vmime::word(la.name))); }); CHECK(o.ok, "msg.attach", "addAttachment() failed: %s", o.what.c_str()); atts.push_back(la); }
	bool lm = chance(250, "message") && !html; if (lm) { Att x; x.type = "message/rfc822"; x.ismsg = true; x.msg = submodel(); auto im = build(x.msg, true); Out o = call("addAttachment", [&] { vmime::attachmentHelper::addAttachment(msg, im); }); CHECK(o.ok, "msg.attach", "addAttachment() of a message failed: %s", o.what.c_str()); atts.push_back(x); count("c02.message_attached"); }
	for (u32 round = 0; round < 2; ++round) {
		bool f = errors && round == 0; S out = "/home/out.eml"; fs_remove(out); file(out)->createFile(); g_fs_faults = 0; if (f) { std::vector<Att*> s; for (auto& a : atts) if (a.src) s.push_back(&a); if (!s.empty() && chance(500, "src.fails")) { auto* a = s[choose(u32(s.size()), "which")]; a->src->c.fail_at = sized(u32(a->data.size()), "at"); } else { FsFail x; x.mask = oneof<u32>({FC_WRITE, FC_READ, FC_WRITE | FC_READ | FC_FSYNC}, "mask"); x.nth = sized(10, "nth"); x.err = oneof<int>({EIO, ENOSPC}, "err"); g_fs.fails.push_back(x); } }
		Out o = call("generate", [&] { auto w = file(out)->getFileWriter()->getOutputStream(); msg->generate(*w); w->flush(); }); g_fs.fails.clear(); bool failed = g_fs_faults != 0; for (auto& a : atts) if (a.src) { failed |= a.src->failed; a.src->failed = false; a.src->c.fail_at = ~0ull; } CHECK(o.ok == !failed, o.ok ? "msg.swallowed" : "msg.generate.failed", "generate() %s", o.ok ? "returned normally although an attachment or the destination failed" : o.what.c_str()); if (!o.ok) continue;
		S d; fs_get(out, d); u32 way = draw_way(); std::shared_ptr<Source> src; shared_ptr<vu::inputStream> keep; std::unique_ptr<std::istringstream> iss; Out po; auto p = parse(d, way, false, src, keep, po, iss); CHECK(po.ok, "msg.parse", "parsing from %s failed: %s", WAYS[way], po.what.c_str()); if (!po.ok) continue;
		Out jo = call("messageParser", [&] { vmime::messageParser mp(p); Judge j; j.where = S("parsed from ") + WAYS[way]; j.excused = [] { return false; }; if (conv(mp.getSubject()) != subject) j.bad("msg.header", "subject '" + conv(mp.getSubject()) + "', not '" + subject + "'"); if (mp.getExpeditor().getEmail().toString() != from) j.bad("msg.header", "sender " + mp.getExpeditor().getEmail().toString()); if (mp.getRecipients().getAddressCount() != 1) j.bad("msg.header", "recipients");
			if (mp.getAttachmentCount() != atts.size()) { j.bad("msg.attachments", fmt("%zu attachments, not %zu", mp.getAttachmentCount(), atts.size())); return; }
			for (size_t i = 0; i < atts.size(); ++i) { auto a = mp.getAttachmentAt(i); S nm = a->getName().getConvertedText(u8c); if (nm != atts[i].name) j.bad("msg.filename", fmt("attachment %zu is '", i) + nm + "', not '" + atts[i].name + "'"); if (a->getType().generate() != atts[i].type) j.bad("msg.type", fmt("attachment %zu is ", i) + a->getType().generate()); if (atts[i].ismsg) { auto ma = vmime::dynamicCast<const vmime::messageAttachment>(a); if (!ma) { j.bad("msg.attachments", "an attached message is not a message attachment"); continue; } Judge jm = j; jm.where += ", attached message"; jm.all(atts[i].msg, ma->getMessage()); continue; } bool ok; S x = j.extract(a->getData(), 0, false, ok); if (x != atts[i].data) j.bad("msg.content", fmt("attachment %zu (%s): ", i, a->getEncoding().getName().c_str()) + diff_at(x, atts[i].data)); }
			S tx, hx; for (size_t i = 0; i < mp.getTextPartCount(); ++i) { auto t = mp.getTextPartAt(i); bool ok; S x = j.extract(t->getText(), 0, false, ok); if (t->getType().getSubType() == "html") { hx = x; auto hp = vmime::dynamicCast<const vmime::htmlTextPart>(t); S pl = j.extract(hp->getPlainText(), 0, false, ok); if (pl != txt) j.bad("msg.text", "plain text: " + diff_at(pl, txt)); if (hp->getObjectCount() != objs.size()) j.bad("msg.objects", fmt("%zu embedded objects, not %zu", hp->getObjectCount(), objs.size())); for (size_t k = 0; k < ids.size(); ++k) { S id = ids[k].compare(0, 4, "CID:") && ids[k].compare(0, 4, "cid:") ? ids[k] : ids[k].substr(4); if (!hp->hasObject(id)) { j.bad("msg.objects", "object " + id + " is missing"); continue; } S ox = j.extract(hp->findObject(id)->getData(), 0, false, ok); if (ox != objs[k]) j.bad("msg.content", "embedded object: " + diff_at(ox, objs[k])); } } else tx = x; if (t->getCharset() != u8c) j.bad("msg.charset", "text charset " + t->getCharset().getName()); }
			if (!html && tx != txt) j.bad("msg.text", "text: " + diff_at(tx, txt)); if (html && hx != htm) j.bad("msg.text", "html: " + diff_at(hx, htm)); }); CHECK(jo.ok, "msg.parser", "the message parser failed: %s", jo.what.c_str());
	}
}

// ---- editing messages that are read lazily
namespace {
typedef shared_ptr<vmime::bodyPart> BP;
struct Node { Part* p; BP b; Part* up; BP upb; size_t pos; };
void nodes(Part& p, const BP& b, Part* up, const BP& upb, size_t pos, std::vector<Node>& o) { o.push_back({&p, b, up, upb, pos}); for (size_t i = 0; i < p.kids.size(); ++i) nodes(p.kids[i], b->getBody()->getPartAt(i), &p, b, i, o); }
Part* mixed(Part& p) { if (p.type == "multipart/mixed") return &p; for (auto& k : p.kids) if (Part* f = mixed(k)) return f; return nullptr; }
Part& attach_to(Model& m) { if (Part* f = mixed(m.root)) return *f; Part r; r.type = "multipart/mixed"; r.texts = false; Part old = m.root; old.texts = false; r.kids.push_back(old); m.root = r; return m.root; }
struct Doc { Model m; shared_ptr<vmime::message> msg; std::shared_ptr<Source> src; shared_ptr<vu::inputStream> keep; std::unique_ptr<std::istringstream> iss; u32 way = 0; };
void foreign_model(Doc& x, const char* tag, size_t big) { (void) tag; x.m = gen_model(big, true); Rng r = subrng("subject"); x.m.subject = words(r, 1 + r.below(12), false); std::vector<Part*> lv; leaves(x.m.root, lv); for (auto* l : lv) for (auto& c : l->file) if (u8(c) > 126) c = 'e'; }
}
static void edit_();
SCENARIO(C02, edit, 9) { edit_(); finish_checks(); }
static void edit_() {
	app_init(); disk(); fs_mkdirs("/home/in"); g_files = 0; set_work_limit(600000000); size_t big = oneof<size_t>({300, 5000, 12000}, "big"); vmime::generationContext::getDefaultContext().setPrologText(""); vmime::generationContext::getDefaultContext().setEpilogText("");
	Doc A, B; foreign_model(A, "a", big); foreign_model(B, "b", big / 2 + 100); auto open = [&](Doc& x, const S& f) { x.way = draw_way(); g_eml = f; Out o; x.msg = parse(wire(x.m, "\r\n"), x.way, false, x.src, x.keep, o, x.iss); CHECK(o.ok, "msg.parse", "parsing from %s failed: %s", WAYS[x.way], o.what.c_str()); return o.ok; }; if (!open(A, "/home/a.eml") || !open(B, "/home/b.eml")) return; g_eml = "/home/m.eml"; state(A.m.root.kids.size() * 8 + A.way);
	struct Att { S data; Model m; }; std::vector<Att> atts; std::vector<S> did; u32 n = 1 + choose(6, "edits"); Rng r = subrng("edits"); auto boundaries = [&] { std::vector<S> o; std::function<void(Part&)> w = [&](Part& p) { if (!p.boundary.empty()) o.push_back(p.boundary); for (auto& k : p.kids) w(k); }; w(A.m.root); return o; };
	for (u32 e = 0; e < n; ++e) {
		std::vector<Node> l; nodes(A.m.root, A.msg, nullptr, nullptr, 0, l); std::vector<Node> multi, leaf, child; for (auto& x : l) { (x.p->kids.empty() ? leaf : multi).push_back(x); if (x.up) child.push_back(x); }
		u32 what = choose(8, "edit"); Out o; switch (what) {
			case 0: { Node& x = leaf[choose(u32(leaf.size()), "leaf")]; if (x.p->type == "message/rfc822") break; S enc = oneof<S>({"base64", "quoted-printable"}, "enc"); o = call("setEncoding", [&] { x.b->getBody()->setEncoding(vmime::encoding(enc)); }); x.p->enc = enc; if (x.p->bare) { x.p->bare = false; } did.push_back("recode"); count("c02.recoded"); break; }
			case 1: { if (multi.empty()) break; Node& x = multi[choose(u32(multi.size()), "multi")]; Part np = gen_part(r, 0, boundaries(), 1500, false); np.bare = false; auto b = make_shared<vmime::bodyPart>(); fill(b, np, true); size_t at = choose(u32(x.p->kids.size() + 1), "at"); o = call("insert", [&] { auto bd = x.b->getBody(); size_t k = x.p->kids.size(); if (at == k) { if (chance(500, "after") && k) bd->insertPartAfter(bd->getPartAt(k - 1), b); else bd->appendPart(b); } else if (chance(500, "by.pos")) bd->insertPartBefore(at, b); else bd->insertPartBefore(bd->getPartAt(at), b); }); x.p->kids.insert(x.p->kids.begin() + long(at), np); did.push_back("insert"); break; }
			case 2: { if (child.empty()) break; Node x = child[choose(u32(child.size()), "child")]; if (x.up->kids.size() < 2) break; o = call("remove", [&] { if (chance(500, "by.pos")) x.upb->getBody()->removePart(x.pos); else x.upb->getBody()->removePart(x.b); }); x.up->kids.erase(x.up->kids.begin() + long(x.pos)); did.push_back("remove"); break; }
			case 3: { if (child.empty() || !B.msg) break; S data; vu::outputStreamStringAdapter os(data); B.msg->generate(os); o = call("addAttachment", [&] { vmime::attachmentHelper::addAttachment(A.msg, B.msg); }); Part np; np.type = "message/rfc822"; np.enc = "7bit"; np.data = data; attach_to(A.m).kids.push_back(np); atts.push_back({data, B.m}); did.push_back("attach message"); count("c02.attached"); break; }
			case 4: { Part np; np.type = "image/png"; np.enc = "base64"; np.data = gen_bytes(r, r.below(3000), 0); np.file = words(r, 1, false) + ".dat"; S f = fmt("/home/in/f%d", g_files++); fs_put(f, np.data); bool fileh = chance(500, "file"); o = call("addAttachment", [&] { shared_ptr<vmime::contentHandler> ch; if (fileh) ch = make_shared<vmime::fileContentHandler>(file(f)); else ch = make_shared<vmime::stringContentHandler>(np.data); vmime::attachmentHelper::addAttachment(A.msg, make_shared<vmime::defaultAttachment>(ch, vmime::encoding("base64"), vmime::mediaType(np.type), vmime::text("d"), vmime::word(np.file))); }); attach_to(A.m).kids.push_back(np); did.push_back("attach data"); break; }
			case 5: { if (!B.msg || multi.empty()) break; std::vector<Node> bl; nodes(B.m.root, B.msg, nullptr, nullptr, 0, bl); std::vector<Node> c; for (auto& x : bl) if (x.up && x.up->kids.size() > 1) c.push_back(x); if (c.empty()) break; Node x = c[choose(u32(c.size()), "part")]; Node& t = multi[choose(u32(multi.size()), "to")]; Part np = *x.p; x.up->kids.erase(x.up->kids.begin() + long(x.pos)); bl.clear(); c.clear(); BP part = x.b; x = Node(); bool drop = chance(300, "drop"); if (drop) { B.msg = nullptr; count("c02.orphaned"); } o = call("move", [&] { t.b->getBody()->appendPart(part); }); t.p->kids.push_back(np); did.push_back(drop ? "take from a dropped message" : "take from another message"); break; }
			case 6: { if (child.empty()) break; Node x = child[choose(u32(child.size()), "child")]; if (x.up->kids.size() < 2) break; std::vector<Node> sub; nodes(*x.p, x.b, nullptr, nullptr, 0, sub); std::vector<Node> to; for (auto& y : multi) { bool in = false; for (auto& z : sub) in |= z.b == y.b; if (!in) to.push_back(y); } if (to.empty()) break; Node t = to[choose(u32(to.size()), "to")]; Part np = *x.p; o = call("move", [&] { t.b->getBody()->appendPart(x.b); }); Part* up = x.up; up->kids.erase(up->kids.begin() + long(x.pos)); if (t.up == up && t.pos > x.pos) --t.p; t.p->kids.push_back(np); did.push_back("move"); break; }
			default: { A.m.subject = words(r, 1 + r.below(10), true); o = call("edit", [&] { A.msg->getHeader()->Subject()->setValue(vmime::text(A.m.subject, vmime::charset("utf-8"))); auto c = make_shared<vmime::message>(); c->copyFrom(*A.msg); A.msg = c; }); did.push_back("subject, copy"); } }
		if (o.type.empty() && o.what.empty() && !o.ok) continue; CHECK(o.ok, "msg.edit", "editing (%s) failed: %s", did.empty() ? "" : did.back().c_str(), o.what.c_str()); if (!o.ok) return; }
	if (did.size() > 1) nontrivial(); S all; for (auto& d : did) all += (all.empty() ? "" : ", ") + d; state(fnvs(all));
	for (u32 round = 0; round < 2; ++round) {
		bool f = round == 0 && chance(400, "faults"); u64 seen = 0; g_fs_faults = 0; if (f) { if (A.src && chance(600, "src.fails")) { A.src->failed = false; A.src->c.fail_at = sized(u32(A.src->d.size()), "at"); } else { FsFail x; x.mask = FC_READ; x.nth = sized(20, "nth"); x.err = EIO; x.sticky = chance(300, "sticky"); g_fs.fails.push_back(x); } }
		S got; Sink s; s.bs = oneof<size_t>({32768, 1000, 7}, "sink.bs"); Out o = call("generate", [&] { A.msg->generate(s); }); g_fs.fails.clear(); bool failed = g_fs_faults > seen; if (A.src) { failed |= A.src->failed; A.src->failed = false; A.src->c.fail_at = ~0ull; } CHECK(o.ok == !failed, o.ok ? "msg.swallowed" : "msg.generate.failed", "generating the edited message (%s, parsed from %s) %s", all.c_str(), WAYS[A.way], o.ok ? "returned normally although reading failed" : o.what.c_str()); if (!o.ok) continue;
		auto p = make_shared<vmime::message>(); p->parse(s.d); Judge j; j.where = S("edited (") + all + "), after being parsed from " + WAYS[A.way]; j.excused = [] { return false; }; j.squeeze = true; j.all(A.m, p);
		size_t k = 0; for (auto& a : vmime::attachmentHelper::findAttachmentsInMessage(p)) if (auto ma = vmime::dynamicCast<const vmime::messageAttachment>(a)) { ++k; bool ok; S d = j.extract(ma->getData(), 0, false, ok); const Att* w = nullptr; for (auto& x : atts) if (x.data == d) w = &x; if (!w) { j.bad("msg.attached", "an attached message is not among those attached"); continue; } Model wm = w->m; Judge j2 = j; j2.where += ", attached message"; Out go = call("getMessage", [&] { j2.all(wm, vmime::constCast<vmime::messageAttachment>(ma)->getMessage()); }); CHECK(go.ok, "msg.attached", "getMessage() failed: %s", go.what.c_str()); }
		size_t want = 0; std::vector<Node> l; nodes(A.m.root, A.msg, nullptr, nullptr, 0, l); for (auto& x : l) want += x.p->type == "message/rfc822"; CHECK(k == want, "msg.attached", "%zu attached messages found, not %zu", k, want);
	}
}

// ---- a host short of memory: an allocation fails at any point of parsing, reading, editing or generating
namespace {
// runs fn with its allocations counted (fail = 0) or failing at the fail-th; returns whether one failed
bool starve(const char* what, u64 fail, bool sticky, bool& ok, u64& n, const std::function<void()>& fn) {
	u64 hits = 0; bool done = false, oom = false; S other; Out o = call(what, [&] { alloc_watch(fail, sticky); try { fn(); done = true; } catch (std::bad_alloc&) { oom = true; } catch (std::exception& e) { n = alloc_done(&hits); other = e.what(); } n = std::max(n, alloc_done(hits ? nullptr : &hits)); });
	ok = done; if (hits) count("fault.alloc"); CHECK(done || hits, "msg.memory.failed", "%s failed although no allocation did: %s", what, oom ? "std::bad_alloc" : other.c_str()); (void) o; return hits != 0;
}
}
static void memory_() {
	app_init(); set_work_limit(400000000); Rng r = subrng("mem"); Model mm = submodel(); auto m0 = build(mm, true); S text; { vu::outputStreamStringAdapter os(text); m0->generate(os); }
	auto ref = make_shared<vmime::message>(); ref->parse(text); S want, gen; dump(ref, ref->getParsedOffset(), want, 0); { vu::outputStreamStringAdapter os(gen); ref->generate(os); }
	u32 rounds = 1 + choose(6, "rounds"); for (u32 i = 0; i < rounds; ++i) {
		u32 op = choose(7, "op"); static const char* N[] = {"parse", "generate", "extract", "messageParser", "clone", "edit", "construct"}; const char* what = N[op]; auto m = make_shared<vmime::message>(); if (op) m->parse(text); shared_ptr<vmime::header> h2; std::vector<shared_ptr<const vmime::contentHandler>> cs; std::vector<S> got, full; std::function<void(const shared_ptr<const vmime::bodyPart>&)> walk = [&](const shared_ptr<const vmime::bodyPart>& b) { if (b->getBody()->getPartCount() == 0) { cs.push_back(b->getBody()->getContents()); S x; vu::outputStreamStringAdapter os(x); cs.back()->extract(os); full.push_back(x); } for (size_t k = 0; k < b->getBody()->getPartCount(); ++k) walk(b->getBody()->getPartAt(k)); }; if (op == 2) walk(m);
		size_t na = 0, nt = 0; S out; vmime::messageBuilder mb; shared_ptr<vmime::message> built; vmime::charset u8c("utf-8"); S body = words(r, 30, true); if (op == 6) { mb.setSubject(vmime::text(words(r, 5, true), u8c)); mb.setExpeditor(vmime::mailbox("a@b.org")); vmime::addressList to; to.appendAddress(make_shared<vmime::mailbox>("c@d.org")); mb.setRecipients(to); mb.getTextPart()->setCharset(u8c); mb.getTextPart()->setText(make_shared<vmime::stringContentHandler>(body)); for (u32 k = choose(3, "atts"); k > 0; --k) { shared_ptr<vmime::contentHandler> c = make_shared<vmime::stringContentHandler>("data"); mb.appendAttachment(make_shared<vmime::defaultAttachment>(c, vmime::encoding("base64"), vmime::mediaType("image/png"), vmime::text("d"), vmime::word("n"))); } }
		size_t parts0 = op ? m->getBody()->getPartCount() : 0; bool multi = parts0 > 0; auto fresh = make_shared<vmime::bodyPart>(); fresh->getBody()->setContents(make_shared<vmime::stringContentHandler>("fresh"), vmime::mediaType("text/plain"));
		std::function<void()> fn = [&] { switch (op) {
			case 0: m->parse(text); break;
			case 1: { out.clear(); vu::outputStreamStringAdapter os(out); m->generate(os); break; }
			case 2: got.clear(); for (auto& c : cs) { S x; { vu::outputStreamStringAdapter os(x); c->extract(os); } got.push_back(x); } break;
			case 3: { vmime::messageParser p(m); na = p.getAttachmentCount(); nt = p.getTextPartCount(); break; }
			case 4: h2 = vmime::clone(m->getHeader()); break;
			case 5: m->getHeader()->getField("X-Added")->setValue(S("added")); m->getHeader()->Subject()->setValue(vmime::text("another subject", vmime::charset("us-ascii"))); if (multi) m->getBody()->appendPart(fresh); break;
			case 6: built = mb.construct(); break; } };
		u64 total = 0; bool ok; { auto keep = m; if (op == 0 || op == 5) { auto t = make_shared<vmime::message>(); if (op) t->parse(text); m = t; auto f = fresh; fresh = make_shared<vmime::bodyPart>(); starve(what, 0, false, ok, total, fn); m = keep; fresh = f; } else starve(what, 0, false, ok, total, fn); } size_t na0 = na, nt0 = nt; if (!total) continue;
		u64 at = chance(300, "first") ? 1 + choose(u32(std::min<u64>(total, 40)), "fail.at") : 1 + choose(u32(total), "fail.at"); bool sticky = chance(300, "fail.all"); u64 n2 = 0; bool hit = starve(what, at, sticky, ok, n2, fn); if (hit) nontrivial(); state(op * 64 + std::min<u64>(at, 50) + sticky * 1000);
		auto right = [&](const char* when) { switch (op) {
			case 0: { S d; dump(m, m->getParsedOffset(), d, 0); CHECK(d == want, "msg.memory.parse", "%s, the message is another one: %s", when, diff_at(d, want).c_str()); break; }
			case 1: CHECK(out == gen, "msg.memory.generate", "%s, the message reads otherwise: %s", when, diff_at(out, gen).c_str()); break;
			case 2: for (size_t k = 0; k < full.size(); ++k) CHECK(k < got.size() && got[k] == full[k], "msg.memory.extract", "%s, the contents of part %zu differ: %s", when, k, k < got.size() ? diff_at(got[k], full[k]).c_str() : "missing"); break;
			case 3: CHECK(na == na0 && nt == nt0, "msg.memory.parser", "%s, the message has %zu attachments and %zu text parts instead of %zu and %zu", when, na, nt, na0, nt0); break;
			case 4: { CHECK(h2, "msg.memory.clone", "%s, there is no copy", when); S a, b; { vu::outputStreamStringAdapter oa(a), ob(b); h2->generate(oa); m->getHeader()->generate(ob); } CHECK(a == b, "msg.memory.clone", "%s, the copy differs: %s", when, diff_at(a, b).c_str()); break; }
			case 5: { auto sj = m->getHeader()->findFieldValue<vmime::text>("Subject"); CHECK(sj && conv(*sj) == "another subject" && m->getHeader()->hasField("X-Added") && (!multi || m->getBody()->getPartCount() == parts0 + 1), "msg.memory.edit", "%s, the message is not edited: %zu parts, %zu before", when, m->getBody()->getPartCount(), parts0); break; }
			case 6: { S x; { vu::outputStreamStringAdapter os(x); built->generate(os); } auto p = make_shared<vmime::message>(); p->parse(x); vmime::messageParser mp(p); CHECK(mp.getTextPartCount() == 1, "msg.memory.construct", "%s, the message has %zu texts", when, mp.getTextPartCount()); break; } } };
		if (ok) right(hit ? "after an allocation failed unnoticed" : "with enough memory");
		else { if (op == 0 && chance(500, "again.new")) m = make_shared<vmime::message>(); if (op == 5 && multi) { size_t k = m->getBody()->getPartCount(); CHECK(k == parts0 || k == parts0 + 1, "msg.memory.edit", "%zu parts after a failed edit, %zu before", k, parts0); if (k > parts0) parts0 = k; fresh = make_shared<vmime::bodyPart>(); fresh->getBody()->setContents(make_shared<vmime::stringContentHandler>("fresh"), vmime::mediaType("text/plain")); }
			u64 n3 = 0; starve(what, 0, false, ok, n3, fn); CHECK(ok, "msg.memory.again", "%s does not work again after an allocation failed", what); right("after an allocation failed and the operation was repeated"); }
		S after; Out o = call("generate after that", [&] { vu::outputStreamStringAdapter os(after); m->generate(os); }); CHECK(o.ok, "msg.memory.after", "the message cannot be generated after an allocation failed: %s", o.what.c_str());
	}
}
SCENARIO(C02, memory, 5) { memory_(); finish_checks(); }

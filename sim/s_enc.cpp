// C01: encoders, filters, charset conversion and stream copies depend only on the bytes, not on how they arrive.
#include "app.hpp"
#include "vmime/charsetConverter.hpp"
#include "vmime/utility/encoder/encoderFactory.hpp"
#include "vmime/utility/filteredStream.hpp"
#include "vmime/utility/streamUtils.hpp"
#include "vmime/utility/inputStreamByteBufferAdapter.hpp"
#include "vmime/utility/inputStreamPointerAdapter.hpp"
#include "vmime/utility/outputStreamByteArrayAdapter.hpp"
#include "vmime/utility/seekableInputStreamRegionAdapter.hpp"
using namespace sim;
namespace {
namespace vu = vmime::utility;
typedef std::string S; typedef unsigned char u8;
// ---- a source that also says "nothing yet" now and then, as the library's own filters do
struct Piecewise : Source { u32 zero = 0; size_t grant = 0; Piecewise(const S& d, SrcCfg c, u32 z) : Source(d, c), zero(z) {} size_t read(vmime::byte_t* const b, const size_t n) override { if (zero && n && chance(zero, "src.zero")) { count("src.zero_read"); return 0; } return Source::read(b, n); } };
shared_ptr<Piecewise> piecewise(const S& d, bool faults) { SrcCfg c = draw_src(faults, d.size()); u32 z = weighted({70, 15, 15}, "zero"); if (d.size() > 20000 && c.piece && c.piece < 500) z = 0; return make_shared<Piecewise>(d, c, z == 0 ? 0 : z == 1 ? 60 : 400); }
// a sink with a block size of its own
void shape(Sink& s, bool faults, size_t len) { s.bs = oneof<size_t>({32768, 1, 2, 3, 7, 64, 1000}, "sink.bs"); if (faults && chance(500, "sink.fail?")) s.fail_at = sized(u32(len), "sink.fail"); }
// ---- data
S utf8(u32 c) { S o; if (c < 0x80) o += char(c); else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 63)); } else if (c < 0x10000) { o += char(0xe0 | c >> 12); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); } else { o += char(0xf0 | c >> 18); o += char(0x80 | ((c >> 12) & 63)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); } return o; }
S utf16(u32 c, bool be) { S o; auto u = [&](u32 x) { if (be) { o += char(x >> 8); o += char(x); } else { o += char(x); o += char(x >> 8); } }; if (c < 0x10000) u(c); else { c -= 0x10000; u(0xd800 + (c >> 10)); u(0xdc00 + (c & 1023)); } return o; }
S utf32(u32 c, bool be) { S o; for (int i = 0; i < 4; ++i) o += char(c >> 8 * (be ? 3 - i : i)); return o; }
S any_bytes(size_t n) { Rng r = subrng("data"); S o; u32 mode = choose(7, "data.mode"); const char* sp = "\r\n =._.?\t-0aA\x80"; while (o.size() < n) switch (mode) { case 0: o += char(r.below(256)); break; case 1: o += sp[r.below(15)]; break; case 2: o += r.below(4) ? char(33 + r.below(94)) : sp[r.below(15)]; break; case 3: o += S(r.below(90), "ab. =\xe9"[r.below(6)]) + (r.below(2) ? "\r\n" : ""); break; case 4: o += "\r\n."; if (r.below(3) == 0) o += ".\r\n"; break; case 5: o += "\r\n"[r.below(2)]; break; default: o += r.below(30) ? S(1, char('a' + r.below(26))) : S("\r\n"); } o.resize(n); return o; }
S crlf_text(size_t n) { Rng r = subrng("data"); S o; u32 style = choose(3, "text.style"); while (o.size() < n) { size_t len = style == 0 ? r.below(12) : style == 1 ? 66 + r.below(14) : r.below(200); for (size_t i = 0; i < len; ++i) o += r.below(style == 1 ? 60 : 8) ? char('a' + r.below(26)) : " .=\t_\xc3\xa9?-"[r.below(9)]; o += "\r\n"; } if (r.below(2) && o.size() >= 2) o.resize(o.size() - 2); return o; }
size_t draw_len() { return chance(60, "big") ? 16300 + sized(70000, "len.big") : sized(3000, "len"); }
// ---- independent decoders
S my_qp(const S& s, bool rfc2047) { S o; auto hx = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '_' && rfc2047) o += ' '; else if (s[i] == '=' && s.compare(i, 3, "=\r\n") == 0) i += 2; else if (s[i] == '=') { CHECK(i + 2 < s.size() && hx(s[i + 1]) >= 0 && hx(s[i + 2]) >= 0, "enc.malformed", "quoted-printable output has a malformed escape at %zu", i); o += char(hx(s[i + 1]) * 16 + hx(s[i + 2])); i += 2; } else o += s[i]; } return o; }
S my_uu(const S& s, bool& ok) { S o; ok = false; size_t p = 0; bool begun = false; while (p < s.size()) { size_t e = s.find("\r\n", p); if (e == S::npos) return o; S l = s.substr(p, e - p); p = e + 2; if (!begun) { if (l.compare(0, 5, "begin") != 0) return o; begun = true; continue; } if (l == "end") { ok = p == s.size(); return o; } if (l.empty()) return o; size_t n = (u8(l[0]) - 32) & 63, need = (n + 2) / 3 * 4; if (l.size() != 1 + need) return o; S d; for (size_t i = 1; i < l.size(); i += 4) { u32 v = 0; for (int k = 0; k < 4; ++k) { if (u8(l[i + k]) < 32 || u8(l[i + k]) > 96) return o; v = v << 6 | ((u8(l[i + k]) - 32) & 63); } d += char(v >> 16); d += char(v >> 8); d += char(v); } o += d.substr(0, n); } return o; }
// ---- a codec with its properties
struct Codec { S name; size_t maxline = 0; bool text = false, rfc = false; S file; shared_ptr<vu::encoder::encoder> make() const { auto e = vu::encoder::encoderFactory::getInstance()->create(name); auto& p = e->getProperties(); if (maxline) p["maxlinelength"] = maxline; if (text) p["text"] = true; if (rfc) p["rfc2047"] = true; if (!file.empty()) { p["filename"] = file; p["mode"] = S("600"); } return e; } };
Codec draw_codec(bool small) { Codec c; c.name = oneof<S>({"base64", "quoted-printable", "uuencode", "7bit", "8bit", "binary"}, "codec"); if (chance(600, "maxline?")) c.maxline = small && chance(100, "tiny") ? 1 + choose(12, "maxline.tiny") : oneof<size_t>({78, 76, 74, 998, 46, 45, 20, 30}, "maxline"); if (c.name == "quoted-printable") { c.text = chance(400, "text"); if (!c.text) c.rfc = chance(250, "rfc2047"); } if (c.name == "uuencode" && chance(300, "file")) c.file = oneof<S>({"a.txt", "with space.bin"}, "file"); return c; }
S prog(const Progress& p) { return !p.bad.empty() ? p.bad : p.st != 2 ? "stop() was never called" : ""; }
u64 work_for(size_t n) { return 4000000 + 4000ull * n; }
}
// encode, check the encoded form independently, decode, with every kind of piecewise delivery and failure
SCENARIO(C01, transfer, 10) {
	app_init(); Codec k = draw_codec(true); size_t n = draw_len(); S d = k.text && chance(600, "text.data") ? crlf_text(n) : any_bytes(n); bool crlf = unix_nl(d).find('\r') == S::npos; { size_t q = 0; for (; crlf && (q = d.find('\n', q)) != S::npos; ++q) if (!q || d[q - 1] != '\r') crlf = false; } set_work_limit(work_for(n)); state(fnvs(k.name) + k.maxline + k.text * 7 + k.rfc * 9);
	auto whole = [&](bool enc, const S& in) { auto e = k.make(); vu::inputStreamStringAdapter is(in); S o; vu::outputStreamStringAdapter os(o); size_t r = enc ? e->encode(is, os) : e->decode(is, os); CHECK(r == o.size(), enc ? "enc.return" : "dec.return", "%s %s %zu bytes, said %zu", k.name.c_str(), enc ? "encoded to" : "decoded to", o.size(), r); size_t est = enc ? e->getEncodedSize(in.size()) : e->getDecodedSize(in.size()); CHECK(est >= o.size(), enc ? "enc.estimate" : "dec.estimate", "%s: %zu bytes became %zu, the estimate is %zu", k.name.c_str(), in.size(), o.size(), est); return o; };
	auto pieces = [&](bool enc, const S& in, const S& full) {
		bool faults = chance(350, "faults"); auto src = piecewise(in, faults); Sink sink; shape(sink, faults, full.size()); Progress p; bool listen = chance(700, "progress"); auto e = k.make(); size_t r = 0; const char* what = enc ? "encoding" : "decoding"; bool dstopped = !enc && (k.name == "uuencode" || k.name == "base64"); (void) dstopped;
		Out o = call(what, [&] { r = enc ? e->encode(*src, sink, listen ? &p : nullptr) : e->decode(*src, sink, listen ? &p : nullptr); });
		CHECK(p.bad.empty(), "enc.progress", "%s %s: %s", what, k.name.c_str(), p.bad.c_str());
		CHECK(full.compare(0, sink.d.size(), sink.d) == 0, "enc.chunks", "%s %s in pieces gives something else: %s", what, k.name.c_str(), diff_at(sink.d, full).c_str());
		if (src->failed || sink.failed) { nontrivial(); CHECK(!o, "enc.swallowed", "%s %s: a failing %s went unnoticed", what, k.name.c_str(), src->failed ? "source" : "sink"); return; }
		CHECK(o.ok, "enc.failed", "%s %s failed: %s", what, k.name.c_str(), o.what.c_str()); CHECK(sink.d == full, "enc.chunks", "%s %s in pieces stops early: %s", what, k.name.c_str(), diff_at(sink.d, full).c_str()); CHECK(r == full.size(), "enc.return", "%s %s wrote %zu bytes, said %zu", what, k.name.c_str(), full.size(), r); if (listen) CHECK(prog(p).empty(), "enc.progress", "%s %s: %s", what, k.name.c_str(), prog(p).c_str()); if (!in.empty()) nontrivial();
	};
	S e = whole(true, d); tr("encoded %zu to %zu", d.size(), e.size());
	// the encoded form, judged independently
	if (k.name == "base64") { size_t pad = e.find('='); CHECK(pad == S::npos || e.find_first_not_of("=\r\n", pad) == S::npos, "enc.malformed", "padding inside"); for (char c : e) CHECK(isalnum(u8(c)) || strchr("+/=\r\n", c), "enc.malformed", "byte %u in base64", u8(c)); S t; for (char c : e) if (c != '\r' && c != '\n') t += c; CHECK(t.size() == (d.size() + 2) / 3 * 4, "enc.malformed", "%zu base64 digits for %zu bytes", t.size(), d.size()); CHECK(unb64(e) == d, "enc.wrong", "base64: %s", diff_at(unb64(e), d).c_str()); }
	if (k.name == "quoted-printable") { CHECK(my_qp(e, k.rfc) == d, "enc.wrong", "quoted-printable: %s", diff_at(my_qp(e, k.rfc), d).c_str()); for (size_t i = 0; i < e.size(); ++i) { u8 c = u8(e[i]); CHECK(c == '\r' || c == '\n' || c == '\t' || (c >= 32 && c < 127), "enc.malformed", "byte %u in quoted-printable", c); if ((c == '\r' || c == '\n') && i && !k.rfc) CHECK(e[i - 1] != ' ' && e[i - 1] != '\t', "enc.malformed", "white space at the end of a quoted-printable line"); if (!k.text || crlf) { if (c == '\n') CHECK(i && e[i - 1] == '\r', "enc.malformed", "a lone LF at %zu of quoted-printable made of CRLF lines", i); if (c == '\r') CHECK(i + 1 < e.size() && e[i + 1] == '\n', "enc.malformed", "a lone CR at %zu of quoted-printable made of CRLF lines", i); } if (c == '.' && !k.rfc) CHECK(i && e[i - 1] != '\n', "enc.malformed", "a dot begins a quoted-printable line"); } if (k.rfc) CHECK(e.find_first_of(" \r\n?\t") == S::npos, "enc.malformed", "encoded word with a separator"); }
	if (k.name == "uuencode") { bool ok; S t = my_uu(e, ok); CHECK(ok, "enc.malformed", "uuencode output is not well formed"); CHECK(t == d, "enc.wrong", "uuencode: %s", diff_at(t, d).c_str()); }
	if (k.name == "7bit" || k.name == "8bit" || k.name == "binary") CHECK(e == d, "enc.wrong", "%s changed the data", k.name.c_str());
	else if (k.maxline && !k.rfc && (crlf || !k.text)) { size_t p = 0; while (p < e.size()) { size_t q = e.find("\r\n", p); if (q == S::npos) q = e.size(); CHECK(q - p <= (k.name == "base64" ? std::max<size_t>(4, std::min<size_t>(76, k.maxline)) : 76) || (k.name == "uuencode" && p == 0), "enc.line", "%s: a line of %zu characters with maxlinelength %zu", k.name.c_str(), q - p, k.maxline); p = q + 2; } }
	S back = whole(false, e); CHECK(back == d, "enc.roundtrip", "%s does not decode to what was encoded: %s", k.name.c_str(), diff_at(back, d).c_str());
	if (!k.file.empty()) { auto x0 = k.make(); vu::inputStreamStringAdapter is(e); Sink s; x0->decode(is, s); shared_ptr<const vu::encoder::encoder> x = x0; CHECK(x->getResults().getProperty<S>("filename", "") == k.file && x->getResults().getProperty<S>("mode", "") == "600", "enc.results", "uuencode: file name '%s', mode '%s'", x->getResults().getProperty<S>("filename", "").c_str(), x->getResults().getProperty<S>("mode", "").c_str()); }
	u32 rounds = 1 + choose(3, "rounds"); for (u32 i = 0; i < rounds; ++i) { bool enc = chance(500, "direction"); pieces(enc, enc ? d : e, enc ? e : d); }
	finish_checks();
}
// decoding damaged data: always the same result, and an end
SCENARIO(C01, damaged, 6) {
	app_init(); Codec k = draw_codec(true); size_t n = draw_len(); if (n > 20000) n = 20000; Rng r = subrng("damage"); S e; set_work_limit(work_for(3 * n));
	if (chance(300, "garbage")) e = any_bytes(n); else { S d = any_bytes(n); auto x = k.make(); vu::inputStreamStringAdapter is(d); vu::outputStreamStringAdapter os(e); x->encode(is, os); u32 m = 1 + r.below(6); for (u32 i = 0; i < m && !e.empty(); ++i) { size_t at = r.below(u32(e.size())); switch (r.below(7)) { case 0: e.erase(at, 1 + r.below(5)); break; case 1: e[at] = char(r.below(256)); break; case 2: e.insert(at, 1, "=\r\n ._be"[r.below(8)]); break; case 3: e.resize(at); break; case 4: e.insert(at, "=\r"); break; case 5: e.insert(at, "begin 644 x\r\n"); break; default: e.insert(at, S(r.below(70), ' ')); } } }
	S full; { auto x = k.make(); vu::inputStreamStringAdapter is(e); vu::outputStreamStringAdapter os(full); x->decode(is, os); }
	for (u32 i = 0; i < 2; ++i) { bool faults = chance(200, "faults"); auto src = piecewise(e, faults); Sink sink; shape(sink, faults, full.size()); auto x = k.make(); Progress p; Out o = call("decode", [&] { x->decode(*src, sink, &p); }); CHECK(p.bad.empty(), "dec.progress", "%s: %s", k.name.c_str(), p.bad.c_str()); CHECK(full.compare(0, sink.d.size(), sink.d) == 0, "dec.chunks", "decoding damaged %s in pieces gives something else: %s", k.name.c_str(), diff_at(sink.d, full).c_str()); if (src->failed || sink.failed) CHECK(!o, "dec.swallowed", "a failure went unnoticed"); else { CHECK(o.ok, "dec.failed", "decoding damaged %s failed: %s", k.name.c_str(), o.what.c_str()); CHECK(sink.d == full, "dec.chunks", "decoding damaged %s in pieces stops early: %s", k.name.c_str(), diff_at(sink.d, full).c_str()); } }
	nontrivial(); state(fnvs(full)); finish_checks();
}
// ---- filters against models
namespace {
S m_dot_in(const S& s) { S o; for (size_t i = 0; i < s.size(); ++i) { o += s[i]; if (s[i] == '\n' && s.compare(i + 1, 2, "..") == 0) { o += '.'; i += 2; } } return o; }
S m_dot_out(const S& s, bool sol) { S o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '.') { bool at = i ? s[i - 1] == '\n' : sol; if (!at && i == 0 && i + 1 < s.size() && (s[i + 1] == '\r' || s[i + 1] == '\n')) at = true; if (at) o += '.'; } o += s[i]; } return o; }
S m_lf(const S& s) { S o; for (size_t i = 0; i < s.size(); ++i) if (!(s[i] == '\r' && i + 1 < s.size() && s[i + 1] == '\n')) o += s[i]; return o; }
S m_crlf(const S& s) { S o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\r') { o += "\r\n"; if (i + 1 < s.size() && s[i + 1] == '\n') ++i; } else if (s[i] == '\n') o += "\r\n"; else o += s[i]; } return o; }
S m_stop(const S& s, const S& q, bool* found = nullptr) { size_t p = s.find(q); if (found) *found = p != S::npos; return s.substr(0, p); }
// bytes that make filters work hard
S filter_bytes(size_t n, const S& seq) { Rng r = subrng("data"); S al = seq + "\r\n.."; S o; u32 style = choose(4, "fstyle"); while (o.size() < n) switch (style) { case 0: o += al[r.below(u32(al.size()))]; break; case 1: o += r.below(3) ? S(1, al[r.below(u32(al.size()))]) : S(1 + r.below(5), 'x'); break; case 2: o += seq.substr(0, 1 + r.below(u32(seq.size()))); if (r.below(3) == 0) o += 'y'; break; default: o += r.below(12) ? S(1, char('a' + r.below(3))) : S("\r\n.").substr(0, 1 + r.below(3)); } o.resize(n); return o; }
size_t pour(vu::inputStream& in, S& out, size_t least) { std::vector<vmime::byte_t> b(5000); size_t n = 0; while (!in.eof()) { size_t want = least + (chance(300, "rd.big") ? choose(4000, "rd.n") : choose(40, "rd.small")); b.assign(want + 8, 0xEE); size_t got = in.read(b.data(), want); CHECK(got <= want, "filter.overrun", "read(%zu) returned %zu", want, got); for (size_t i = want; i < want + 8; ++i) CHECK(b[i] == 0xEE, "filter.overrun", "read(%zu) wrote past the buffer", want); out.append(reinterpret_cast<char*>(b.data()), got); if (++n > 200000) violate("filter.endless", "reading does not end"); } return n; }
void feed(vu::outputStream& os, const S& d) { size_t p = 0; u32 style = choose(4, "wr.style"); while (p < d.size()) { size_t n = style == 0 ? d.size() : style == 1 ? 1 : style == 2 ? choose(4, "wr.n") : choose(200, "wr.n"); n = std::min(n, d.size() - p); S piece = d.substr(p, n); os.write(piece.data(), piece.size()); p += n; if (n == 0 && chance(200, "wr.skip")) { os.write(d.data() + p, 1); ++p; } } }
template <int N> shared_ptr<vu::inputStream> stop_filter(vu::inputStream& is, const S& seq) { return make_shared<vu::stopSequenceFilteredInputStream<N>>(is, seq.data()); }
shared_ptr<vu::inputStream> stop_filter(vu::inputStream& is, const S& seq) { switch (seq.size()) { case 1: return stop_filter<1>(is, seq); case 2: return stop_filter<2>(is, seq); case 3: return stop_filter<3>(is, seq); case 4: return stop_filter<4>(is, seq); default: return stop_filter<5>(is, seq); } }
}
SCENARIO(C01, filters, 10) {
	app_init(); size_t n = sized(600, "len"); if (chance(30, "big")) n = 20000 + choose(40000, "len.big"); set_work_limit(20000000 + 4000ull * n); u32 kind = choose(6, "filter"); bool faults = chance(300, "faults");
	if (kind < 2) {
		// input filters, alone or stacked
		S seq = oneof<S>({"\r\n.\r\n", "\n.\n", "x", "ab", "aab", "abab", "aaa", "abcab"}, "seq"); S d = filter_bytes(n, seq); bool stop = kind == 0 || chance(300, "stop"), dot = kind == 1; S want = d; if (stop) want = m_stop(want, seq); if (dot) want = m_dot_in(want); auto src = piecewise(d, faults); shared_ptr<vu::inputStream> s1, s2; vu::inputStream* in = src.get(); if (stop) in = (s1 = stop_filter(*in, seq)).get(); if (dot) in = (s2 = make_shared<vu::dotFilteredInputStream>(*in)).get();
		S got; size_t least = stop ? seq.size() + 1 : 1; u32 how = choose(3, "how"); Sink sink; Out o = call("filter", [&] { if (how == 0) pour(*in, got, least); else { shape(sink, faults, want.size()); sink.bs = std::max<size_t>(sink.bs, least); Progress p; if (how == 1) vu::bufferedStreamCopy(*in, sink); else { vu::bufferedStreamCopy(*in, sink, want.size(), &p); CHECK(prog(p).empty(), "filter.progress", "%s", prog(p).c_str()); CHECK(p.last == (want.empty() ? 0 : want.size()), "filter.progress", "reported %zu of %zu", p.last, want.size()); } } }); if (how) got = sink.d;
		CHECK(want.compare(0, got.size(), got) == 0, "filter.wrong", "%s%s: %s", stop ? "stop sequence " : "", dot ? "dot " : "", diff_at(got, want).c_str()); if (src->failed || sink.failed) CHECK(!o, "filter.swallowed", "a failure went unnoticed"); else { CHECK(o.ok, "filter.failed", "%s", o.what.c_str()); CHECK(got == want, "filter.wrong", "%s%s: %s", stop ? "stop sequence " : "", dot ? "dot " : "", diff_at(got, want).c_str()); if (chance(300, "again")) { S g2; in->reset(); if (src->c.fail_at == ~0ull) { pour(*in, g2, least); CHECK(g2 == want, "filter.reset", "after reset(): %s", diff_at(g2, want).c_str()); } } }
		if (n) nontrivial(); state(fnvs(seq) + dot); finish_checks(); return;
	}
	// output filters
	S d = filter_bytes(n, "\r\n.\r\n"); bool sol = chance(400, "start.of.line"); S want = kind == 2 ? m_dot_out(d, sol) : kind == 3 ? m_lf(d) : kind == 4 ? m_crlf(d) : m_dot_out(m_crlf(d), sol); Sink sink; shape(sink, faults, want.size()); shared_ptr<vu::outputStream> f1, f2; vu::outputStream* os = &sink; if (kind == 2 || kind == 5) os = (f1 = make_shared<vu::dotFilteredOutputStream>(*os, sol)).get(); if (kind == 3) os = (f1 = make_shared<vu::CRLFToLFFilteredOutputStream>(*os)).get(); if (kind == 4 || kind == 5) os = (f2 = make_shared<vu::LFToCRLFFilteredOutputStream>(*os)).get();
	bool copied = chance(300, "copy"); auto src = piecewise(d, faults); Out o = call("filter", [&] { if (copied) vu::bufferedStreamCopy(*src, *os); else feed(*os, d); os->flush(); });
	CHECK(want.compare(0, sink.d.size(), sink.d) == 0, "filter.wrong", "output filter %u: %s", kind, diff_at(sink.d, want).c_str()); if ((copied && src->failed) || sink.failed) CHECK(!o, "filter.swallowed", "a failure went unnoticed"); else { CHECK(o.ok, "filter.failed", "%s", o.what.c_str()); CHECK(sink.d == want, "filter.wrong", "output filter %u: %s", kind, diff_at(sink.d, want).c_str()); CHECK(sink.flushes > 0, "filter.flush", "flush() did not reach the stream behind output filter %u", kind); }
	if (n) nontrivial(); state(kind); finish_checks();
}
// ---- charsets
namespace {
struct Cs { const char* name; int own; };   // own: 1 utf-8, 2 utf-16be, 3 utf-16le, 4 utf-32be, 5 latin1, 6 ascii: what this file can encode and judge itself
const Cs CS[] = {{"utf-8", 1}, {"utf-16be", 2}, {"utf-16le", 3}, {"utf-32be", 4}, {"iso-8859-1", 5}, {"us-ascii", 6}, {"iso-8859-15", 0}, {"windows-1252", 0}, {"koi8-r", 0}, {"utf-7", 0}, {"iso-2022-jp", 0}, {"shift_jis", 0}, {"euc-jp", 0}, {"gb18030", 0}, {"big5", 0}, {"hz-gb-2312", 0}, {"utf-16", 0}, {"utf-32", 0}};
S own_encode(const std::vector<u32>& cp, int own) { S o; for (u32 c : cp) switch (own) { case 1: o += utf8(c); break; case 2: o += utf16(c, true); break; case 3: o += utf16(c, false); break; case 4: o += utf32(c, true); break; case 5: o += c < 256 ? S(1, char(c)) : S("?"); break; default: o += c < 128 ? S(1, char(c)) : S("?"); } return o; }
u32 draw_cp(Rng& r, u32 rep) { switch (rep) { case 0: return 32 + r.below(95); case 1: return r.below(4) ? 32 + r.below(95) : 0xa1 + r.below(0x5e); case 2: return r.below(3) ? 0x3041 + r.below(80) : r.below(2) ? 0x4e00 + r.below(3000) : 32 + r.below(95); case 3: return r.below(3) ? 0x410 + r.below(64) : 32 + r.below(95); default: { u32 c = r.below(0x110000); return (c >= 0xd800 && c < 0xe000) ? 0x1F600 : c; } } }
// where the first malformed sequence of a UTF-8 text begins
size_t utf8_bad(const S& s) { size_t i = 0; while (i < s.size()) { u8 c = u8(s[i]); int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1; if (n < 0) return i; for (int k = 1; k <= n; ++k) { if (i + k >= s.size()) return i; u8 x = u8(s[i + k]); u8 lo = 0x80, hi = 0xbf; if (k == 1) { if (c == 0xe0) lo = 0xa0; if (c == 0xed) hi = 0x9f; if (c == 0xf0) lo = 0x90; if (c == 0xf4) hi = 0x8f; } if (x < lo || x > hi) return i; } i += n + 1; } return S::npos; }
}
SCENARIO(C01, charsets, 10) {
	app_init(); Rng r = subrng("text"); const Cs& a = CS[choose(18, "from")]; const Cs& b = CS[choose(18, "to")]; u32 rep = choose(5, "repertoire"); size_t n = chance(50, "big") ? 2000 + choose(20000, "n.big") : sized(200, "n"); std::vector<u32> cp; for (size_t i = 0; i < n; ++i) cp.push_back(draw_cp(r, a.own >= 5 ? (a.own == 5 ? 1 : 0) : rep)); set_work_limit(30000000 + 20000ull * n);
	vmime::charsetConverterOptions lax, strict; strict.silentlyReplaceInvalidSequences = false; S in;
	if (a.own) in = own_encode(cp, a.own); else { auto c = vmime::charsetConverter::create(vmime::charset("utf-32be"), vmime::charset(a.name), lax); c->convert(own_encode(cp, 4), in); }
	bool damaged = chance(300, "damaged"); if (damaged) { u32 m = 1 + r.below(3); for (u32 i = 0; i < m && !in.empty(); ++i) { size_t at = r.below(u32(in.size())); switch (r.below(4)) { case 0: in.erase(at, 1); break; case 1: in[at] = char(r.below(256)); break; case 2: in.insert(at, 1, char(0x80 + r.below(128))); break; default: in.resize(at); } } }
	bool st = chance(400, "strict"); const auto& opt = st ? strict : lax; vmime::charset ca(a.name), cb(b.name); S pair = S(a.name) + " to " + b.name; if (!in.empty()) nontrivial(); state(fnvs(pair) + st);
	// as a whole
	S full; vmime::charsetConverter::status s0; auto conv = vmime::charsetConverter::create(ca, cb, opt); Out o0 = call("convert", [&] { conv->convert(in, full, &s0); });
	// judged independently where this file knows the charsets
	if (!damaged && a.own && b.own) { bool fits = true; for (u32 c : cp) if ((b.own == 5 && c > 255) || (b.own == 6 && c > 127)) fits = false; if (fits) { CHECK(o0.ok, "cs.failed", "%s: %s", pair.c_str(), o0.what.c_str()); S want = own_encode(cp, b.own); bool bom = !cp.empty() && cp[0] == 0xfeff; if (!bom) CHECK(full == want, "cs.wrong", "%s: %s", pair.c_str(), diff_at(full, want).c_str()); } else if (st) CHECK(!o0, "cs.unmappable", "%s: a character the destination lacks went unnoticed in strict mode", pair.c_str()); }
	if (o0) CHECK(s0.outputBytesWritten == full.size() && s0.inputBytesRead == in.size(), "cs.status", "%s: %zu of %zu bytes read, %zu of %zu written", pair.c_str(), s0.inputBytesRead, in.size(), s0.outputBytesWritten, full.size());
	if (a.own == 1) { size_t bad = utf8_bad(in); if (st && bad != S::npos) CHECK(!o0, "cs.illegal", "%s: an illegal sequence went unnoticed in strict mode", pair.c_str()); size_t fib = 0; bool valid = ca.isValidText(in, &fib); CHECK(valid == (bad == S::npos), "cs.valid", "isValidText() says %d", valid); CHECK(fib == (bad == S::npos ? in.size() : bad), "cs.valid.where", "first invalid byte at %zu, not at %zu", bad, fib); }
	// in pieces, through both interfaces
	for (u32 i = 0; i < 3; ++i) {
		bool faults = chance(250, "faults"); Sink sink; shape(sink, faults, full.size()); auto src = piecewise(in, faults); bool filter = chance(600, "filter"); auto c = vmime::charsetConverter::create(ca, cb, opt); bool copied = true;
		Out o = call("convert", [&] { if (!filter) c->convert(*src, sink); else { auto f = c->getFilteredOutputStream(sink, opt); copied = chance(500, "copy"); if (copied) vu::bufferedStreamCopy(*src, *f); else feed(*f, in); f->flush(); } });
		const char* how = filter ? "the stream" : "convert()"; if (o0) CHECK(full.compare(0, sink.d.size(), sink.d) == 0, "cs.chunks", "%s, %s in pieces: %s", pair.c_str(), how, diff_at(sink.d, full).c_str());
		if ((copied && src->failed) || sink.failed) { CHECK(!o, "cs.swallowed", "%s: a failure went unnoticed", pair.c_str()); continue; }
		CHECK(o.ok == o0.ok, "cs.verdict", "%s: %s in pieces %s, convert() of the whole %s", pair.c_str(), how, o.ok ? "succeeds" : ("fails: " + o.what).c_str(), o0.ok ? "succeeds" : ("fails: " + o0.what).c_str()); if (o) CHECK(sink.d == full, "cs.chunks", "%s, %s in pieces: %s", pair.c_str(), how, diff_at(sink.d, full).c_str());
		if (!o && !faults && a.own) { bool ill0 = o0.type.find("illegal_byte") != S::npos, ill = o.type.find("illegal_byte") != S::npos; CHECK(ill0 == ill, "cs.error", "%s: %s reports %s, convert() %s", pair.c_str(), how, o.type.c_str(), o0.type.c_str()); }
	}
	finish_checks();
}
// ---- copies, ranges and adapters
namespace {
// an istream whose buffer delivers in pieces, and may fail
struct Buf : std::streambuf { S d; size_t p = 0, fail_at = ~size_t(0), piece; bool failed = false; char b[64]; Buf(const S& s, size_t pc) : d(s), piece(pc) {} int_type underflow() override { if (p >= fail_at) { failed = true; throw std::runtime_error("simulated stream buffer failure"); } if (p >= d.size()) return traits_type::eof(); size_t n = std::min({piece, sizeof b, d.size() - p}); if (p + n > fail_at) n = fail_at - p; if (n == 0) { failed = true; throw std::runtime_error("simulated stream buffer failure"); } memcpy(b, &d[p], n); p += n; setg(b, b, b + n); return u8(b[0]); } pos_type seekoff(off_type o, std::ios_base::seekdir w, std::ios_base::openmode) override { off_type cur = off_type(p) - (egptr() - gptr()); if (w == std::ios_base::cur) { if (o == 0) return cur; o += cur; } if (w == std::ios_base::end) o += off_type(d.size()); return seekpos(o, std::ios_base::in); } pos_type seekpos(pos_type q, std::ios_base::openmode) override { if (off_type(q) < 0 || off_type(q) > off_type(d.size())) return pos_type(off_type(-1)); p = size_t(off_type(q)); setg(b, b, b); return q; } };
// a stream that skips only a part, or nothing, as the library's own filters and sockets do
struct HalfSkip : vu::inputStream { vu::inputStream& in; u32 part; HalfSkip(vu::inputStream& i, u32 p) : in(i), part(p) {} bool eof() const override { return in.eof(); } void reset() override { in.reset(); } size_t read(vmime::byte_t* const b, const size_t n) override { return in.read(b, n); } size_t skip(const size_t n) override { count("src.partial_skip"); return part && n ? in.skip(choose(u32(n), "skip.part")) : 0; } };
struct OBuf : std::streambuf { S d; size_t cap = ~size_t(0); bool failed = false; std::streamsize xsputn(const char* s, std::streamsize n) override { if (d.size() + size_t(n) > cap) { failed = true; size_t k = cap - d.size(); d.append(s, k); return std::streamsize(k); } d.append(s, size_t(n)); return n; } int_type overflow(int_type c) override { if (d.size() >= cap) { failed = true; return traits_type::eof(); } d += char(c); return c; } };
}
SCENARIO(C01, adapters, 8) {
	app_init(); S d = any_bytes(chance(50, "big") ? 30000 + choose(40000, "len.big") : sized(500, "len")); set_work_limit(20000000 + 4000ull * d.size()); u32 kind = choose(8, "adapter"); bool faults = chance(250, "faults"); state(kind); if (!d.empty()) nontrivial();
	Buf buf(d, 1 + choose(64, "buf.piece")); std::istream is(&buf); shared_ptr<vu::seekableInputStream> in; size_t from = 0, to = d.size(); bool failing = false; auto src = piecewise(d, false); src->zero = 0; S held = d;
	switch (kind) {
		case 0: in = make_shared<vu::inputStreamStringAdapter>(held); break;
		case 1: from = choose(u32(d.size() + 1), "from"), to = from + choose(u32(d.size() - from + 1), "to"); in = make_shared<vu::inputStreamStringAdapter>(held, from, to); break;
		case 2: in = make_shared<vu::inputStreamByteBufferAdapter>(reinterpret_cast<const vmime::byte_t*>(held.data()), held.size()); break;
		case 3: if (faults && chance(600, "buf.fail")) { buf.fail_at = sized(u32(d.size()), "fail.at"); failing = buf.fail_at <= d.size(); } in = make_shared<vu::inputStreamAdapter>(is); break;
		case 4: if (chance(200, "unopened")) { is.setstate(std::ios::failbit); failing = true; count("fault.istream.failed"); } in = make_shared<vu::inputStreamPointerAdapter>(&is, false); break;
		case 5: case 6: { from = choose(u32(d.size() + 1), "from"); size_t len = choose(u32(d.size() - from + 1), "region"); to = from + len; size_t more = kind == 6 ? 1 + choose(50, "beyond") : 0; if (kind == 6) to = d.size(); in = make_shared<vu::seekableInputStreamRegionAdapter>(src, from, to - from + more); break; }
		default: in = make_shared<vu::parserInputStreamAdapter>(src);
	}
	S want = d.substr(from, to - from); bool seekok = !failing && kind != 6;
	// a few moves first
	size_t pos = 0; if (seekok) { u32 moves = choose(6, "moves"); for (u32 i = 0; i < moves; ++i) { u32 m = choose(4, "move"); size_t k = choose(u32(want.size() + 1), "k"); if (m == 0) { in->seek(k); pos = k; } else if (m == 1) { in->reset(); pos = 0; } else if (m == 2) { if (kind == 3 || kind == 4) { if (pos + k >= want.size()) continue; } size_t s = in->skip(k); size_t e = std::min(k, want.size() - pos); CHECK(s <= e, "adapter.skip", "kind %u: skip(%zu) at %zu of %zu said %zu", kind, k, pos, want.size(), s); pos += s; } else { std::vector<vmime::byte_t> b(k + 8, 0xEE); size_t g = in->read(b.data(), k); CHECK(g <= k && want.compare(pos, g, S(reinterpret_cast<char*>(b.data()), g)) == 0, "adapter.read", "kind %u: read(%zu) at %zu gave %zu bytes, or other ones", kind, k, pos, g); for (size_t j = k; j < k + 8; ++j) CHECK(b[j] == 0xEE, "adapter.overrun", "kind %u: read(%zu) wrote past the buffer", kind, k); pos += g; } if (!in->eof()) CHECK(in->getPosition() == pos, "adapter.position", "kind %u: position %zu instead of %zu", kind, in->getPosition(), pos); } }
	if (pos == want.size() && pos) { in->seek(0); pos = 0; }
	// then copy the rest
	OBuf ob; if (faults && chance(400, "obuf.full")) ob.cap = sized(u32(d.size()), "cap"); std::ostream os_(&ob); vu::outputStreamAdapter osa(os_); S str; vu::outputStreamStringAdapter oss(str); vmime::byteArray ba; vu::outputStreamByteArrayAdapter oba(ba); Sink sink; shape(sink, faults, d.size()); u32 dest = choose(4, "dest"); vu::outputStream& os = dest == 0 ? static_cast<vu::outputStream&>(sink) : dest == 1 ? static_cast<vu::outputStream&>(osa) : dest == 2 ? static_cast<vu::outputStream&>(oss) : static_cast<vu::outputStream&>(oba);
	u32 how = choose(3, "how"); size_t r = 0; S rest = want.substr(pos); size_t start = 0, len = 0; Progress p; Out o = call("copy", [&] { if (how == 0) r = vu::bufferedStreamCopy(*in, os); else if (how == 1) r = vu::bufferedStreamCopy(*in, os, rest.size(), &p); else { start = choose(u32(rest.size() + 1), "start"); len = choose(u32(rest.size() - start + 1), "length"); HalfSkip hs(*in, choose(2, "halfskip")); bool half = chance(400, "halfskip?"); r = vu::bufferedStreamCopyRange(half ? static_cast<vu::inputStream&>(hs) : static_cast<vu::inputStream&>(*in), os, start, len); } os.flush(); }); if (how == 2) rest = rest.substr(start, len);
	S got = dest == 0 ? sink.d : dest == 1 ? ob.d : dest == 2 ? str : S(ba.begin(), ba.end()); CHECK(rest.compare(0, got.size(), got) == 0, "adapter.copy", "kind %u to %u, way %u: %s", kind, dest, how, diff_at(got, rest).c_str());
	bool broke = buf.failed || (dest == 0 && sink.failed) || (dest == 1 && ob.failed) || (kind == 4 && failing && !(how == 2 && rest.empty())); if (broke) CHECK(!o, "adapter.swallowed", "kind %u to %u, way %u: a failure went unnoticed", kind, dest, how); else if (!failing) { CHECK(o.ok, "adapter.failed", "kind %u to %u: %s", kind, dest, o.what.c_str()); CHECK(got == rest, "adapter.copy", "kind %u to %u, way %u: %s", kind, dest, how, diff_at(got, rest).c_str()); CHECK(r == got.size(), "adapter.return", "copied %zu, said %zu", got.size(), r); if (how == 1) CHECK(prog(p).empty(), "adapter.progress", "%s", prog(p).c_str()); }
	finish_checks();
}

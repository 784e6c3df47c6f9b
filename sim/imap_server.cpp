#include "imap.hpp"
namespace sim {
ImapWorld* g_imap;
// ------------------------------------------------------------------ mailbox names (RFC 3501, 5.1.3)
std::string mutf7_enc(const std::string& u) {
	std::string o; std::vector<unsigned> u16; auto flush = [&] {
		if (u16.empty()) return; std::string b; for (unsigned x : u16) { b += char(x >> 8); b += char(x); } std::string e = b64(b); while (!e.empty() && e.back() == '=') e.pop_back(); for (char& c : e) if (c == '/') c = ','; o += "&" + e + "-"; u16.clear(); };
	for (size_t i = 0; i < u.size();) { unsigned c = (unsigned char) u[i]; int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; unsigned v = n == 1 ? c : c & (0xff >> (n + 1)); for (int k = 1; k < n && i + k < u.size(); ++k) v = v << 6 | (u[i + k] & 0x3f); i += n;
		if (v >= 0x20 && v <= 0x7e) { flush(); if (v == '&') o += "&-"; else o += char(v); } else if (v >= 0xe020 && v <= 0xe07e) u16.push_back(v - 0xe000); else if (v >= 0x10000) { v -= 0x10000; u16.push_back(0xd800 + (v >> 10)); u16.push_back(0xdc00 + (v & 0x3ff)); } else u16.push_back(v); }
	flush(); return o;
}
std::string mutf7_dec(const std::string& s) {
	std::string o; auto put = [&](unsigned v) { if (v < 0x80) o += char(v); else if (v < 0x800) { o += char(0xc0 | v >> 6); o += char(0x80 | (v & 63)); } else if (v < 0x10000) { o += char(0xe0 | v >> 12); o += char(0x80 | (v >> 6 & 63)); o += char(0x80 | (v & 63)); } else { o += char(0xf0 | v >> 18); o += char(0x80 | (v >> 12 & 63)); o += char(0x80 | (v >> 6 & 63)); o += char(0x80 | (v & 63)); } };
	for (size_t i = 0; i < s.size(); ++i) {
		unsigned char c = s[i]; if (c < 0x20 || c > 0x7e) violate("imap.name", "mailbox name with byte %02x: \"%s\"", c, esc(s).c_str());
		if (c != '&') { o += char(c); continue; }
		size_t e = s.find('-', i); if (e == std::string::npos) violate("imap.name", "unterminated & in mailbox name \"%s\"", esc(s).c_str());
		std::string b = s.substr(i + 1, e - i - 1); i = e; if (b.empty()) { o += '&'; continue; }
		for (char& x : b) { if (x == ',') x = '/'; else if (!isalnum((unsigned char) x) && x != '+') violate("imap.name", "bad modified UTF-7 in \"%s\"", esc(s).c_str()); }
		std::string d = unb64(b); if (d.size() % 2) d.resize(d.size() - 1); unsigned hi = 0; if (d.empty()) violate("imap.name", "empty shift in \"%s\"", esc(s).c_str());
		for (size_t k = 0; k + 1 < d.size(); k += 2) { unsigned v = (unsigned char) d[k] << 8 | (unsigned char) d[k + 1]; if (v >= 0xd800 && v < 0xdc00) { hi = v; continue; } if (v >= 0xdc00 && v < 0xe000) { if (!hi) violate("imap.name", "lone surrogate in \"%s\"", esc(s).c_str()); v = 0x10000 + ((hi - 0xd800) << 10) + (v - 0xdc00); hi = 0; } else if (hi) violate("imap.name", "lone surrogate in \"%s\"", esc(s).c_str()); put(g_imap && v == (unsigned char) g_imap->cfg.delim ? 0xe000 + v : v); }
		if (hi) violate("imap.name", "lone surrogate in \"%s\"", esc(s).c_str());
	}
	return o;
}
// ------------------------------------------------------------------ messages
static std::string hname(const ImapAddr& a) { std::string ad = "<" + a.local + "@" + a.domain + ">"; if (a.raw.empty()) return a.local + "@" + a.domain; bool q = a.raw.find_first_of("\",.()\\") != std::string::npos && a.raw.compare(0, 2, "=?") != 0; std::string n = a.raw; if (q) { n = "\""; for (char c : a.raw) { if (c == '"' || c == '\\') n += '\\'; n += c; } n += "\""; } return n + " " + ad; }
static std::vector<ImapAddr> gen_addrs(Rng& r, u32 n) {
	static const char* names[][2] = {{"", ""}, {"John Doe", "John Doe"}, {"=?utf-8?Q?J=C3=A9r=C3=B4me?=", "J\xc3\xa9r\xc3\xb4me"}, {"O'Brien, \"Bob\"", "O'Brien, \"Bob\""}, {"=?iso-8859-1?B?6enp?=", "\xc3\xa9\xc3\xa9\xc3\xa9"}, {"back\\slash", "back\\slash"}};
	std::vector<ImapAddr> v; for (u32 i = 0; i < n; ++i) { ImapAddr a; u32 k = r.below(6); a.raw = names[k][0]; a.name = names[k][1]; a.local = rnd_token(r, 1 + r.below(8)); a.domain = rnd_token(r, 1 + r.below(6)) + ".example"; v.push_back(a); } return v;
}
static std::string join_addrs(const std::vector<ImapAddr>& v) { std::string o; for (auto& a : v) o += (o.empty() ? "" : ",\r\n ") + hname(a); return o; }
std::shared_ptr<Mime> gen_mime(Rng& r, size_t len, const std::string& tok, int depth, bool root, std::vector<std::string> pre) {
	auto m = std::make_shared<Mime>(); std::string h;
	if (root) {
		auto& e = m->env; static const char* subj[][2] = {{"plain subject", "plain subject"}, {"=?utf-8?B?w6nDqCDigqw=?= tail", "\xc3\xa9\xc3\xa8 \xe2\x82\xac tail"}, {"with \"quotes\" and \\", "with \"quotes\" and \\"}, {"(parens) {12} * NIL", "(parens) {12} * NIL"}, {"]] [brackets", "]] [brackets"}};
		e.from = gen_addrs(r, 1); e.to = gen_addrs(r, r.below(4)); e.cc = gen_addrs(r, r.below(5) ? 0 : 1 + r.below(3)); e.bcc = gen_addrs(r, r.below(8) ? 0 : 1); e.reply_to = e.from; e.sender = e.from; if (r.below(4) == 0) e.reply_to = gen_addrs(r, 1); if (r.below(5) == 0) e.sender = gen_addrs(r, 1);
		u32 k = r.below(5); e.subject_raw = std::string(subj[k][0]) + " " + tok; e.subject = std::string(subj[k][1]) + " " + tok; e.date = fmt("Mon, %u Feb 2021 %02u:%02u:%02u +0%u00", 1 + r.below(28), r.below(24), r.below(60), r.below(60), r.below(10)); e.msgid = "<" + tok + "@id.example>"; if (r.below(3) == 0) e.inreplyto = "<" + rnd_token(r, 6) + "@ref.example>"; if (!e.inreplyto.empty() && r.below(3) == 0) e.inreplyto += " <" + rnd_token(r, 6) + "@ref2.example>";
		h += "Date: " + e.date + "\r\nFrom: " + join_addrs(e.from) + "\r\n"; if (r.below(2)) h += "Received: from a\r\n\tby b; x\r\n";
		if (!(e.sender.empty() || hname(e.sender[0]) == hname(e.from[0]))) h += "Sender: " + join_addrs(e.sender) + "\r\n"; if (hname(e.reply_to[0]) != hname(e.from[0])) h += "Reply-To: " + join_addrs(e.reply_to) + "\r\n";
		if (!e.to.empty()) h += "To: " + join_addrs(e.to) + "\r\n"; if (!e.cc.empty()) h += "Cc: " + join_addrs(e.cc) + "\r\n"; if (!e.bcc.empty()) h += "Bcc: " + join_addrs(e.bcc) + "\r\n";
		h += "Subject: " + e.subject_raw + "\r\nMessage-ID: " + e.msgid + "\r\n"; if (!e.inreplyto.empty()) h += "In-Reply-To: " + e.inreplyto + "\r\n"; if (r.below(3) == 0) h += "X-Priority: 1\r\nImportance: high\r\n"; if (r.below(3) == 0) h += "X-Custom: value of " + tok + "\r\nX-Custom: second\r\n"; h += "MIME-Version: 1.0\r\n";
	}
	u32 kind = depth >= 3 ? 0 : r.below(depth == 0 ? 4 : 6); if (depth > 0 && kind >= 3) kind = kind == 5 ? 3 : 0;
	auto tokq = [&](u32 i) { static const char* f[] = {"a.txt", "r\xc3\xa9sum\xc3\xa9.pdf", "with space.doc", "q\"uote.x", "long-name-" "0123456789-0123456789.bin"}; (void) i; return std::string(f[0]); };
	if (kind == 1 || kind == 2) {
		m->type = "multipart"; m->sub = oneof<std::string>({"mixed", "alternative", "related"}, "mime.multi"); std::string b = "=_" + rnd_token(r, 5 + r.below(30)); m->params.push_back({"boundary", b}); m->cte = "7bit";
		u32 n = 1 + r.below(3); for (u32 i = 0; i < n; ++i) m->kids.push_back(gen_mime(r, len / n, tok + fmt("p%u", i), depth + 1, false));
		h += "Content-Type: multipart/" + m->sub + "; boundary=\"" + b + "\"\r\n"; m->hdr = h + "\r\n";
		if (r.below(3) == 0) m->body = "preamble\r\n"; for (auto& k : m->kids) m->body += "--" + b + "\r\n" + k->all() + "\r\n"; m->body += "--" + b + "--\r\n"; if (r.below(3) == 0) m->body += "epilogue\r\n";
	} else if (kind == 3 && depth > 0) {
		m->type = "message"; m->sub = "rfc822"; m->cte = "7bit"; m->inner = gen_mime(r, len, tok + "m", depth + 1, true); m->body = m->inner->all(); if (r.below(2)) { m->fname = "fwd.eml"; m->disp = "attachment"; }
		h += "Content-Type: message/rfc822\r\n"; if (!m->disp.empty()) h += "Content-Disposition: attachment; filename=\"fwd.eml\"\r\n"; m->hdr = h + "\r\n";
	} else {
		u32 fl = r.below(32) & ~8u; bool text = r.below(3) != 0; m->type = text ? "text" : "application"; m->sub = text ? (r.below(3) ? "plain" : "html") : "octet-stream"; u32 n = len ? r.below(u32(len)) : 0; if (r.below(6) == 0) n = 0;
		m->body = n ? gen_lines(r, n, tok, int(fl)) : ""; if (r.below(4) == 0 && m->body.size() > 2) m->body.resize(m->body.size() - 2);
		m->cte = (fl & 2) ? "8bit" : "7bit"; if (!text && r.below(2)) { std::string raw = gen_bytes(r, n, 0), e = b64(raw); m->body.clear(); for (size_t i = 0; i < e.size(); i += 76) m->body += e.substr(i, 76) + "\r\n"; m->cte = "base64"; }
		if (text) m->params.push_back({"charset", r.below(2) ? "utf-8" : "us-ascii"}); if (r.below(3) == 0) { m->name = tokq(0); m->params.push_back({"name", m->name}); } if (r.below(3) == 0) { m->disp = r.below(2) ? "attachment" : "inline"; m->fname = tok + ".dat"; } if (r.below(4) == 0) m->id = "<" + tok + "@part>"; if (r.below(4) == 0) m->desc = "desc of " + tok;
		h += "Content-Type: " + m->type + "/" + m->sub; for (auto& p : m->params) h += "; " + p.first + "=\"" + p.second + "\""; h += "\r\nContent-Transfer-Encoding: " + m->cte + "\r\n"; if (!m->id.empty()) h += "Content-ID: " + m->id + "\r\n"; if (!m->desc.empty()) h += "Content-Description: " + m->desc + "\r\n"; if (!m->disp.empty()) h += "Content-Disposition: " + m->disp + "; filename=\"" + m->fname + "\"\r\n"; m->hdr = h + "\r\n";
	}
	return m;
}
ImapMsgP imap_msg(size_t maxlen) {
	u32 n = sized(u32(maxlen), "imap.len"); Rng r = subrng("imap.msg"); auto m = std::make_shared<ImapMsg>(); m->token = "tk" + rnd_token(r, 8); m->root = gen_mime(r, n, m->token, 0, true); m->data = m->root->all();
	static const char* fl[] = {"\\Seen", "\\Answered", "\\Flagged", "\\Deleted", "\\Draft", "$Forwarded", "custom"}; for (auto f : fl) if (r.below(4) == 0) m->flags.insert(f); m->flags.erase("\\Deleted");
	m->idate = fmt("%2u-Feb-2020 %02u:%02u:%02u +0100", 1 + r.below(28), r.below(24), r.below(60), r.below(60)); return m;
}
static std::string hdr_fields(const std::string& hdr, const std::set<std::string>& names, bool inverse) {
	std::string o; size_t p = 0; bool keep = false;
	while (p < hdr.size()) { size_t e = hdr.find("\r\n", p); std::string l = hdr.substr(p, e == std::string::npos ? e : e + 2 - p); p += l.size(); if (l == "\r\n") break; if (l[0] != ' ' && l[0] != '\t') { std::string n = upper(l.substr(0, l.find(':'))); keep = (names.count(n) != 0) != inverse; } if (keep) o += l; }
	return o + "\r\n";
}
bool imap_section(const ImapMsg& m, const std::string& sec0, std::string& out) {
	std::string sec = upper(sec0); const Mime* n = m.root.get(); const Mime* msg = n; const Mime* part = nullptr; size_t p = 0; bool first = true;
	while (p < sec.size() && isdigit((unsigned char) sec[p])) {
		size_t e = p; while (e < sec.size() && isdigit((unsigned char) sec[e])) ++e; u64 k = strtoull(sec.substr(p, e - p).c_str(), nullptr, 10); p = e; if (p < sec.size() && sec[p] == '.') ++p; else if (p < sec.size()) return false;
		const Mime* cont = n; if (!first && n->inner) cont = n->inner.get(), msg = cont; else if (!first && !n->multi()) return false;
		first = false; if (cont->multi()) { if (k < 1 || k > cont->kids.size()) return false; n = cont->kids[k - 1].get(); } else { if (k != 1) return false; n = cont; }
		part = n;
	}
	std::string rest = sec.substr(p);
	if (part) { if (rest.empty()) { out = part->body; return true; } if (rest == "MIME") { out = part->hdr; return true; } if (!part->inner) return false; msg = part->inner.get(); }
	if (rest.empty()) { out = m.data; return true; } if (rest == "HEADER") { out = msg->hdr; return true; } if (rest == "TEXT") { out = msg->body; return true; }
	bool inv = rest.compare(0, 18, "HEADER.FIELDS.NOT ") == 0; if (inv || rest.compare(0, 14, "HEADER.FIELDS ") == 0) { size_t a = rest.find('('), b = rest.find(')'); if (a == std::string::npos || b == std::string::npos) return false; std::set<std::string> f; for (auto& x : split(rest.substr(a + 1, b - a - 1), ' ')) if (!x.empty()) f.insert(x); out = hdr_fields(msg->hdr, f, inv); return true; }
	return false;
}
// ------------------------------------------------------------------ world
ImapBoxP ImapWorld::box(const std::string& n0) { std::string n = upper(n0) == "INBOX" ? "INBOX" : n0; for (auto& b : boxes) if (b->name == n) return b; return nullptr; }
ImapBoxP ImapWorld::add_box(const std::string& n) { auto b = std::make_shared<ImapBox>(); b->name = n; b->uidvalidity = (next_validity += 7); if (chance(250, "big.uids")) { b->uidnext = oneof<u64>({900, 99990, 2147483640ull, 4294960000ull}, "uidnext"); b->modseq = oneof<u64>({1, 4294967290ull, 1ull << 40, 9223372036854770000ull}, "modseq"); b->uidvalidity += oneof<u64>({0, 2147483640ull, 4294960000ull}, "uidvalidity"); } boxes.push_back(b); return b; }
void ImapWorld::deliver(ImapBoxP b, ImapMsgP m) { m->uid = b->uidnext; b->uidnext += 1 + (m->data.size() % 3); m->modseq = ++b->modseq; m->gone = false; b->msgs.push_back(m); ++changes; }
void ImapWorld::expunge(ImapBoxP b, ImapMsgP m) { m->gone = true; ++b->modseq; ++changes; b->msgs.erase(std::remove(b->msgs.begin(), b->msgs.end(), m), b->msgs.end()); }
void ImapWorld::set_flags(ImapBoxP b, ImapMsgP m, const std::set<std::string>& f) { if (f == m->flags) return; m->flags = f; m->modseq = ++b->modseq; ++changes; }
void ImapWorld::crowd_act() {
	auto b = box("INBOX"); if (!b) return; nontrivial();
	switch (weighted({40, 30, 30}, "crowd.act")) {
		case 0: { u32 n = 1 + choose(3, "crowd.n"); for (u32 i = 0; i < n; ++i) { auto m = new_message ? new_message() : imap_msg(300); deliver(b, m); } count("imap.crowd.deliver"); tr("another client delivers %u", n); break; }
		case 1: { if (b->msgs.empty()) break; u32 n = 1 + choose(2, "crowd.n"); for (u32 i = 0; i < n && !b->msgs.empty(); ++i) { auto m = b->msgs[choose(u32(b->msgs.size()), "crowd.which")]; tr("another client expunges uid %llu", (unsigned long long) m->uid); expunge(b, m); } count("imap.crowd.expunge"); break; }
		default: { if (b->msgs.empty()) break; auto m = b->msgs[choose(u32(b->msgs.size()), "crowd.which")]; auto f = m->flags; const char* all[] = {"\\Seen", "\\Flagged", "\\Answered", "\\Draft", "\\Deleted"}; std::string x = all[choose(4, "crowd.flag")]; if (!f.erase(x)) f.insert(x); set_flags(b, m, f); tr("another client changes flags of uid %llu", (unsigned long long) m->uid); count("imap.crowd.flags"); }
	}
}
// ------------------------------------------------------------------ session output
std::string ImapSess::str(const std::string& s, bool nil) {
	if (nil && s.empty()) return "NIL"; bool must = s.size() > 900; for (unsigned char c : s) if (c == '\r' || c == '\n' || c == 0 || c >= 0x80) must = true;
	if (must || chance(g_imap->cfg.literals, "srv.literal")) return fmt("{%zu}\r\n", s.size()) + s;
	std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\"";
}
std::string ImapSess::mbox(const std::string& name) {
	std::string e = mutf7_enc(name); bool atom = !e.empty() && g_imap->cfg.shuffle; for (unsigned char c : e) if (!isalnum(c) && c != '.' && c != '/' && c != '&' && c != '-' && c != '_' && c != '+' && c != ',') atom = false;
	if (atom && chance(400, "srv.atommbox")) return e; return str(e);
}
std::string ImapSess::addrs(const std::vector<ImapAddr>& v) { if (v.empty()) return "NIL"; std::string o = "("; for (auto& a : v) o += "(" + str(a.raw, true) + " NIL " + str(a.local) + " " + str(a.domain) + ")"; return o + ")"; }
std::string ImapSess::envelope(const ImapEnv& e) { return "(" + str(e.date) + " " + str(e.subject_raw) + " " + addrs(e.from) + " " + addrs(e.sender) + " " + addrs(e.reply_to) + " " + addrs(e.to) + " " + addrs(e.cc) + " " + addrs(e.bcc) + " " + str(e.inreplyto, true) + " " + str(e.msgid, true) + ")"; }
std::string ImapSess::structure(const Mime& m, bool ext) {
	auto params = [&](const std::vector<std::pair<std::string, std::string>>& v) { if (v.empty()) return std::string("NIL"); std::string o = "("; for (auto& p : v) o += (o.size() > 1 ? " " : "") + str(g_imap->cfg.lower ? p.first : upper(p.first)) + " " + str(p.second); return o + ")"; };
	auto cs = [&](const std::string& s) { return str(g_imap->cfg.lower ? s : upper(s)); };
	std::string disp = m.disp.empty() ? "NIL" : "(" + cs(m.disp) + " " + params({{"filename", m.fname}}) + ")";
	if (m.multi()) { std::string o = "("; for (auto& k : m.kids) o += structure(*k, ext); o += " " + cs(m.sub); if (ext) o += " " + params(m.params) + " " + disp + (g_imap->cfg.ext_struct ? " NIL NIL" : ""); return o + ")"; }
	auto q = [&](const std::string& x) { return "\"" + (g_imap->cfg.lower ? x : upper(x)) + "\""; }; std::string o = "(" + q(m.type) + " " + (m.inner ? q(m.sub) : cs(m.sub)) + " " + params(m.params) + " " + str(m.id, true) + " " + str(m.desc, true) + " " + cs(m.cte) + fmt(" %zu", m.body.size()); size_t lines = size_t(std::count(m.body.begin(), m.body.end(), '\n'));
	if (m.inner) o += " " + envelope(m.inner->env) + " " + structure(*m.inner, ext) + fmt(" %zu", lines); else if (m.type == "text") o += fmt(" %zu", lines);
	if (ext) { o += " NIL " + disp; if (g_imap->cfg.ext_struct) o += " NIL NIL"; } return o + ")";
}
std::string ImapSess::fetch_flags(size_t i, bool solicited) {
	auto& m = view[i]; bool chg = told[m.get()].flags != m->flags; if (chg) evlog.push_back({'F', m, i + 1}); ImapTold t; t.flags = m->flags; t.modseq = m->modseq; told[m.get()] = t; std::string fl; for (auto& f : m->flags) fl += (fl.empty() ? "" : " ") + f;
	std::string o = "FLAGS (" + fl + ")"; if (!solicited) { if (g_imap->cfg.flag_uid) o = fmt("UID %llu ", (unsigned long long) m->uid) + o; if (condstore) o += fmt(" MODSEQ (%llu)", (unsigned long long) m->modseq); } return o;
}
std::string ImapSess::updates_now(bool ex, bool force) {
	if (st != SELECTED) return ""; std::string o; auto ea = [&] { return force || chance(g_imap->cfg.eager, "srv.eager"); };
	if (ex) { std::vector<size_t> v; for (size_t i = 0; i < view.size(); ++i) if (view[i]->gone && ea()) v.push_back(i); while (!v.empty()) { size_t k = choose(u32(v.size()), "srv.exporder"), i = v[k]; v.erase(v.begin() + long(k)); for (auto& x : v) if (x > i) --x; o += fmt("* %zu EXPUNGE\r\n", i + 1); evlog.push_back({'X', view[i], i + 1}); told.erase(view[i].get()); told_gone.insert(view[i].get()); view.erase(view.begin() + long(i)); ++updates; count("imap.update.expunge"); } }
	u64 last = view.empty() ? 0 : view.back()->uid; for (auto& g : told_gone) last = std::max(last, g->uid); std::vector<ImapMsgP> fresh; for (auto& m : sel->msgs) if (m->uid > last && !told.count(m.get())) fresh.push_back(m);
	if (!fresh.empty() && ea()) { for (auto& m : fresh) { view.push_back(m); evlog.push_back({'A', m, view.size()}); ImapTold t; t.flags = m->flags; t.modseq = m->modseq; told[m.get()] = t; } o += fmt("* %zu EXISTS\r\n", view.size()); if (chance(400, "srv.recent")) o += fmt("* %zu RECENT\r\n", fresh.size()); ++updates; count("imap.update.exists"); }
	for (size_t i = 0; i < view.size(); ++i) if (!view[i]->gone && told[view[i].get()].flags != view[i]->flags && ea()) { evlog.push_back({'f', view[i], i + 1}); o += fmt("* %zu FETCH (", i + 1) + fetch_flags(i, false) + ")\r\n"; ++updates; count("imap.update.flags"); }
	if (g_imap->cfg.noise && chance(g_imap->cfg.noise, "srv.noise")) switch (choose(5, "srv.noisekind")) { case 0: o += "* OK still here\r\n"; break; case 1: o += fmt("* %zu EXISTS\r\n", view.size()); break; case 2: o += "* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft custom)\r\n"; break; case 3: o += fmt("* OK [UIDNEXT %llu] next\r\n", (unsigned long long) sel->uidnext); break; default: o += "* 0 RECENT\r\n"; }
	return o;
}
const ImapRej* ImapSess::rejection(const std::string& cmd) {
	int n = g_imap->seen[cmd]++;
	for (auto& r : g_imap->cfg.rej) if (r.cmd == cmd && (r.nth == n || (r.sticky && n >= r.nth))) {
		++g_imap->rejections; nontrivial(); if (r.delay) { count("fault.server.late_reply"); g_imap->any_late = true; late_once = r.delay; return nullptr; }
		count(r.drop ? "fault.server.drop" : "fault.server.reject"); tr("server: %s #%d: %s", cmd.c_str(), n, r.drop ? "drops the connection" : "refuses"); return &r;
	}
	return nullptr;
}
std::string ImapSess::caps_line() { std::string s = "CAPABILITY"; std::set<std::string> cs = tls ? g_imap->cfg.caps_tls : g_imap->cfg.caps; if (st == NONAUTH || st == SASL) for (auto& f : g_imap->cfg.caps_flip) if (!cs.erase(f)) cs.insert(f); for (auto& k : cs) s += " " + (k == "IMAP4REV1" ? std::string("IMAP4rev1") : k); for (auto& m : mechs_of(g_imap->cfg, tls)) s += " AUTH=" + m; return s; }
void ImapSess::onConnect() { proc_min = g_imap->cfg.proc; proc_jit = g_imap->cfg.proc_jit; ++g_imap->sessions; if (g_imap->cfg.implicit_tls) { start_tls(g_imap->cfg.tls); return; } greet(); }
void ImapSess::onTls() { if (g_imap->cfg.implicit_tls && !greeted) greet(); }
void ImapSess::greet() {
	greeted = true; auto r = rejection("GREETING"); if (r && r->drop) { reply("", [this] { hangup(); }); return; } std::string k = r ? "BYE" : g_imap->cfg.greeting;
	if (k == "PREAUTH") { st = AUTH; } std::string code = g_imap->cfg.caps_in_greeting ? "[" + caps_line() + "] " : "";
	reply("* " + k + " " + code + "IMAP4rev1 ready\r\n", [this, k] { g_imap->greeted = true; if (k == "BYE") hangup(); });
}
void ImapSess::done_login(const std::string& tag) { st = AUTH; ++g_imap->logins; count("imap.logins"); reply(tag + " OK " + (g_imap->cfg.caps_in_login ? "[" + caps_line() + "] " : "") + "logged in\r\n"); }
void ImapSess::sasl_step(const std::string& in) {
	if (in == "*") { st = NONAUTH; reply(sasl_tag + " BAD cancelled\r\n"); return; } std::string o; int k = sasl->step(sasl_line(in), true, o);
	if (k == 1) { ++g_sasl_accepted; done_login(sasl_tag); return; } if (k < 0) { ++g_sasl_refused; st = NONAUTH; reply(sasl_tag + " NO authentication failed\r\n"); return; }
	auto& sc = g_imap->cfg.sasl; if (sc.bad_challenge == sasl->steps - 1) { nontrivial(); count("fault.server.bad_challenge"); reply("+ " + (sc.bad_raw ? sc.bad_text : b64(sc.bad_text)) + "\r\n"); return; } reply("+ " + b64(o) + "\r\n");
}
// ------------------------------------------------------------------ input
bool ImapSess::consume() {
	if (lit) { if (inbuf.size() < litn) return false; lits.push_back(inbuf.substr(0, litn)); inbuf.erase(0, litn); lit = false; buf += fmt("\x01%zu\x02", lits.size() - 1); return true; }
	size_t e = inbuf.find('\n'); if (e == std::string::npos) { if (inbuf.size() > 200000) violate("imap.flood", "endless command line"); return false; }
	if (e == 0 || inbuf[e - 1] != '\r') violate("imap.crlf", "command line not ended by CRLF: %s", esc(inbuf.substr(0, e)).c_str());
	std::string l = inbuf.substr(0, e - 1); inbuf.erase(0, e + 1); tr("C%d: %s", conn()->index, esc(l, 200).c_str()); for (char c : l) if (c == '\r' || c == 0) violate("imap.syntax", "control character in command \"%s\"", esc(l).c_str());
	g_imap->log.push_back(l); g_imap->wire.push_back({tls_ready, l});
	if (st == SASL) { sasl_step(l); return true; }
	buf += l;
	if (!l.empty() && l.back() == '}') {
		size_t b = l.rfind('{'); if (b != std::string::npos && l.find_first_not_of("0123456789", b + 1) == l.size() - 1 && l.size() - 1 > b + 1) {
			litn = strtoull(l.c_str() + b + 1, nullptr, 10); buf.erase(buf.rfind('{')); std::string tag = buf.substr(0, buf.find(' ')); std::string cmd = "APPEND"; bool app = upper(buf).find(" APPEND ") != std::string::npos;
			auto r = app ? rejection("APPEND") : nullptr; if (r && !r->late_data) { buf.clear(); lits.clear(); if (r->drop) { reply("", [this] { hangup(); }); return true; } reply(tag + (r->bad ? " BAD " : " NO ") + "cannot append\r\n"); return true; }
			if (app && st == SELECTED && chance(150, "srv.lituntagged")) reply("* OK wait\r\n+ go ahead\r\n"); else reply("+ go ahead\r\n"); lit = true; late_once = 0; if (r) append_late = true; return true;
		}
	}
	std::string full; full.swap(buf); bool k = exec(full); if (!lit) lits.clear(); return k;
}
static std::vector<std::string> tokens(const std::string& l, const std::vector<std::string>& lits) {
	std::vector<std::string> v; size_t p = 0; int depth = 0; auto bad = [&](const char* why) { violate("imap.syntax", "%s in \"%s\"", why, esc(l, 300).c_str()); };
	while (p < l.size()) {
		if (l[p] == ' ') { ++p; if (p == l.size() || l[p] == ' ' || l[p] == ')') bad("stray space"); continue; }
		if (l[p] == '(') { v.push_back("("); ++p; ++depth; if (p < l.size() && l[p] == ' ') bad("space after ("); continue; } if (l[p] == ')') { v.push_back(")"); ++p; if (--depth < 0) bad("unbalanced )"); if (p < l.size() && l[p] != ' ' && l[p] != ')') bad("no space after )"); continue; }
		if (l[p] == '\x01') { size_t e = l.find('\x02', p); v.push_back("L" + lits[strtoull(l.c_str() + p + 1, nullptr, 10)]); p = e + 1; continue; }
		if (l[p] == '"') { std::string s = "Q"; ++p; for (;; ++p) { if (p >= l.size()) bad("unterminated string"); if (l[p] == '"') break; if (l[p] == '\\') { ++p; if (p >= l.size() || (l[p] != '"' && l[p] != '\\')) bad("bad escape"); } if ((unsigned char) l[p] >= 0x80 && l.find("SEARCH ") == std::string::npos) bad("8-bit character in a quoted string"); s += l[p]; } ++p; if (p < l.size() && l[p] != ' ' && l[p] != ')') bad("no space after string"); v.push_back(s); continue; }
		std::string a = "A"; int br = 0; while (p < l.size() && (br || (l[p] != ' ' && l[p] != '(' && l[p] != ')'))) { if (l[p] == '[' && (br || upper(a).compare(0, 5, "ABODY") == 0)) ++br; if (l[p] == ']' && br) --br; if ((unsigned char) l[p] < 0x20 || (unsigned char) l[p] > 0x7e || (l[p] == '"' && !br)) bad("illegal character in atom"); a += l[p++]; } if (br) bad("unbalanced ["); if (a.find('[') == std::string::npos && a.find_first_of("*%") != std::string::npos && a.find_first_not_of("A0123456789:,*") != std::string::npos && upper(l.substr(0, 24)).find(" LIST ") == std::string::npos && upper(l.substr(0, 24)).find(" LSUB ") == std::string::npos) bad("list wildcard in atom"); v.push_back(a);
	}
	if (depth) bad("unbalanced ("); return v;
}
std::vector<size_t> ImapSess::seqset(const std::string& s, bool uid) {
	std::set<size_t> r; auto bad = [&] { violate("imap.syntax", "malformed set \"%s\"", esc(s).c_str()); }; if (s.empty()) bad();
	for (auto& x : split(s, ',')) {
		auto num = [&](const std::string& t) -> u64 { if (t == "*") return uid ? (view.empty() ? 0 : view.back()->uid) : view.size(); if (t.empty() || t.find_first_not_of("0123456789") != std::string::npos || t.size() > 10 || t[0] == '0') bad(); return strtoull(t.c_str(), nullptr, 10); };
		size_t c = x.find(':'); u64 a = num(x.substr(0, c)), b = c == std::string::npos ? a : num(x.substr(c + 1)); if (a > b) std::swap(a, b);
		if (!uid && (a < 1 || b > view.size())) return {size_t(-1)};
		for (size_t i = 0; i < view.size(); ++i) { u64 k = uid ? view[i]->uid : i + 1; if (k >= a && k <= b) r.insert(i); }
	}
	return std::vector<size_t>(r.begin(), r.end());
}
void ImapSess::select_box(ImapBoxP b, bool r) { sel = b; ro = r; st = SELECTED; view = b->msgs; told.clear(); told_gone.clear(); for (auto& m : view) { ImapTold t; t.flags = m->flags; t.modseq = m->modseq; told[m.get()] = t; } }
static bool wild(const char* p, const char* s, char d) { if (!*p) return !*s; if (*p == '*') { for (const char* q = s;; ++q) { if (wild(p + 1, q, d)) return true; if (!*q) return false; } } if (*p == '%') { for (const char* q = s;; ++q) { if (wild(p + 1, q, d)) return true; if (!*q || *q == d) return false; } } return *s && *p == *s && wild(p + 1, s + 1, d); }
static u64 parse_date(const std::string& s) { static const char* M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; auto v = split(s, '-'); if (v.size() != 3) return 0; for (u64 i = 0; i < 12; ++i) if (v[1] == M[i]) return strtoull(v[2].c_str(), nullptr, 10) * 10000 + (i + 1) * 100 + strtoull(v[0].c_str(), nullptr, 10); return 0; }
bool imap_search(const std::vector<std::string>& t, size_t& p, const ImapMsg& m, size_t num, ImapSess& s) {
	auto bad = [&]() { violate("imap.syntax", "malformed search near token %zu of \"%s\"", p, esc(g_imap->log.back()).c_str()); };
	if (p >= t.size()) bad(); std::string k = t[p++];
	if (k == "(") { bool r = true; if (p < t.size() && t[p] == ")") bad(); while (p < t.size() && t[p] != ")") r = imap_search(t, p, m, num, s) && r; if (p >= t.size()) bad(); ++p; return r; }
	if (k[0] != 'A') bad(); std::string w = upper(k.substr(1)); auto sarg = [&]() -> std::string { if (p >= t.size() || t[p].empty() || t[p] == "(" || t[p] == ")") bad(); return t[p++].substr(1); };
	auto has = [&](const char* f) { return m.flags.count(f) != 0; }; std::string hdr = m.root ? m.root->hdr : m.data; auto hfield = [&](const std::string& n) { std::string x = hdr_fields(hdr, {upper(n)}, false); return lower(x); };
	auto inhdr = [&](const std::string& n, const std::string& v) { std::string x = hfield(n); if (x == "\r\n") return false; if (v.empty()) return true; size_t c = x.find(':'); return x.find(lower(v), c + 1) != std::string::npos; };
	if (w == "ALL") return true; if (w == "SEEN") return has("\\Seen"); if (w == "UNSEEN") return !has("\\Seen"); if (w == "ANSWERED") return has("\\Answered"); if (w == "UNANSWERED") return !has("\\Answered"); if (w == "DELETED") return has("\\Deleted"); if (w == "UNDELETED") return !has("\\Deleted"); if (w == "DRAFT") return has("\\Draft"); if (w == "UNDRAFT") return !has("\\Draft"); if (w == "FLAGGED") return has("\\Flagged"); if (w == "UNFLAGGED") return !has("\\Flagged");
	if (w == "NOT") return !imap_search(t, p, m, num, s); if (w == "OR") { bool a = imap_search(t, p, m, num, s); bool b = imap_search(t, p, m, num, s); return a || b; }
	if (w == "FROM" || w == "TO" || w == "CC" || w == "BCC" || w == "SUBJECT") return inhdr(w, sarg()); if (w == "HEADER") { std::string n = sarg(); return inhdr(n, sarg()); }
	if (w == "BODY") return lower(m.root ? m.root->body : m.data).find(lower(sarg())) != std::string::npos; if (w == "TEXT") return lower(m.data).find(lower(sarg())) != std::string::npos;
	if (w == "LARGER") return m.data.size() > strtoull(sarg().c_str(), nullptr, 10); if (w == "SMALLER") return m.data.size() < strtoull(sarg().c_str(), nullptr, 10); if (w == "KEYWORD") return has(sarg().c_str()); if (w == "UNKEYWORD") return !has(sarg().c_str());
	if (w == "RECENT" || w == "NEW") return false; if (w == "OLD") return true;
	if (w == "BEFORE" || w == "ON" || w == "SINCE" || w == "SENTBEFORE" || w == "SENTON" || w == "SENTSINCE") { u64 d = parse_date(sarg()), x; if (!d) bad(); if (w[1] == 'E' && w[2] == 'N') { auto v = split(m.root->env.date, ' '); x = parse_date(v[1] + "-" + v[2] + "-" + v[3]); } else { std::string i = m.idate.substr(0, 11); if (i[0] == ' ') i.erase(0, 1); x = parse_date(i); } if (w.find("BEFORE") != std::string::npos) return x < d; if (w.find("SINCE") != std::string::npos) return x >= d; return x == d; }
	if (w == "UID") { auto v = s.seqset(sarg(), true); return std::find(v.begin(), v.end(), num - 1) != v.end(); }
	if (isdigit((unsigned char) w[0]) || w[0] == '*') { auto v = s.seqset(w, false); return std::find(v.begin(), v.end(), num - 1) != v.end(); }
	bad(); return false;
}
bool ImapSess::do_fetch(const std::string& tag, bool uid, const std::vector<std::string>& t, const ImapRej* r) {
	auto set = seqset(t[0].substr(1), uid); std::vector<std::string> items; if (t.size() < 2) violate("imap.syntax", "FETCH without items"); if (t[1] == "(") { for (size_t i = 2; i + 1 < t.size(); ++i) items.push_back(t[i].substr(1)); if (items.empty() || t.back() != ")") violate("imap.syntax", "empty FETCH item list: \"%s\"", esc(g_imap->log.back()).c_str()); } else items.push_back(t[1].substr(1));
	if (r && !r->late_data) { reply(tag + (r->bad ? " BAD" : " NO") + " cannot fetch\r\n"); return true; }
	if (set.size() == 1 && set[0] == size_t(-1)) { reply(updates_now(false) + tag + " BAD invalid message set\r\n"); return true; }
	if (uid && std::find(items.begin(), items.end(), "UID") == items.end()) items.push_back("UID");
	std::vector<ImapMsgP> ms; for (size_t i : set) ms.push_back(view[i]); std::string o = updates_now(uid); bool missing = false; auto& c = g_imap->cfg;
	for (auto& m : ms) {
		if (m->gone && !c.retain) { missing = true; continue; } size_t i = size_t(std::find(view.begin(), view.end(), m) - view.begin()); if (i == view.size()) { continue; }
		auto its = items; if (chance(c.shuffle, "srv.shuffle")) for (size_t k = its.size(); k > 1; --k) std::swap(its[k - 1], its[choose(u32(k), "srv.order")]);
		std::string s; bool seen = false, flags_done = false;
		for (auto& it : its) {
			std::string u = upper(it), x;
			if (u == "UID") x = fmt("UID %llu", (unsigned long long) m->uid); else if (u == "FLAGS") { x = "\x01"; } else if (u == "RFC822.SIZE") x = fmt("RFC822.SIZE %zu", m->claim ? m->claim : m->data.size()); else if (u == "INTERNALDATE") x = "INTERNALDATE \"" + m->idate + "\""; else if (u == "ENVELOPE") x = "ENVELOPE " + envelope(m->root->env); else if (u == "BODYSTRUCTURE") x = "BODYSTRUCTURE " + structure(*m->root, true); else if (u == "BODY") x = "BODY " + structure(*m->root, false); else if (u == "RFC822.HEADER") x = "RFC822.HEADER " + str(m->root ? m->root->hdr : m->data.substr(0, m->data.find("\r\n\r\n") + 4));
			else if (u == "MODSEQ") { if (!(tls ? c.caps_tls : c.caps).count("CONDSTORE")) violate("imap.caps", "MODSEQ fetched although CONDSTORE is not offered"); condstore = true; x = fmt("MODSEQ (%llu)", (unsigned long long) m->modseq); }
			else if (u.compare(0, 5, "BODY[") == 0 || u.compare(0, 10, "BODY.PEEK[") == 0) {
				bool peek = u[4] == '.'; size_t a = it.find('['), b = it.rfind(']'); std::string sec = it.substr(a + 1, b - a - 1), part = it.substr(b + 1), d, resp; if (!imap_section(*m, sec, d)) { if (r) continue; std::string lo = updates_now(false); reply(o + lo + tag + " NO no such section " + sec + "\r\n"); g_imap->passages["badsection"] = sec; return true; }
				resp = "BODY[" + (c.lower ? sec : upper(sec)) + "]"; if (!part.empty()) { if (part[0] != '<' || part.back() != '>') violate("imap.syntax", "bad partial \"%s\"", part.c_str()); auto v = split(part.substr(1, part.size() - 2), '.'); if (v.size() != 2) violate("imap.syntax", "bad partial \"%s\"", part.c_str()); for (auto& z : v) if (z.empty() || z.find_first_not_of("0123456789") != std::string::npos || strtoull(z.c_str(), nullptr, 10) > 4294967295ull) violate("imap.syntax", "bad partial \"%s\"", part.c_str()); u64 st0 = strtoull(v[0].c_str(), nullptr, 10), ln = strtoull(v[1].c_str(), nullptr, 10); if (!ln) violate("imap.syntax", "partial of length zero"); d = st0 >= d.size() ? "" : d.substr(st0, ln); resp += fmt("<%llu>", (unsigned long long) st0); }
				x = resp + " " + str(d); if (!peek && !ro) seen = true; count("imap.body_fetches");
			} else violate("imap.syntax", "unknown fetch item \"%s\"", esc(it).c_str());
			s += (s.empty() ? "" : " ") + x;
		}
		if (seen && !m->flags.count("\\Seen") && !m->gone) { auto f = m->flags; f.insert("\\Seen"); g_imap->set_flags(sel, m, f); if (s.find("\x01") == std::string::npos && chance(c.eager, "srv.eager")) s += " \x01"; }
		size_t fp; while ((fp = s.find("\x01")) != std::string::npos) { std::string f = fetch_flags(i, true); s.replace(fp, 1, f); flags_done = true; } (void) flags_done;
		evlog.push_back({'f', m, i + 1}); o += fmt("* %zu FETCH (", i + 1) + s + ")\r\n"; if (r && r->late_data) break;
		if (c.crowd && chance(c.crowd / 3, "srv.actbetween")) g_imap->crowd_act();
		if (c.noise && chance(c.noise / 2, "srv.between")) o += updates_now(uid && c.uid_expunge_mid);
	}
	if (r) { reply(o + tag + (r->bad ? " BAD" : " NO") + " fetch failed half-way\r\n"); return true; }
	o += updates_now(uid);
	if (missing) { reply(o + tag + " NO [EXPUNGEISSUED] some messages no longer exist\r\n"); return true; }
	reply(o + tag + " OK fetched\r\n"); return true;
}
bool ImapSess::exec(const std::string& l) {
	auto t = tokens(l, lits); auto& c = g_imap->cfg; if (t.size() < 2 || t[0][0] != 'A' || t[1][0] != 'A') violate("imap.syntax", "not a command: \"%s\"", esc(l, 200).c_str());
	std::string tag = t[0].substr(1), cmd = upper(t[1].substr(1)); t.erase(t.begin(), t.begin() + 2); bool uid = false; for (char x : tag) if (!isalnum((unsigned char) x)) violate("imap.syntax", "not a command: \"%s\"", esc(l, 200).c_str());
	if (cmd == "UID") { uid = true; if (t.empty()) violate("imap.syntax", "UID alone"); cmd = upper(t[0].substr(1)); t.erase(t.begin()); }
	std::string name = (uid ? "UID " : "") + cmd; g_imap->cmds.push_back(name); ++commands; cur_cmd = name; if (g_imap->on_cmd) g_imap->on_cmd(l);
	if (c.crowd && st == SELECTED && chance(c.crowd, "srv.crowd")) g_imap->crowd_act();
	state(fnvs(name, u64(st) * 3 + (view.size() > 5 ? 5 : view.size()) * 16 + updates * 1024 + tls));
	bool isapp = cmd == "APPEND"; const ImapRej* r = isapp ? nullptr : rejection(cmd); if (r && r->drop) { reply("", [this] { hangup(); }); return true; }
	bool late = isapp && append_late; if (late) append_late = false;
	auto no = [&](const std::string& why) { reply(updates_now(false) + tag + " NO " + why + "\r\n"); }; auto ok = [&](const std::string& data, bool ex, std::function<void()> then = nullptr) { std::string u0 = chance(500, "srv.updfirst") ? updates_now(ex) : ""; reply(u0 + data + updates_now(ex) + tag + " OK done\r\n", then); };
	auto need = [&](size_t n) { if (t.size() < n) violate("imap.syntax", "too few arguments: \"%s\"", esc(l).c_str()); }; auto s = [&](size_t i) { if (t[i] == "(" || t[i] == ")") violate("imap.syntax", "unexpected list: \"%s\"", esc(l).c_str()); return t[i].substr(1); };
	auto refused = [&]() { if (!r) return false; if (r->late_data && cmd != "FETCH") { } reply(updates_now(false) + tag + (r->bad ? " BAD" : " NO") + " refused\r\n"); return true; };
	if (cmd == "CAPABILITY") { if (refused()) return true; reply("* " + caps_line() + "\r\n" + tag + " OK done\r\n"); return true; }
	if (cmd == "NOOP") { if (refused()) return true; std::string u = updates_now(true, chance(800, "srv.noopall")); reply(u + tag + " OK done\r\n"); return true; }
	if (cmd == "LOGOUT") { if (r) { reply(tag + " BAD no\r\n"); return true; } reply("* BYE bye\r\n" + tag + " OK done\r\n", [this] { st = OUT; hangup(); }); return true; }
	if (st == NONAUTH) {
		if (cmd == "STARTTLS") { if (r || tls || !c.starttls_ok) { reply(tag + (r && r->bad ? " BAD" : " NO") + " no TLS\r\n"); return true; } reply(tag + " OK begin TLS\r\n" + c.inject_after_starttls, [this] { if (!inbuf.empty()) violate("imap.starttls.cleartext", "the client sent \"%s\" in the clear after STARTTLS", esc(inbuf).c_str()); start_tls(g_imap->cfg.tls); }); return true; }
		if (cmd == "LOGIN") { if (refused()) return true; need(2); g_imap->passages["login.user"] = s(0); if ((tls ? c.caps_tls : c.caps).count("LOGINDISABLED")) { g_imap->passages["login.disabled"] = "1"; reply(tag + " NO login is disabled\r\n"); return true; } if (c.login_ok && s(0) == c.user && s(1) == c.pass && (tls_ready || c.plain_auth_ok)) { done_login(tag); return true; } reply(tag + " NO invalid credentials\r\n"); return true; }
		if (cmd == "AUTHENTICATE") {
			need(1); std::string mech = upper(s(0)); if (r) { reply(tag + (r->bad ? " BAD" : " NO") + " refused\r\n"); return true; } auto& ms = mechs_of(c, tls); if (std::find(ms.begin(), ms.end(), mech) == ms.end()) violate("imap.auth.mech", "the client used mechanism %s that was not offered", mech.c_str());
			bool hi = t.size() > 1; if (hi && !(tls ? c.caps_tls : c.caps).count("SASL-IR")) { g_imap->passages["sasl.ir"] = "1"; count("imap.initial_response_without_sasl_ir"); }
			sasl = SaslSrv::create(mech, c.sasl, "imap"); if (!sasl) { reply(tag + " NO mechanism not available\r\n"); return true; } st = SASL; sasl_tag = tag; if (hi) { sasl_step(s(1) == "=" ? "" : s(1)); return true; }
			std::string o; int k = sasl->step("", false, o); if (k == 0) { if (c.sasl.bad_challenge == 0) { nontrivial(); count("fault.server.bad_challenge"); reply("+ " + (c.sasl.bad_raw ? c.sasl.bad_text : b64(c.sasl.bad_text)) + "\r\n"); return true; } reply("+ " + b64(o) + "\r\n"); return true; } st = NONAUTH; reply(tag + " NO failed\r\n"); return true;
		}
		violate("imap.state", "\"%s\" before the server accepted a login", esc(l).c_str());
	}
	if (cmd == "SELECT" || cmd == "EXAMINE") {
		need(1); std::string n = mutf7_dec(s(0)); if (t.size() > 1) { std::string o; for (size_t i = 1; i < t.size(); ++i) o += upper(t[i].substr(t[i] == "(" || t[i] == ")" ? 0 : 1)); if (o != "(CONDSTORE)") violate("imap.syntax", "unknown SELECT option %s", o.c_str()); if (!(tls ? c.caps_tls : c.caps).count("CONDSTORE")) violate("imap.caps", "SELECT (CONDSTORE) although CONDSTORE is not offered"); condstore = true; }
		auto b = g_imap->box(n); sel.reset(); if (st == SELECTED) st = AUTH; view.clear(); if (refused()) return true; if (!b || b->noselect) { reply(tag + " NO no such mailbox\r\n"); return true; }
		select_box(b, cmd == "EXAMINE" || b->readonly); size_t unseen = 0; for (size_t i = 0; i < view.size(); ++i) if (!view[i]->flags.count("\\Seen")) { unseen = i + 1; break; }
		std::vector<std::string> o = {fmt("* %zu EXISTS\r\n", view.size()), "* 0 RECENT\r\n", "* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft custom)\r\n", fmt("* OK [UIDVALIDITY %llu] ok\r\n", (unsigned long long) b->uidvalidity), fmt("* OK [UIDNEXT %llu] ok\r\n", (unsigned long long) b->uidnext), ro ? "* OK [PERMANENTFLAGS ()] none\r\n" : "* OK [PERMANENTFLAGS (\\Deleted \\Seen \\*)] limited\r\n"};
		if (unseen) o.push_back(fmt("* OK [UNSEEN %zu] first\r\n", unseen)); if ((tls ? c.caps_tls : c.caps).count("CONDSTORE")) o.push_back(fmt("* OK [HIGHESTMODSEQ %llu] ok\r\n", (unsigned long long) b->modseq));
		if (chance(c.shuffle, "srv.shuffle")) for (size_t k = o.size(); k > 1; --k) std::swap(o[k - 1], o[choose(u32(k), "srv.order")]); std::string a; for (auto& x : o) a += x;
		reply(a + tag + " OK [" + (ro ? "READ-ONLY" : "READ-WRITE") + "] selected\r\n"); count("imap.selects"); return true;
	}
	if (cmd == "LIST" || cmd == "LSUB") {
		need(2); std::string ref = mutf7_dec(s(0)); std::string pat = mutf7_dec(s(1)); if (refused()) return true; std::string dl = std::string("\"") + (c.delim == '\\' || c.delim == '"' ? "\\" : "") + c.delim + "\"";
		if (pat.empty()) { ok("* LIST (\\Noselect) " + dl + " \"\"\r\n", true); return true; } std::string full = ref + pat, o; if (upper(full) == "INBOX") full = "INBOX"; bool lite = r && r->late_data; (void) lite;
		auto boxes = g_imap->boxes; if (chance(c.shuffle, "srv.shuffle")) for (size_t k = boxes.size(); k > 1; --k) std::swap(boxes[k - 1], boxes[choose(u32(k), "srv.order")]);
		for (auto& b : boxes) if (wild(full.c_str(), b->name.c_str(), c.delim)) {
			std::vector<std::string> at; if (b->noselect) at.push_back("\\Noselect"); if (b->noinferiors) at.push_back("\\Noinferiors"); if ((tls ? c.caps_tls : c.caps).count("CHILDREN")) { bool k = false; for (auto& x : boxes) if (x->name.compare(0, b->name.size() + 1, b->name + c.delim) == 0) k = true; at.push_back(k ? "\\HasChildren" : "\\HasNoChildren"); } if (b->marked) at.push_back(b->marked == 1 ? "\\Marked" : "\\Unmarked"); if (!b->use.empty() && (tls ? c.caps_tls : c.caps).count("SPECIAL-USE")) at.push_back(b->use);
			std::string f; for (auto& x : at) f += (f.empty() ? "" : " ") + x; o += "* LIST (" + f + ") " + dl + " " + mbox(b->name) + "\r\n";
		}
		ok(o, true); return true;
	}
	if (cmd == "STATUS") {
		need(3); std::string n = mutf7_dec(s(0)); if (refused()) return true; auto b = g_imap->box(n); if (!b || b->noselect) { no("no such mailbox"); return true; } std::string o; u32 seen = 0; for (auto& m : b->msgs) if (!m->flags.count("\\Seen")) ++seen; if (t[1] != "(" || t.back() != ")") violate("imap.syntax", "bad STATUS \"%s\"", esc(l).c_str());
		std::vector<std::string> its; for (size_t i = 2; i + 1 < t.size(); ++i) { std::string a = upper(s(i)); u64 v; if (a == "MESSAGES") v = b->msgs.size(); else if (a == "RECENT") v = 0; else if (a == "UNSEEN") v = seen; else if (a == "UIDNEXT") v = b->uidnext; else if (a == "UIDVALIDITY") v = b->uidvalidity; else if (a == "HIGHESTMODSEQ") { if (!(tls ? c.caps_tls : c.caps).count("CONDSTORE")) violate("imap.caps", "HIGHESTMODSEQ although CONDSTORE is not offered"); v = b->modseq; } else violate("imap.syntax", "unknown STATUS item %s", a.c_str()); its.push_back(a + fmt(" %llu", (unsigned long long) v)); }
		if (its.empty()) violate("imap.syntax", "STATUS without items"); if (chance(c.shuffle, "srv.shuffle")) std::reverse(its.begin(), its.end()); for (auto& x : its) o += (o.empty() ? "" : " ") + x; ok("* STATUS " + mbox(b->name) + " (" + o + ")\r\n", true); return true;
	}
	if (cmd == "CREATE") {
		need(1); std::string n = mutf7_dec(s(0)); std::string use; bool only = false; if (t.size() > 1) { if (!(tls ? c.caps_tls : c.caps).count("CREATE-SPECIAL-USE")) violate("imap.caps", "CREATE (USE ...) although CREATE-SPECIAL-USE is not offered"); for (size_t i = 1; i < t.size(); ++i) if (t[i].size() > 1 && t[i][1] == '\\') use = t[i].substr(1); } if (refused()) return true;
		if (!n.empty() && n.back() == c.delim) { n.resize(n.size() - 1); only = true; } (void) only; if (n.empty() || g_imap->box(n)) { no("exists"); return true; }
		for (size_t p = n.find(c.delim); p != std::string::npos; p = n.find(c.delim, p + 1)) { if (p == 0 || n[p - 1] == c.delim) { no("empty level"); return true; } auto sup = g_imap->box(n.substr(0, p)); if (sup && sup->noinferiors) { no("no inferiors"); return true; } if (!sup) g_imap->add_box(n.substr(0, p))->noselect = true; }
		auto b = g_imap->add_box(n); b->use = use; ++g_imap->changes; ok("", true); return true;
	}
	if (cmd == "DELETE") { need(1); std::string n = mutf7_dec(s(0)); if (refused()) return true; auto b = g_imap->box(n); if (!b || n == "INBOX") { no("cannot delete"); return true; } bool kids = false; for (auto& x : g_imap->boxes) if (x->name.compare(0, n.size() + 1, n + c.delim) == 0) kids = true; if (kids && b->noselect) { no("has children"); return true; } ++g_imap->changes; for (auto& m : b->msgs) m->gone = true; if (kids) { b->msgs.clear(); b->noselect = true; } else g_imap->boxes.erase(std::remove(g_imap->boxes.begin(), g_imap->boxes.end(), b), g_imap->boxes.end()); ok("", true); return true; }
	if (cmd == "RENAME") {
		need(2); std::string a = mutf7_dec(s(0)), b = mutf7_dec(s(1)); if (refused()) return true; auto x = g_imap->box(a); if (!x || g_imap->box(b) || b.empty() || a == "INBOX" || (b + c.delim).compare(0, a.size() + 1, a + c.delim) == 0) { no("cannot rename"); return true; }
		for (size_t p = b.find(c.delim); p != std::string::npos; p = b.find(c.delim, p + 1)) if (!g_imap->box(b.substr(0, p))) g_imap->add_box(b.substr(0, p))->noselect = true;
		for (auto& y : g_imap->boxes) if (y->name == a) y->name = b; else if (y->name.compare(0, a.size() + 1, a + c.delim) == 0) y->name = b + y->name.substr(a.size()); ++g_imap->changes; ok("", true); return true;
	}
	if (cmd == "APPEND") {
		need(2); std::string n = mutf7_dec(s(0)); size_t i = 1; auto m = std::make_shared<ImapMsg>(); if (t[i] == "(") { for (++i; i < t.size() && t[i] != ")"; ++i) m->flags.insert(s(i)); ++i; } if (i < t.size() && t[i][0] == 'Q') m->idate = s(i++); if (i + 1 != t.size() || t[i][0] != 'L') violate("imap.syntax", "malformed APPEND \"%s\"", esc(l).c_str());
		m->data = t[i].substr(1); auto b = g_imap->box(n); if (late) { no("over quota"); return true; } if (!b || b->noselect) { reply(tag + " NO [TRYCREATE] no such mailbox\r\n"); return true; } g_imap->deliver(b, m); count("imap.appends"); g_imap->passages["last.append.uid"] = fmt("%llu", (unsigned long long) m->uid);
		std::string code = (tls ? c.caps_tls : c.caps).count("UIDPLUS") ? fmt("[APPENDUID %llu %llu] ", (unsigned long long) b->uidvalidity, (unsigned long long) m->uid) : ""; std::string u = updates_now(true); reply(u + tag + " OK " + code + "appended\r\n"); return true;
	}
	if (st != SELECTED) violate("imap.state", "\"%s\" while no mailbox is selected", esc(l).c_str());
	if (cmd == "CLOSE") { if (refused()) return true; if (!ro) for (auto& m : std::vector<ImapMsgP>(sel->msgs)) if (m->flags.count("\\Deleted")) { g_imap->removed.push_back(m); g_imap->expunge(sel, m); } sel.reset(); st = AUTH; view.clear(); reply(tag + " OK closed\r\n"); return true; }
	if (cmd == "CHECK") { if (refused()) return true; ok("", true); return true; }
	if (cmd == "EXPUNGE") {
		if (refused()) return true; if (ro) { no("read-only"); return true; } std::string o = updates_now(true), x; for (auto& m : std::vector<ImapMsgP>(sel->msgs)) if (m->flags.count("\\Deleted")) { g_imap->removed.push_back(m); g_imap->expunge(sel, m); }
		u32 sv = g_imap->cfg.noise; g_imap->cfg.noise = 0; x = updates_now(true, true); g_imap->cfg.noise = sv; reply(o + x + tag + " OK expunged\r\n"); count("imap.expunges"); return true;
	}
	if (cmd == "SEARCH") {
		if (refused()) return true; if (t.size() > 1 && upper(t[0]) == "ACHARSET") { t.erase(t.begin(), t.begin() + 2); } if (t.empty()) violate("imap.syntax", "SEARCH without keys"); std::string o; std::vector<u64> v;
		for (size_t i = 0; i < view.size(); ++i) { if (view[i]->gone && !c.retain) continue; size_t p = 0; bool hit = true; while (p < t.size()) hit = imap_search(t, p, *view[i], i + 1, *this) && hit; if (hit) v.push_back(uid ? view[i]->uid : i + 1); }
		if (view.empty()) { ImapMsg dummy; dummy.root = std::make_shared<Mime>(); } if (chance(c.shuffle, "srv.shuffle")) for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[choose(u32(k), "srv.order")]);
		o = "* SEARCH"; for (u64 x : v) o += fmt(" %llu", (unsigned long long) x); ok(o + "\r\n", uid); count("imap.searches"); return true;
	}
	if (cmd == "FETCH") { need(2); return do_fetch(tag, uid, t, r); }
	if (cmd == "STORE") {
		need(4); if (refused()) return true; auto set = seqset(s(0), uid); std::string mode = upper(s(1)); if (t[2] != "(" || t.back() != ")") violate("imap.syntax", "malformed STORE \"%s\"", esc(l).c_str()); std::set<std::string> f; for (size_t i = 3; i + 1 < t.size(); ++i) f.insert(s(i)); bool silent = mode.find(".SILENT") != std::string::npos; if (silent) mode.erase(mode.find(".SILENT")); if (mode != "FLAGS" && mode != "+FLAGS" && mode != "-FLAGS") violate("imap.syntax", "malformed STORE \"%s\"", esc(l).c_str());
		for (auto& x : f) if (x[0] == '\\' && x != "\\Seen" && x != "\\Answered" && x != "\\Flagged" && x != "\\Deleted" && x != "\\Draft") violate("imap.flags", "STORE of flag %s", x.c_str());
		if (set.size() == 1 && set[0] == size_t(-1)) { reply(updates_now(false) + tag + " BAD invalid message set\r\n"); return true; } if (ro) { no("read-only"); return true; } std::vector<ImapMsgP> ms; for (size_t i : set) ms.push_back(view[i]); std::string o; bool missing = false;
		for (auto& m : ms) if (m->gone) missing = true; if (missing && !uid) { no("[EXPUNGEISSUED] some messages no longer exist"); return true; }
		for (auto& m : ms) { if (m->gone) continue; g_imap->stored.push_back(m); auto n = m->flags; if (mode[0] == '+') n.insert(f.begin(), f.end()); else if (mode[0] == '-') for (auto& x : f) n.erase(x); else n = f; g_imap->set_flags(sel, m, n); size_t i = size_t(std::find(view.begin(), view.end(), m) - view.begin()); if (i >= view.size() || silent) continue; if (told[m.get()].flags == n && !chance(800, "srv.storeecho")) continue; std::string fl = fetch_flags(i, true); if (uid) fl = fmt("UID %llu ", (unsigned long long) m->uid) + fl; evlog.push_back({'f', m, i + 1}); o += fmt("* %zu FETCH (", i + 1) + fl + (condstore ? fmt(" MODSEQ (%llu)", (unsigned long long) m->modseq) : "") + ")\r\n"; }
		std::string u = updates_now(uid); reply(o + u + tag + " OK done\r\n"); count("imap.stores"); return true;
	}
	if (cmd == "COPY") {
		need(2); auto set = seqset(s(0), uid); std::string n = mutf7_dec(s(1)); if (refused()) return true; auto b = g_imap->box(n); if (set.size() == 1 && set[0] == size_t(-1)) { reply(updates_now(false) + tag + " BAD invalid message set\r\n"); return true; } if (!b || b->noselect) { reply(tag + " NO [TRYCREATE] no such mailbox\r\n"); return true; }
		std::string from, to; for (size_t i : set) if (view[i]->gone) { no("[EXPUNGEISSUED] some messages no longer exist"); return true; } for (size_t i : set) { auto m = std::make_shared<ImapMsg>(*view[i]); g_imap->deliver(b, m); from += (from.empty() ? "" : ",") + fmt("%llu", (unsigned long long) view[i]->uid); to += (to.empty() ? "" : ",") + fmt("%llu", (unsigned long long) m->uid); }
		std::string code = (tls ? c.caps_tls : c.caps).count("UIDPLUS") && !set.empty() ? "[COPYUID " + fmt("%llu ", (unsigned long long) b->uidvalidity) + from + " " + to + "] " : ""; std::string u = updates_now(uid); reply(u + tag + " OK " + code + "copied\r\n"); count("imap.copies"); return true;
	}
	violate("imap.unknown_command", "the server read \"%s\" as a command", esc(l, 200).c_str());
}
ImapCfg draw_imap() {
	ImapCfg c; c.literals = oneof<u32>({200, 0, 1000}, "srv.literals"); c.noise = oneof<u32>({0, 200, 600}, "srv.noise"); c.eager = oneof<u32>({1000, 500, 200}, "srv.eager"); c.shuffle = oneof<u32>({0, 500}, "srv.shuffle"); c.retain = !chance(400, "srv.noretain"); c.flag_uid = chance(400, "srv.flaguid"); c.lower = chance(200, "srv.lower"); c.ext_struct = !chance(200, "srv.noext");
	for (auto x : {"UIDPLUS", "CONDSTORE", "SPECIAL-USE", "CHILDREN", "CREATE-SPECIAL-USE"}) if (chance(500, "srv.cap")) c.caps.insert(x); c.caps_tls = c.caps; if (chance(300, "srv.capflip")) for (auto x : {"UIDPLUS", "CONDSTORE", "SPECIAL-USE", "CHILDREN", "CREATE-SPECIAL-USE"}) if (chance(400, "srv.flip")) c.caps_flip.insert(x); c.caps_in_greeting = chance(300, "srv.capgreet"); c.caps_in_login = chance(400, "srv.caplogin"); c.delim = oneof<char>({'/', '.'}, "srv.delim");
	c.proc = oneof<u64>({10, 1, 500, 100000}, "srv.proc"); if (chance(300, "srv.jit")) c.proc_jit = oneof<u64>({50, 5000}, "srv.procjit"); return c;
}
void imap_listen(const std::string& ip, int port) { Listener L; L.make = [] { return std::make_shared<ImapSess>(); }; net_listen(ip, port, L); }
}

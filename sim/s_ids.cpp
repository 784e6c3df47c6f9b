// U01: identifiers (Message-IDs, MIME boundaries, maildir file names) never repeat, and generating one ends.
#include "app.hpp"
#include "vmime/net/maildir/maildirUtils.hpp"
#include "vmime/utility/random.hpp"
#include "vmime/contentTypeField.hpp"
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unordered_set>
using namespace sim;
namespace {
std::string mid() { auto m = vmime::messageId::generateId(); return m.getId(); }
std::string mdid() { return vn::maildir::maildirUtils::generateId().getBuffer(); }
// the boundary of a freshly generated multipart
std::string boundary() {
	auto m = make_shared<vmime::message>(); auto p = make_shared<vmime::bodyPart>(); p->getBody()->setContents(make_shared<vmime::stringContentHandler>("x")); m->getBody()->appendPart(p);
	return m->getHeader()->getField<vmime::contentTypeField>(vmime::fields::CONTENT_TYPE)->getBoundary();
}
std::string one(u32 k) { return k == 0 ? mid() : k == 1 ? mdid() : boundary(); }
const char* NAMES[] = {"Message-ID", "maildir file name", "boundary"};
void clock_play() { switch (weighted({40, 15, 15, 15, 15}, "clock")) { case 1: skew(-1000000 * int64_t(1 + choose(10, "back"))); nontrivial(); break; case 2: skew(-int64_t(real_now() % 1000000) - 1); nontrivial(); break; case 3: advance(1000000); break; case 4: skew(-int64_t(now() % 3600000000ull)); nontrivial(); break; default:; } }
struct Seen { std::unordered_set<std::string> s[3]; size_t n = 0; void add(u32 k, const std::string& id) { ++n; CHECK(!id.empty(), "ids.empty", "an empty %s", NAMES[k]); CHECK(s[k].insert(id).second, "ids.repeated", "%s number %zu was generated before: %s", NAMES[k], n, id.c_str()); } };
}
// one process, very many identifiers, while the clock stands still or jumps
SCENARIO(U01, volume, 4) {
	app_init(); if (chance(300, "seed")) fs_urandom_next(oneof<std::string>({std::string(4, '\0'), std::string("\xff\xff\xff\x7f"), std::string("\xfe\xff\xff\xff"), std::string("\x01\0\0\0", 4), std::string(4, '\xff')}, "seed.special")), count("fault.urandom.special"); set_step_limit(6000000);
	u32 k = weighted({50, 35, 15}, "kind"); u32 n = k == 2 ? oneof<u32>({50, 3000, 12000}, "n") : oneof<u32>({50, 3000, 15000, 70000}, "n"); Seen seen; u64 per = n / 10 + 1;
	for (u32 i = 0; i < n; ++i) { if (i % per == per - 1) clock_play(); seen.add(k, one(k)); if (n > 3000 && i % 4096 == 0) state(i); }
	if (n >= 3000) nontrivial(); finish_checks();
}
// every seed: generation ends, the random strings use what they are given
SCENARIO(U01, seeds, 5) {
	app_init(); Rng r = subrng("seed"); u32 s = 0; switch (choose(4, "seed.how")) { case 0: s = u32(r.next()); break; case 1: s = oneof<u32>({0, 2147483647u, 4294967294u, 1, 2, 2147483646u, 4294967295u}, "seed.special"); break; case 2: s = 1u << r.below(32); break; default: s = r.below(100000); } std::string b(4, 0); memcpy(&b[0], &s, 4); fs_urandom_next(b); nontrivial(); state(s);
	set_work_limit(3000000); u32 n = oneof<u32>({20, 300, 1500}, "n"); Seen seen; for (u32 i = 0; i < n; ++i) { u32 k = choose(3, "kind"); seen.add(k, one(k)); }
	std::string cs = oneof<std::string>({"ab", "0123456789", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"}, "chars"); size_t len = choose(60, "len"); std::string x = vmime::utility::random::getString(len, cs); CHECK(x.size() == len && x.find_first_not_of(cs) == std::string::npos, "ids.string", "getString(%zu) gave %zu characters, or others than allowed", len, x.size());
	finish_checks();
}
// several threads at the same time
SCENARIO(U01, threads, 8) {
	app_init(); if (chance(500, "warm")) { one(0); one(1); one(2); } u32 g = oneof<u32>({0, 3, 12, 60, 400}, "bb.gap"); if (g) set_bb_preempt(g); else set_preempt(oneof<u32>({100, 500}, "preempt")); u32 n = 2 + choose(4, "threads"), per = 2 + choose(12, "per"); std::vector<std::vector<std::pair<u32, std::string>>> out(n); int pid = cur_pid();
	for (u32 i = 0; i < n; ++i) { std::vector<u32> ks; for (u32 j = 0; j < per; ++j) ks.push_back(choose(3, "kind")); spawn(fmt("thread%u", i), [&, i, ks] { set_pid(pid); for (u32 k : ks) out[i].emplace_back(k, one(k)); }); }
	join_all(); set_bb_preempt(0); set_preempt(0); Seen seen; u64 h = 3; for (auto& v : out) { CHECK(v.size() == per, "ids.thread", "a thread did not finish"); for (auto& x : v) { seen.add(x.first, x.second); h = fnvs(x.second, h); } } state(h); nontrivial(); finish_checks();
}
// processes that start, fork and end, reuse process ids, while the clock jumps
namespace {
// run f in a process of its own: it starts with what this process has in memory now
std::string in_process(int pid, u64 seed, const std::function<std::string()>& f) {
	int p[2]; if (syscall(SYS_pipe2, p, 0) < 0) violate("sim.pipe", "pipe"); long c = syscall(SYS_fork);
	if (c == 0) { set_pid(pid); core_detach(seed); fs_urandom_reseed(seed); std::string o = f(); size_t q = 0; while (q < o.size()) { long w = syscall(SYS_write, p[1], o.data() + q, o.size() - q); if (w <= 0) break; q += size_t(w); } syscall(SYS_exit_group, 0); }
	syscall(SYS_close, p[1]); std::string o; char b[8192]; long n; while ((n = syscall(SYS_read, p[0], b, sizeof b)) > 0) o.append(b, size_t(n)); syscall(SYS_close, p[0]); int st = 0; syscall(SYS_wait4, c, &st, 0, nullptr); CHECK(st == 0, "ids.process", "a process generating identifiers crashed (%d)", st); return o;
}
}
SCENARIO(U01, processes, 8) {
	app_init(); u32 uran = weighted({60, 15, 25}, "urandom"); if (uran == 1) fs_set_urandom(1), g_fs.eintr = 300; if (uran == 2) { fs_set_urandom(2); count("fault.urandom.missing"); } Rng r = subrng("processes"); u32 n = 2 + choose(6, "processes"); Seen seen; bool warm = chance(300, "forked"); int base = 100; set_pid(base); std::vector<std::pair<u32, std::string>> mine; std::set<std::pair<int, u64>> used; std::map<u64, u64> secs;
	// without random numbers, only the process id and the second tell processes apart
	bool weak = uran == 2; auto sec = [] { return real_now() / 1000000; };
	if (warm) { used.insert({base, sec()}); for (u32 k = 0; k < 3; ++k) seen.add(k, one(k)); }
	for (u32 i = 0; i < n; ++i) {
		int pid = base + int(choose(3, "pid")); if (warm && pid == base) ++pid; clock_play(); if (weak) while (used.count({pid, sec()}) || used.count({pid, sec() + 1})) { ++pid; if (warm && pid == base) ++pid; } u32 per = 1 + choose(5, "per"); std::vector<u32> ks; for (u32 j = 0; j < per; ++j) ks.push_back(choose(weak ? 2 : 3, "kind")); u64 s0 = sec();
		std::string o = in_process(pid, r.next(), [&] { std::string t; for (u32 k : ks) t += one(k) + "\n"; return t; }); used.insert({pid, s0}); used.insert({pid, s0 + 1}); auto l = split(o, '\n'); if (!l.empty() && l.back().empty()) l.pop_back(); CHECK(l.size() == ks.size(), "ids.process", "%zu identifiers instead of %zu", l.size(), ks.size()); for (u32 j = 0; j < per; ++j) seen.add(ks[j], l[j]); u64 h = 9; for (auto& x : l) h = fnvs(x, h); state(h);
		if (warm && !weak && chance(300, "parent")) { u32 k = choose(3, "kind"); seen.add(k, one(k)); }
	}
	nontrivial(); finish_checks();
}
// parts full of text that looks like delimiter lines, also those of messages generated just before
namespace {
struct Tree { std::string text; std::vector<Tree> kids; };
void tally(const vmime::bodyPart& p, std::string& o) { auto b = p.getBody(); if (b->getPartCount()) { o += "("; for (size_t i = 0; i < b->getPartCount(); ++i) tally(*b->getPartAt(i), o); o += ")"; } else { Sink s; b->getContents()->extract(s); o += fmt("[%zu:%llx]", s.d.size(), (unsigned long long) fnvs(s.d)); } }
void tally(const Tree& t, std::string& o) { if (!t.kids.empty()) { o += "("; for (auto& k : t.kids) tally(k, o); o += ")"; } else o += fmt("[%zu:%llx]", t.text.size(), (unsigned long long) fnvs(t.text)); }
}
SCENARIO(U01, delimiters, 6) {
	app_init(); Rng r = subrng("tree"); std::vector<std::string> old; set_work_limit(20000000);
	std::function<void(vmime::bodyPart&, Tree&, u32)> build = [&](vmime::bodyPart& p, Tree& t, u32 depth) {
		if (depth < 4 && (depth == 0 || r.below(3) == 0)) { u32 n = 1 + r.below(3); for (u32 i = 0; i < n; ++i) { auto c = make_shared<vmime::bodyPart>(); t.kids.emplace_back(); Tree k; build(*c, k, depth + 1); t.kids.back() = k; p.getBody()->appendPart(c); } old.push_back(p.getHeader()->getField<vmime::contentTypeField>(vmime::fields::CONTENT_TYPE)->getBoundary()); nontrivial(); }
		else { u32 n = r.below(6); for (u32 i = 0; i < n; ++i) switch (r.below(6)) { case 0: t.text += "--\r\n"; break; case 1: t.text += "--=_" + rnd_token(r, 5) + "\r\n"; break; case 2: if (!old.empty()) t.text += "--" + old[r.below(u32(old.size()))] + "\r\n"; break; case 3: if (!old.empty()) t.text += "--" + old[r.below(u32(old.size()))] + "--\r\n"; break; case 4: t.text += "--=_\r\n"; break; default: t.text += rnd_token(r, r.below(30)) + "\r\n"; } t.text += "x"; p.getBody()->setContents(make_shared<vmime::stringContentHandler>(t.text, vmime::encoding(vmime::encodingTypes::SEVEN_BIT))); }
	};
	u32 n = 1 + choose(4, "messages"); for (u32 i = 0; i < n; ++i) {
		if (chance(300, "clock")) clock_play(); std::set<std::string> before(old.begin(), old.end()); CHECK(before.size() == old.size(), "ids.repeated", "a boundary was used for two multiparts"); std::vector<std::string> usable = old; auto m = make_shared<vmime::message>(); Tree t; size_t k0 = old.size();
		// only boundaries of earlier messages, or of multiparts already closed, may appear in a part
		build(*m, t, 0); (void) k0; std::string want, got; tally(t, want); std::string g; { vmime::utility::outputStreamStringAdapter os(g); m->generate(os); } auto q = make_shared<vmime::message>(); q->parse(g); tally(*q, got); CHECK(got == want, "ids.delimiter", "the parts of a generated message are not the ones it was made of: %s instead of %s", got.c_str(), want.c_str()); old.push_back(vmime::messageId::generateId().getLeft()); state(fnvs(want));
	}
	finish_checks();
}

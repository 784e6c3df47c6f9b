// F02: the sendmail transport and the program behind it.
#include "app.hpp"
#include <signal.h>
using namespace sim;
namespace sim { std::string sim_signals(); }
namespace {
struct Job { std::string from, content; std::vector<std::string> to; bool sender = false; };
std::string addr(Rng& r) { std::string l = rnd_token(r, 1 + r.below(20)); switch (r.below(8)) { case 0: l = "-" + l; break; case 1: l += "+x-y_z.a"; break; case 2: l = rnd_token(r, 60); break; case 3: l += "=b!c#d"; break; default:; } std::string d = rnd_token(r, 1 + r.below(15)) + ".example"; if (r.below(10) == 0) { d = ""; for (int i = 0; i < 4; ++i) d += rnd_token(r, 40) + "."; d += "org"; } return l + "@" + d; }
Job draw_job(size_t ml) { Job j; Rng r = subrng("envelope"); j.from = addr(r); j.sender = r.below(3) == 0; u32 n = 1 + r.below(r.below(5) == 0 ? 30 : 4); for (u32 i = 0; i < n; ++i) j.to.push_back(addr(r)); j.content = "Subject: " + rnd_token(r, 8) + "\r\n\r\n" + draw_text(ml, rnd_token(r, 6)); u32 e = r.below(8); if (e == 0) j.content += "\r"; if (e == 1) j.content += "x\r\r\n\n\r"; if (e == 2) j.content = std::string(1, "\r\n"[r.below(2)]); return j; }
shared_ptr<vn::transport> make_tr() { auto s = vn::session::create(); s->getProperties()["transport.sendmail.binpath"] = std::string("/usr/sbin/sendmail"); return s->getTransport(vmime::utility::url("sendmail://localhost")); }
std::string joinv(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += "[" + x + "] "; return s; }
struct Res { Out o; bool src = false; };
Res send(shared_ptr<vn::transport> t, const Job& j, SrcCfg sc) {
	Res r; vmime::mailboxList rl; for (auto& a : j.to) rl.appendMailbox(make_shared<vmime::mailbox>(vmime::emailAddress(a))); vmime::mailbox from((vmime::emailAddress(j.sender ? std::string("other@x.y") : j.from))), sender; if (j.sender) sender = vmime::mailbox(vmime::emailAddress(j.from));
	bool up = chance(300, "progress"); Progress p; auto src = std::make_shared<Source>(j.content, sc); r.o = call(fmt("send %zu bytes to %zu", j.content.size(), j.to.size()), [&] { t->send(from, rl, *src, j.content.size(), up ? &p : nullptr, sender); }); r.src = src->failed; if (r.o.ok && up) CHECK(p.bad.empty() && p.st == 2, "sendmail.progress", "progress listener: %s", p.bad.c_str()); return r;
}
void verdict(const Job& j, const Res& r, std::shared_ptr<Program> p, bool healthy) {
	std::string want = unix_nl(j.content); std::vector<std::string> args = {"sendmail", "-i", "-f", j.from, "--"}; args.insert(args.end(), j.to.begin(), j.to.end());
	if (p) { CHECK(p->path == "/usr/sbin/sendmail", "sendmail.path", "%s was executed", p->path.c_str()); CHECK(p->argv == args, "sendmail.args", "wrong arguments: %s instead of %s", joinv(p->argv).c_str(), joinv(args).c_str()); CHECK(want.compare(0, p->in.size(), p->in) == 0, "sendmail.content", "the program got something else than the message: %s", diff_at(p->in, want).c_str()); }
	bool took = p && p->finished && p->eof && p->status == 0;        // the program would deliver what it got
	if (r.o.ok) { CHECK(!r.src, "sendmail.src_error_swallowed", "send() returned normally although reading the message failed"); if (p && p->finished && p->status == 0 && !p->eof && p->in.size() + std::max(g_prog.cap, 1u) >= want.size()) { nontrivial(); CHECK(p->reaped, "sendmail.zombie", "the child process was not waited for"); return; }  // it says that all is well: what it left in the pipe cannot be seen
		CHECK(took, "sendmail.lost", "send() returned normally, but the program %s", !p ? "was never started" : !p->eof ? "did not read the whole message" : "failed"); CHECK(p->in == want, "sendmail.content", "the program got something else than the message: %s", diff_at(p->in, want).c_str()); nontrivial(); }
	else { CHECK(!healthy || r.src, "sendmail.failed", "send() failed although nothing went wrong: %s %s", r.o.type.c_str(), r.o.what.c_str()); if (took && p->in != want) violate("sendmail.truncated", "send() failed, but the program took the first %zu of %zu bytes as the whole message", p->in.size(), want.size()); nontrivial(); }
	if (p) { CHECK(p->reaped, "sendmail.zombie", "the child process was not waited for"); }
}
void draw_prog(bool faults) {
	g_prog = ProgCfg(); g_prog.cap = oneof<u32>({65536, 4096, 100, 1}, "pipe.cap"); g_prog.pace = oneof<u32>({0, 500, 50000}, "prog.pace"); if (chance(400, "pipe.partial")) { g_prog.shortwr = 500; g_prog.eintr = oneof<u32>({0, 50, 300}, "pipe.eintr"); } if (chance(300, "wait.eintr")) g_prog.wait_eintr = 500;
	if (!faults) return;
	switch (choose(8, "prog.fault")) {
		case 1: g_prog.exit_code = oneof<int>({1, 75, 127, 255}, "exit"); break;
		case 2: g_prog.mode = 1; g_prog.stop_after = sized(70000, "stop"); g_prog.exit_code = oneof<int>({0, 1, 75}, "exit"); break;
		case 3: g_prog.mode = 2; g_prog.stop_after = sized(70000, "stop"); g_prog.exit_code = oneof<int>({0, 1}, "exit"); break;
		case 4: g_prog.signal = oneof<int>({SIGKILL, SIGSEGV, SIGTERM}, "signal"); if (chance(500, "early")) g_prog.stop_after = sized(70000, "stop"); break;
		case 5: g_prog.exists = false; break;
		case 6: if (chance(500, "fork")) g_prog.fork_err = oneof<int>({EAGAIN, ENOMEM}, "errno"); else g_prog.pipe_err = oneof<int>({EMFILE, ENFILE}, "errno"); break;
		case 7: g_prog.wait_err = ECHILD; break;
		default:;
	}
}
bool healthy() { return !g_prog.exit_code && g_prog.stop_after == ~0ull && !g_prog.signal && g_prog.exists && !g_prog.fork_err && !g_prog.pipe_err && !g_prog.wait_err; }
void end_checks() { CHECK(vfd_open_count() == 0, "sendmail.fdleak", "descriptors left open: %s", vfd_list().c_str()); CHECK(sim_signals().empty(), "sendmail.sigmask", "after the transport is gone %s", sim_signals().c_str()); finish_checks(); }
void world() { fs_put("/usr/sbin/sendmail", "x"); app_init(); if (chance(200, "sigpipe.ignored")) signal(SIGPIPE, SIG_IGN); }
}
static void series(bool faults) {
	world(); auto t = make_tr(); Out c = call("connect", [&] { t->connect(); }); CHECK(c.ok, "sendmail.connect", "connect() failed: %s", c.what.c_str()); u32 n = 1 + sized(3, "sends");
	for (u32 i = 0; i < n; ++i) {
		draw_prog(faults); if (faults && chance(300, "healthy again")) draw_prog(false); size_t ml = g_prog.cap < 200 || g_prog.pace > 1000 ? 3000 : oneof<size_t>({200, 5000, 200000}, "maxlen"); Job j = draw_job(ml); SrcCfg sc = draw_src(faults && chance(200, "src.fault"), j.content.size()); size_t before = g_programs.size(); if (sc.eof_at < j.content.size()) sc.eof_at = ~0ull;
		Res r = send(t, j, sc); advance(10000000); CHECK(g_programs.size() <= before + 1, "sendmail.twice", "the program was started %zu times", g_programs.size() - before); verdict(j, r, g_programs.size() > before ? g_programs.back() : nullptr, healthy()); CHECK(vfd_open_count() == 0, "sendmail.fdleak", "descriptors left open: %s", vfd_list().c_str());
	}
	call("disconnect", [&] { t->disconnect(); }); t = vmime::null; end_checks();
}
SCENARIO(F02, pace, 6) { series(false); }
SCENARIO(F02, faults, 10) { series(true); }
// message objects
SCENARIO(F02, message, 3) {
	world(); auto t = make_tr(); draw_prog(false); t->connect(); vmime::messageBuilder mb; Rng r = subrng("msg"); std::string from = addr(r), to = addr(r), cc = addr(r), bcc = "b" + rnd_token(r, 20) + "@hidden.example"; mb.setExpeditor(vmime::mailbox(vmime::emailAddress(from))); vmime::addressList al, cl, bl; bl.appendAddress(make_shared<vmime::mailbox>(vmime::emailAddress(bcc))); al.appendAddress(make_shared<vmime::mailbox>(vmime::emailAddress(to))); auto ccm = make_shared<vmime::mailbox>(vmime::emailAddress(cc)); if (chance(400, "group")) { auto g = make_shared<vmime::mailboxGroup>(vmime::text("friends")); g->appendMailbox(ccm); cl.appendAddress(g); } else cl.appendAddress(ccm); mb.setRecipients(al); mb.setCopyRecipients(cl); mb.setBlindCopyRecipients(bl); mb.setSubject(vmime::text("subject")); std::string body = draw_text(g_prog.cap < 200 || g_prog.pace > 1000 ? 1000 : 20000, "tok"); mb.getTextPart()->setText(make_shared<vmime::stringContentHandler>(body));
	auto m = mb.construct(); Out o = call("send message", [&] { t->send(m); }); CHECK(o.ok, "sendmail.failed", "send() failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str()); advance(1000000); CHECK(g_programs.size() == 1, "sendmail.twice", "%zu programs started", g_programs.size()); auto p = g_programs[0];
	std::vector<std::string> args = {"sendmail", "-i", "-f", from, "--", to, cc, bcc}; CHECK(p->argv == args, "sendmail.args", "wrong arguments"); std::string want; { vmime::utility::outputStreamStringAdapter os(want); m->getHeader()->removeAllFields("Bcc"); m->generate(os); } want = unix_nl(want);
	auto strip = [](const std::string& s) { std::string o; size_t h = s.find("\n\n"); if (h == std::string::npos) h = s.size(); bool skip = false; for (size_t i = 0; i < h;) { size_t e = s.find('\n', i); if (e == std::string::npos || e > h) e = h; else ++e; if (s[i] != ' ' && s[i] != '\t') skip = upper(s.substr(i, 11)) == "MESSAGE-ID:"; if (!skip) o.append(s, i, e - i); i = e; } if (!o.empty() && o.back() == '\n') o.pop_back(); return o + s.substr(h); };
	CHECK(p->eof && strip(p->in) == strip(want), "sendmail.content", "the program got something else than the message: %s", diff_at(strip(p->in), strip(want)).c_str()); CHECK(p->in.find("Message-Id:") != std::string::npos, "sendmail.message_id", "no Message-Id was added"); CHECK(p->in.find(bcc) == std::string::npos, "sendmail.bcc", "the Bcc recipient is disclosed"); nontrivial(); m = vmime::null; t = vmime::null; end_checks();
}
// several threads send at the same time
SCENARIO(F02, threads, 4) {
	world(); draw_prog(false); set_preempt(oneof<u32>({50, 300, 800}, "preempt")); u32 n = 2 + choose(3, "threads"); std::vector<Job> js; std::vector<Res> rs(n); for (u32 i = 0; i < n; ++i) { js.push_back(draw_job(g_prog.cap < 200 || g_prog.pace > 1000 ? 500 : 20000)); js.back().from = fmt("sender%u@x.y", i); }
	for (u32 i = 0; i < n; ++i) spawn(fmt("thread%u", i), [&, i] { auto t = make_tr(); t->connect(); rs[i] = send(t, js[i], SrcCfg()); });
	join_all(); set_preempt(0); advance(10000000); CHECK(g_programs.size() == n, "sendmail.twice", "%zu programs for %u messages", g_programs.size(), n);
	for (u32 i = 0; i < n; ++i) { std::shared_ptr<Program> p; for (auto& x : g_programs) if (x->argv.size() > 3 && x->argv[3] == js[i].from) p = x; verdict(js[i], rs[i], p, true); }
	end_checks();
}
// F03: child processes with any combination of redirected streams.
SCENARIO(F03, child, 10) {
	namespace vu = vmime::utility; fs_put("/usr/bin/prog", "x"); app_init(); if (chance(200, "sigpipe.ignored")) signal(SIGPIPE, SIG_IGN); u32 rounds = 1 + choose(3, "rounds");
	for (u32 r = 0; r < rounds; ++r) {
		bool faults = chance(350, "faults"); draw_prog(faults); bool in = chance(500, "stdin"), out = chance(800, "stdout"); Rng q = subrng("bytes"); size_t max = g_prog.cap < 200 || g_prog.pace > 1000 ? 3000 : oneof<size_t>({200, 5000, 200000}, "max"); if (out) g_prog.out = gen_bytes(q, sized(u32(max), "out.len"), int(q.below(8))); std::string data; if (in) data = gen_bytes(q, sized(u32(max), "in.len"), int(q.below(8)));
		std::vector<std::string> args; for (u32 i = choose(4, "args"); i; --i) args.push_back(rnd_token(q, q.below(20))); size_t before = g_programs.size(); std::string got; bool eof = false, all = false; bool leave = out && chance(100, "leave"); const std::string want = g_prog.out; size_t stop = leave ? choose(u32(want.size() + 1), "leave.at") : ~size_t(0);
		Out o = call(fmt("child stdin=%d stdout=%d", int(in), int(out)), [&] {
			auto cp = vmime::platform::getHandler()->getChildProcessFactory()->create(vmime::platform::getHandler()->getFileSystemFactory()->stringToPath("/usr/bin/prog"));
			cp->start(args, (in ? vu::childProcess::FLAG_REDIRECT_STDIN : 0) | (out ? vu::childProcess::FLAG_REDIRECT_STDOUT : 0));
			if (out) { auto is = cp->getStdOut(); CHECK(is != nullptr, "child.nostdout", "no stream for the redirected standard output"); std::vector<vmime::byte_t> buf(5000);
				while (!is->eof() && got.size() < stop && (!in || got.size() < want.size())) { size_t k = oneof<size_t>({4096, 1, 7, 500, 5000}, "buf"); if (in) k = std::min(k, want.size() - got.size()); if (chance(60, "skip")) { k = std::min(k, want.size() - got.size()); size_t n = is->skip(k); CHECK(n <= k, "child.skip", "skip(%zu) skipped %zu bytes", k, n); if (n < k && !faults) violate("child.skip", "skip(%zu) skipped only %zu bytes, %zu bytes were left", k, n, want.size() - got.size()); CHECK(got.size() + n <= want.size(), "child.output", "more bytes than the program wrote were skipped"); got.append(want, got.size(), n); if (n < k) break; continue; } size_t n = is->read(buf.data(), k); CHECK(n <= k, "child.read", "read(%zu) returned %zu", k, n); got.append(reinterpret_cast<char*>(buf.data()), n); if (!n) { CHECK(is->eof(), "child.eof", "read() returned nothing, but the end of the stream is not signalled"); break; } }
				eof = is->eof(); CHECK(want.compare(0, got.size(), got) == 0, "child.output", "the caller read something else than the program wrote: %s", diff_at(got, want).c_str()); }
			if (leave) { if (chance(500, "leave.how")) return; }
			if (in && got.size() == want.size()) { auto os = cp->getStdIn(); CHECK(os != nullptr, "child.nostdin", "no stream for the redirected standard input"); for (size_t p = 0; p < data.size(); ) { size_t k = std::min(oneof<size_t>({4096, 1, 7, 500, 50000}, "piece"), data.size() - p); os->write(reinterpret_cast<const vmime::byte_t*>(data.data()) + p, k); p += k; } os->flush(); }
			if (!out || got.size() == want.size()) { cp->waitForFinish(); all = true; }
		});
		advance(10000000); CHECK(g_programs.size() <= before + 1, "child.twice", "the program was started %zu times", g_programs.size() - before); auto p = g_programs.size() > before ? g_programs.back() : nullptr; if (p && !p->exec_failed) { std::vector<std::string> av = {"prog"}; av.insert(av.end(), args.begin(), args.end()); CHECK(p->path == "/usr/bin/prog" && p->argv == av, "child.args", "%s was executed with %s", p->path.c_str(), joinv(p->argv).c_str()); }
		if (p) CHECK(data.compare(0, p->in.size(), p->in) == 0, "child.input", "the program read something else than the caller wrote: %s", diff_at(p->in, data).c_str());
		if (!o.ok) CHECK(!healthy(), "child.failed", "the child process failed although nothing went wrong: %s %s", o.type.c_str(), o.what.c_str());
		else if (all) { CHECK(p && p->finished && p->reaped, "child.zombie", "waitForFinish() returned, but the program has not been waited for"); CHECK(p->status == 0 || g_prog.wait_err, "child.status", "waitForFinish() returned normally, the program ended with status %#x", p->status); if (healthy()) { CHECK(got == want, "child.output", "the program wrote %zu bytes, the caller got %zu", want.size(), got.size()); CHECK(p->in == data, "child.input", "the caller wrote %zu bytes, the program got %zu", data.size(), p->in.size()); CHECK(!out || in || leave || eof, "child.eof", "the end of the output was not signalled"); } nontrivial(); }
		CHECK(vfd_open_count() == 0, "child.fdleak", "descriptors left open: %s", vfd_list().c_str());
	}
	CHECK(sim_signals().empty(), "child.sigmask", "afterwards %s", sim_signals().c_str()); finish_checks();
}

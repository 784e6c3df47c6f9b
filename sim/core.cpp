#include "core.hpp"
#include "runner.hpp"
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <queue>
#include <fcntl.h>
#include <sys/mman.h>
#include <unordered_set>

namespace sim {

std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }

u64 fnv(const void* p, size_t n, u64 h) {
	const unsigned char* c = static_cast<const unsigned char*>(p);
	for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
	return h;
}
std::string esc(const std::string& s, size_t max) {
	std::string o;
	for (size_t i = 0; i < s.size(); ++i) {
		if (o.size() >= max) { o += fmt("...(%zu)", s.size()); break; }
		unsigned char c = s[i];
		if (c == '\r') o += "\\r"; else if (c == '\n') o += "\\n"; else if (c == '\\') o += "\\\\";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += char(c);
	}
	return o;
}
std::string fmt(const char* f, ...) {
	char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

// ------------------------------------------------------------------ run state
Shared* g_sh = nullptr;
static bool g_active = false;
static bool g_replay = false;
static std::vector<u32> g_in; static size_t g_inpos = 0;
static Rng g_rng(0);
static std::vector<u32> g_outbuf;
static u64 g_now = 0, g_steps = 0, g_limit = 800000; static int64_t g_skew = 0;
struct Ev { u64 t, seq; std::shared_ptr<std::function<void()>> fn; bool operator<(const Ev& o) const { return t != o.t ? t > o.t : seq > o.seq; } };
static std::priority_queue<Ev>* g_ev; static u64 g_seq = 0;
static std::unordered_set<u64>* g_states;
static bool g_inev = false;

bool active() { return g_active; }
void set_active(bool a) { g_active = a; }
u64 now() { return g_now; }
static const u64 EPOCH = 1790000000ull * 1000000ull;  // simulated wall clock starts in September 2026
u64 real_now() { return EPOCH + g_now + g_skew; }
void skew(int64_t us) { g_skew += us; tr("clock jump %lld", (long long) us); count("fault.clock_jump"); }
u64 steps() { return g_steps; }
void set_step_limit(u64 n) { g_limit = n; }

void core_start(Shared* sh, u64 seed, const std::vector<u32>* tape) {
	g_sh = sh;
	g_replay = tape != nullptr;
	if (tape) g_in = *tape;
	g_rng = Rng(seed);
	g_ev = new std::priority_queue<Ev>;
	g_states = new std::unordered_set<u64>;
	sh->status = ST_RUNNING; sh->hash = 1469598103934665603ull; sh->ntape = 0; sh->ncount = 0; sh->nstates = 0; sh->tracelen = 0; sh->nontrivial = 0;
	sh->sig[0] = sh->msg[0] = 0; sh->steps = sh->simtime = 0; sh->tapeovf = 0;
}

static void finish(int st) {
	g_active = false;
	g_sh->status = st; g_sh->steps = g_steps; g_sh->simtime = g_now;
	_exit(0);
}
void core_finish_ok() { finish(ST_OK); }
void end_run() { finish(ST_OK); }

static bool g_detached = false;
void core_detach(u64 seed) { g_detached = true; g_replay = false; g_rng = Rng(seed); }
static u32 cell(u32 gen) {
	u32 v;
	if (g_detached) return gen;
	if (g_replay) v = g_inpos < g_in.size() ? g_in[g_inpos++] : 0;
	else v = gen;
	if (g_sh->ntape < MAXTAPE) g_sh->tape[g_sh->ntape++] = v; else g_sh->tapeovf = 1;
	return v;
}
static void fix_last(u32 v) { if (!g_detached && !g_sh->tapeovf) g_sh->tape[g_sh->ntape - 1] = v; }

u32 choose(u32 n, const char*) {
	if (n <= 1) return 0;
	u32 v = cell(g_replay ? 0 : g_rng.below(n));
	if (v >= n) { v %= n; fix_last(v); }
	return v;
}
bool chance(u32 pm, const char*) {
	if (pm == 0) return false;
	u32 v = cell(g_replay ? 0 : (g_rng.below(1000) < pm ? 1 : 0));
	if (v > 1) { v = 1; fix_last(v); }
	return v != 0;
}
u32 weighted(std::initializer_list<u32> w, const char*) {
	u32 tot = 0; for (u32 x : w) tot += x;
	u32 pickv = 0;
	if (!g_replay) { u32 r = g_rng.below(tot); for (u32 x : w) { if (r < x) break; r -= x; ++pickv; } }
	u32 v = cell(pickv);
	if (v >= w.size()) { v %= w.size(); fix_last(v); }
	return v;
}
u32 sized(u32 max, const char*) {
	u32 v = 0;
	if (!g_replay) {
		switch (g_rng.below(6)) {
			case 0: v = g_rng.below(4); break;
			case 1: v = g_rng.below(20); break;
			case 2: v = g_rng.below(200); break;
			case 3: { u32 b = 1u << g_rng.below(17); v = b + g_rng.below(5); v = v >= 2 ? v - 2 : v; break; }
			case 4: v = max ? g_rng.below(max) : 0; break;
			default: v = g_rng.below(64); break;
		}
		if (v > max) v = max ? g_rng.below(max + 1) : 0;
	}
	v = cell(v);
	if (v > max) { v = max ? v % (max + 1) : 0; fix_last(v); }
	return v;
}
Rng subrng(const char*) { return Rng(cell(g_replay ? 0 : u32(g_rng.next()))); }

static void append_trace(const char* b, size_t n) {
	if (g_sh->tracelen + n + 1 < MAXTRACE) { memcpy(g_sh->trace + g_sh->tracelen, b, n); g_sh->tracelen += n; g_sh->trace[g_sh->tracelen++] = '\n'; }
}
void tr(const char* f, ...) {
	char b[600]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a);
	if (n < 0) n = 0; if (n >= int(sizeof b)) n = sizeof b - 1;
	g_sh->hash = fnv(b, n, g_sh->hash);
	char c[660]; int m = snprintf(c, sizeof c, "[%llu.%06llu t%d] %s", (unsigned long long) (g_now / 1000000), (unsigned long long) (g_now % 1000000), cur_thread(), b);
	append_trace(c, m);
}
void note(const char* f, ...) {
	char b[600]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a);
	if (n >= int(sizeof b)) n = sizeof b - 1;
	append_trace(b, n);
}
void count(const char* name, u64 k) {
	for (u32 i = 0; i < g_sh->ncount; ++i) if (!strcmp(g_sh->counts[i].name, name)) { g_sh->counts[i].v += k; return; }
	if (g_sh->ncount < MAXCOUNT) { Counter& c = g_sh->counts[g_sh->ncount++]; snprintf(c.name, sizeof c.name, "%s", name); c.v = k; }
}
void state(u64 h) {
	if (g_sh->nstates < MAXSTATE && g_states->insert(h).second) g_sh->states[g_sh->nstates++] = h;
}
void nontrivial() { g_sh->nontrivial = 1; }
static std::vector<std::string>* g_lenient;
void lenient(const std::vector<std::string>& p) { g_lenient = new std::vector<std::string>(p); }
void violate(const char* sig, const char* f, ...) {
	if (g_lenient) for (auto& p : *g_lenient) if (strncmp(sig, p.c_str(), p.size()) == 0) { count("lenient.end"); tr("(run ends: %s)", sig); end_run(); }
	snprintf(g_sh->sig, sizeof g_sh->sig, "%s", sig);
	va_list a; va_start(a, f); vsnprintf(g_sh->msg, sizeof g_sh->msg, f, a); va_end(a);
	tr("VIOLATION %s: %s", sig, g_sh->msg);
	finish(ST_VIOLATION);
	abort();
}

// ------------------------------------------------------------------ events
void at(u64 t, std::function<void()> fn) {
	if (t < g_now) t = g_now;
	g_ev->push({t, g_seq++, std::make_shared<std::function<void()>>(std::move(fn))});
}
static void run_due() {
	if (g_inev) return;
	g_inev = true;
	u64 n = 0;
	while (!g_ev->empty() && g_ev->top().t <= g_now) {
		Ev e = g_ev->top(); g_ev->pop();
		(*e.fn)();
		if (++n > 1000000) { violate("sim.event_storm", "simulator event storm"); }
	}
	g_inev = false;
}
void tick(u64 us) { g_now += us; run_due(); }
void advance(u64 dt) {
	u64 end = g_now + dt;
	while (!g_ev->empty() && g_ev->top().t <= end) { if (g_ev->top().t > g_now) g_now = g_ev->top().t; run_due(); }
	g_now = end;
	run_due();
}

// ------------------------------------------------------------------ threads
struct Thr {
	int id; std::string name; std::function<void()> fn;
	std::condition_variable cv; bool done = false, blocked = false, run = false;
	std::function<bool()> pred; u64 deadline = 0; const char* what = ""; int pid = 4242;
	std::thread th;
};
static std::vector<Thr*> g_thr; static thread_local Thr* t_cur = nullptr; static thread_local bool t_over = false;   // t_over: only destructors of thread-local objects are left, which run unseen
static std::mutex g_mx; static bool g_killed = false;
static Thr* g_main = nullptr;
void* core_mutex() { return g_mx.native_handle(); }

static void init_threads() { if (!g_main) { g_main = new Thr; g_main->id = 0; g_main->name = "main"; g_main->run = true; g_thr.push_back(g_main); t_cur = g_main; } }
int cur_thread() { return t_cur ? t_cur->id : 0; }
int cur_pid() { init_threads(); return t_cur ? t_cur->pid : 4242; }
void set_pid(int p) { init_threads(); t_cur->pid = p; }
bool killed() { return g_killed; }
void kill_threads() { g_killed = true; }

static void switch_to(Thr* t) {
	Thr* me = t_cur;
	if (t == me) return;
	std::unique_lock<std::mutex> lk(g_mx);
	me->run = false; t->run = true; t->cv.notify_one();
	me->cv.wait(lk, [&] { return me->run; });
}
static bool ready(Thr* t) { return !t->done && !(g_killed && t != g_main) && (!t->blocked || (g_killed && t == g_main) || (t->pred && t->pred()) || (t->deadline && g_now >= t->deadline)); }

int spawn(const std::string& name, std::function<void()> fn) {
	init_threads();
	Thr* t = new Thr; t->id = int(g_thr.size()); t->name = name; t->fn = std::move(fn); t->pid = 5000 + t->id;
	g_thr.push_back(t);
	t->th = std::thread([t] {
		{ std::unique_lock<std::mutex> lk(g_mx); t->cv.wait(lk, [&] { return t->run; }); }
		t_cur = t;
		try { t->fn(); } catch (std::exception& e) { violate("sim.thread_exception", "simulated client %s ended with an uncaught exception: %s", t->name.c_str(), e.what()); }
		t->done = true;
		// hand the baton to somebody
		std::vector<Thr*> r;
		while (true) {
			for (Thr* x : g_thr) if (x != t && ready(x)) r.push_back(x);
			if (!r.empty()) break;
			if (g_ev->empty()) {
				u64 d = 0; for (Thr* x : g_thr) if (!x->done && x->deadline && (!d || x->deadline < d)) d = x->deadline;
				if (!d) violate("sim.deadlock", "all simulated threads are blocked");
				g_now = d;
			} else { u64 nt = g_ev->top().t; for (Thr* x : g_thr) if (!x->done && x->blocked && x->deadline && x->deadline < nt) nt = x->deadline; if (nt > g_now) g_now = nt; run_due(); }
		}
		Thr* n = r[choose(u32(r.size()), "sched.exit")];
		std::unique_lock<std::mutex> lk(g_mx);
		t_over = true; t->run = false; n->run = true; n->cv.notify_one();
	});
	t->th.detach();
	return t->id;
}

// Every basic block of vmime calls this (-fsanitize-coverage=trace-pc): a deterministic work budget,
// and preemption points between any two basic blocks.
static u64 g_work = 0, g_worklimit = 400000000; static bool g_bb = false; static u64 g_bbleft = 0; static int g_nopre = 0; static u32 g_bbmax = 4000;
static void bb_switch();
u64 work() { return g_work; }
void set_work_limit(u64 n) { g_worklimit = n; }
void no_preempt(int d) { g_nopre += d; }
void set_bb_preempt(u32 maxgap) { g_bb = maxgap != 0; g_bbmax = maxgap; g_bbleft = g_bb ? 1 + sized(maxgap, "sched.gap") : 0; }
// SIM_COV=FILE: which basic blocks of VMime were executed, one byte per code address, shared by all runs (see tools/coverage.py)
extern "C" char __executable_start, etext;
static unsigned char* g_cov = [] () -> unsigned char* { const char* f = getenv("SIM_COV"); if (!f) return nullptr; size_t n = size_t(&etext - &__executable_start); int fd = ::open(f, O_RDWR | O_CREAT, 0644); if (fd < 0 || ::ftruncate(fd, off_t(n))) return nullptr; void* m = ::mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); return m == MAP_FAILED ? nullptr : static_cast<unsigned char*>(m); }();
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc() {
	if (!g_active || t_over) return;
	if (g_cov) g_cov[static_cast<char*>(__builtin_return_address(0)) - &__executable_start] = 1;
	if (++g_work > g_worklimit) { g_work = 0; violate("hang.work", "the operation executed more than %llu basic blocks since the last system call: endless loop (simulated time %.3fs)", (unsigned long long) g_worklimit, double(g_now) / 1e6); }
	if (g_bb && !g_nopre && !g_inev && g_thr.size() > 1 && g_bbleft && --g_bbleft == 0) bb_switch();
}
static u32 g_preempt = 0; // per mille probability of a preemption at a system call
void set_preempt(u32 pm) { g_preempt = pm; }

static void maybe_switch() {
	if (g_thr.size() <= 1 || g_inev) return;
	if (!chance(g_preempt, "sched.preempt")) return;
	std::vector<Thr*> r;
	for (Thr* x : g_thr) if (x != t_cur && ready(x)) r.push_back(x);
	if (r.empty()) return;
	Thr* n = r[choose(u32(r.size()), "sched.pick")];
	tr("switch to t%d", n->id); count("sched.switch");
	switch_to(n);
}

static void bb_switch() {
	g_active = false;
	std::vector<Thr*> r;
	for (Thr* x : g_thr) if (x != t_cur && ready(x)) r.push_back(x);
	g_bbleft = 1 + sized(g_bbmax, "sched.gap");
	if (!r.empty() && !t_cur->done) { Thr* n = r[choose(u32(r.size()), "sched.bb")]; tr("switch to t%d inside a function", n->id); count("sched.bb_switch"); g_active = true; switch_to(n); }
	g_active = true;
}
// after a crash nothing but the main thread (the test driver) ever runs again
static void die_if_killed() { if (g_killed && t_cur != g_main) while (true) switch_to(g_main); }

void step(const char* what) {
	init_threads();
	g_work = 0;
	die_if_killed();
	if (++g_steps > g_limit) violate("hang.steps", "no completion after %llu simulated system calls (last: %s) at simulated time %.3fs: the operation makes no progress", (unsigned long long) g_steps, what, double(g_now) / 1e6);
	tick(1);
	maybe_switch();
	die_if_killed();
}

bool block(const std::function<bool()>& pred, u64 deadline, const char* what) {
	init_threads();
	if (pred()) return true;
	Thr* me = t_cur;
	while (true) {
		die_if_killed();
		if (pred()) return true;
		if (deadline && g_now >= deadline) return false;
		me->blocked = true; me->pred = pred; me->deadline = deadline; me->what = what;
		std::vector<Thr*> r;
		for (Thr* x : g_thr) if (x != me && ready(x)) r.push_back(x);
		if (!r.empty()) {
			Thr* n = r[choose(u32(r.size()), "sched.block")];
			switch_to(n);
		} else {
			u64 t = 0;
			for (Thr* x : g_thr) if (!x->done && x->blocked && x->deadline && (!t || x->deadline < t)) t = x->deadline;
			if (!g_ev->empty() && (!t || g_ev->top().t < t)) t = g_ev->top().t;
			if (!t) { violate("hang.forever", "blocked for ever in %s at simulated time %.3fs: nothing can ever wake it up", what, double(g_now) / 1e6); }
			if (t > g_now) g_now = t;
			run_due();
		}
		me->blocked = false; me->pred = nullptr; me->deadline = 0;
	}
}

void join_all() {
	init_threads();
	block([] { if (g_killed) return true; for (Thr* x : g_thr) if (x != g_main && !x->done) return false; return true; }, 0, "join");
}

} // sim

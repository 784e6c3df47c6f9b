// Runner: every simulated execution is a forked child, fully determined by (scenario, tape).
#include "runner.hpp"
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <cxxabi.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_set>
#include <atomic>

using namespace sim;

extern "C" const char* __asan_default_options() {
	return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:"
	       "handle_abort=0:quarantine_size_mb=16:symbolize=1:allow_user_segv_handler=0:detect_odr_violation=0:"
	       "max_malloc_fill_size=4096:malloc_fill_byte=190";
}

static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static u64 mix(u64 a, u64 b) { u64 z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15; z ^= z >> 31; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 29; z *= 0x94D049BB133111EBull; z ^= z >> 32; return z; }

static Shared* new_shared() {
	void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(2); }
	return static_cast<Shared*>(p);
}
static int new_memfd() { int fd = memfd_create("sim-err", 0); if (fd < 0) { perror("memfd"); exit(2); } return fd; }

static void on_terminate() {
	std::string what = "no active exception";
	if (std::exception_ptr e = std::current_exception()) {
		try { std::rethrow_exception(e); }
		catch (std::exception& x) { int st = 0; char* n = abi::__cxa_demangle(typeid(x).name(), nullptr, nullptr, &st); what = std::string(n ? n : typeid(x).name()) + ": " + x.what(); }
		catch (...) { what = "exception of unknown type"; }
	}
	violate("crash.terminate", "std::terminate called: %s", what.c_str());
}
static void on_cpu(int) { violate("hang.cpu", "the operation used 12 s of CPU time without any system call that advances it: endless loop"); }

static const int CPU_LIMIT = 12;
static void child_main(Shared* sh, const Scenario& sc, u64 seed, const std::vector<u32>* tape, int errfd) {
	dup2(errfd, 2); dup2(errfd, 1);
	rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	std::set_terminate(on_terminate);
	signal(SIGVTALRM, on_cpu);
	itimerval it = {}; it.it_value.tv_sec = CPU_LIMIT; setitimer(ITIMER_VIRTUAL, &it, nullptr);
	core_start(sh, seed, tape);
	tr("scenario %s.%s", sc.prop, sc.name);
	try { sc.fn(); }
	catch (std::exception& e) { set_active(false); violate("scenario.exception", "exception escaped to the simulated application: %s: %s", typeid(e).name(), e.what()); }
	core_finish_ok();
}

struct Result { int status; std::string sig, msg; u64 hash; std::string err; bool hung; };

static std::string slurp(int fd) {
	off_t n = lseek(fd, 0, SEEK_END); if (n <= 0) return "";
	if (n > 200000) n = 200000;
	std::string s(n, 0); ssize_t r = pread(fd, &s[0], n, 0); s.resize(r > 0 ? r : 0); return s;
}
static std::string crash_sig(const std::string& err, int wst, std::string& msg) {
	std::string type, frame;
	size_t p = err.find("ERROR: AddressSanitizer: ");
	if (p != std::string::npos) { p += 25; size_t e = err.find_first_of(" :\n", p); type = err.substr(p, e - p); }
	else if ((p = err.find("Assertion '")) != std::string::npos) { type = "assertion"; }
	else if (WIFSIGNALED(wst) && WTERMSIG(wst) == SIGALRM) { msg = "the run did not end within 100 s of real time (it normally takes some milliseconds)"; return "hang.wall"; }
	else if (WIFSIGNALED(wst)) type = fmt("signal%d", WTERMSIG(wst));
	else type = fmt("exit%d", WEXITSTATUS(wst));
	std::istringstream is(err); std::string l;
	while (std::getline(is, l)) {
		if (l.find("    #") != 0) continue;
		size_t in = l.find(" in "); if (in == std::string::npos) continue;
		std::string fn = l.substr(in + 4);
		if (fn.find("vmime::") == 0 || fn.find("/src/vmime/") != std::string::npos) { frame = fn.substr(0, fn.find_first_of("( ")); break; }
	}
	if (frame.empty() && type == "assertion") { size_t a = err.rfind('\n', p); frame = err.substr(a == std::string::npos ? 0 : a + 1, 60); for (char& c : frame) if (c == ' ' || c == '\n') c = '_'; }
	msg = err.substr(0, 2500);
	return "crash." + type + (frame.empty() ? "" : "." + frame);
}

static Result run_one(Shared* sh, const Scenario& sc, u64 seed, const std::vector<u32>* tape, int errfd) {
	ftruncate(errfd, 0); lseek(errfd, 0, SEEK_SET);
	sh->status = ST_NONE; sh->tracelen = 0; sh->ntape = 0; sh->ncount = 0; sh->nstates = 0; sh->hash = 0; sh->sig[0] = sh->msg[0] = 0;
	fflush(stdout);
	pid_t p = fork();
	if (p < 0) { perror("fork"); exit(2); }
	if (p == 0) { alarm(100); child_main(sh, sc, seed, tape, errfd); _exit(99); }
	int st = 0; double t0 = wall(); bool wallkill = false;
	// blocking wait with a wall-clock safety net (a simulated run never sleeps for real)
	for (int spin = 0;; ++spin) {
		pid_t r = waitpid(p, &st, spin < 20 ? WNOHANG : 0);
		if (r == p) break;
		if (spin < 20) usleep(100);
	}
	(void) t0; (void) wallkill;
	Result r; r.status = sh->status; r.hash = sh->hash; r.hung = false;
	if (sh->status == ST_RUNNING || sh->status == ST_NONE) {
		r.err = slurp(errfd);
		r.sig = crash_sig(r.err, st, r.msg);
		r.status = ST_VIOLATION;
		snprintf(sh->sig, sizeof sh->sig, "%s", r.sig.c_str());
	} else { r.sig = sh->sig; r.msg = sh->msg; }
	return r;
}

// ------------------------------------------------------------------ replay files
static std::string jstr(const std::string& s) {
	std::string o = "\"";
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += c; }
	return o + "\"";
}
static void write_replay(const std::string& path, const Scenario& sc, u64 seed, u64 index, const Result& r, const std::vector<u32>& tape, size_t origlen, Shared* sh) {
	std::ofstream f(path);
	f << "{\n \"property\": " << jstr(sc.prop) << ",\n \"scenario\": " << jstr(sc.name) << ",\n \"verif_seed\": " << seed << ",\n \"run_index\": " << index
	  << ",\n \"signature\": " << jstr(r.sig) << ",\n \"message\": " << jstr(r.msg) << ",\n \"trace_hash\": \"" << fmt("%016llx", (unsigned long long) r.hash)
	  << "\",\n \"original_tape_length\": " << origlen << ",\n \"tape\": [";
	for (size_t i = 0; i < tape.size(); ++i) f << (i ? "," : "") << tape[i];
	f << "],\n \"trace\": [\n";
	std::string t(sh->trace, sh->tracelen); std::istringstream is(t); std::string l; bool first = true;
	while (std::getline(is, l)) { f << (first ? "" : ",\n") << "  " << jstr(l); first = false; }
	f << "\n ]\n}\n";
}
static std::string jfield(const std::string& t, const std::string& k) {
	size_t p = t.find("\"" + k + "\": "); if (p == std::string::npos) return "";
	p += k.size() + 4; if (t[p] == '"') { size_t e = t.find("\"", p + 1); return t.substr(p + 1, e - p - 1); }
	if (t[p] == '[') { size_t e = t.find("]", p); return t.substr(p + 1, e - p - 1); }
	size_t e = t.find_first_of(",\n", p); return t.substr(p, e - p);
}
static std::vector<u32> parse_tape(const std::string& s) { std::vector<u32> v; std::istringstream is(s); std::string x; while (std::getline(is, x, ',')) v.push_back(u32(strtoul(x.c_str(), nullptr, 10))); return v; }
static const Scenario* find_scen(const std::string& p, const std::string& n) { for (auto& s : scenarios()) if (p == s.prop && n == s.name) return &s; return nullptr; }

static std::vector<const Scenario*> prop_scens(const std::string& p) { std::vector<const Scenario*> v; for (auto& s : scenarios()) if (p == s.prop) v.push_back(&s); std::sort(v.begin(), v.end(), [](const Scenario* a, const Scenario* b) { return strcmp(a->name, b->name) < 0; }); return v; }
static const Scenario& pick_scen(const std::vector<const Scenario*>& v, u64 seed, u64 i, const char* only) {
	if (only) for (auto s : v) if (!strcmp(s->name, only)) return *s;
	u32 tot = 0; for (auto s : v) tot += s->weight;
	u32 r = u32(mix(seed ^ 0x5ca1ab1e, i) % tot);
	for (auto s : v) { if (r < s->weight) return *s; r -= s->weight; }
	return *v[0];
}
static u64 run_seed(u64 seed, const std::string& prop, u64 i) { return mix(mix(seed, fnvs(prop)), i); }

// ------------------------------------------------------------------ batch
struct Known { std::string prop, sig, text; };
static std::vector<Known> load_known(const std::string& path) {
	std::vector<Known> v; std::ifstream f(path); std::string l;
	while (std::getline(f, l)) {
		if (l.compare(0, 6, "known:") != 0) continue;     // "known: property=ID sig=SIG text"
		std::istringstream is(l.substr(6)); std::string a, b; is >> a >> b; std::string rest; std::getline(is, rest);
		if (a.compare(0, 9, "property=") == 0 && b.compare(0, 4, "sig=") == 0) v.push_back({a.substr(9), b.substr(4), rest});
	}
	return v;
}

struct BatchShared { std::atomic<u64> min_viol; std::atomic<u32> stop; };
struct Agg {
	u64 again = 0, differ = 0, runs = 0, nontriv = 0, steps = 0, simtime = 0, tapes = 0; std::map<std::string, u64> counts, runs_with, scen, known;
	std::unordered_set<u64> hashes, states;
	std::string sample;
};

static void worker(int w, int W, const std::string& prop, u64 seed, u64 runs, double tend, const std::vector<Known>& known, BatchShared* bs, const std::string& dir, const char* only, bool dump) {
	Shared* sh = new_shared(); int errfd = new_memfd(); Agg a;
	auto v = prop_scens(prop); std::ofstream hs; if (dump) hs.open(dir + fmt("/h%d", w));
	for (u64 i = w; i < runs; i += W) {
		if (i > bs->min_viol.load() || wall() > tend) break;
		const Scenario& sc = pick_scen(v, seed, i, only);
		Result r = run_one(sh, sc, run_seed(seed, prop, i), nullptr, errfd);
		if (dump) hs << i << " " << fmt("%016llx", (unsigned long long) r.hash) << " " << r.sig << "\n";
		++a.runs; ++a.scen[sc.name]; a.steps += sh->steps; a.simtime += sh->simtime; a.tapes += sh->ntape;
		for (u32 k = 0; k < sh->ncount; ++k) { a.counts[sh->counts[k].name] += sh->counts[k].v; ++a.runs_with[sh->counts[k].name]; }
		for (u32 k = 0; k < sh->nstates; ++k) a.states.insert(sh->states[k]);
		if (sh->nontrivial && a.hashes.insert(r.hash).second) ++a.nontriv;
		if (a.sample.empty() && sh->nontrivial && sh->tracelen > 200) a.sample = std::string(sc.name) + " run " + std::to_string(i) + "\n" + std::string(sh->trace, std::min<u64>(sh->tracelen, 6000));
		if (r.status != ST_VIOLATION && i % 61 == 7) {   // the same seed once more: is the simulation repeatable?
			Result r2 = run_one(sh, sc, run_seed(seed, prop, i), nullptr, errfd); ++a.again; if (r2.hash != r.hash || r2.status != r.status) { ++a.differ; fprintf(stderr, "not repeatable: %s run %llu\n", prop.c_str(), (unsigned long long) i); }
		}
		if (r.status == ST_VIOLATION) {
			bool kn = false;
			for (auto& k : known) if (k.prop == prop && k.sig == r.sig) { kn = true; ++a.known[k.sig]; }
			if (!kn && !dump) {
				u64 m = bs->min_viol.load(); while (i < m && !bs->min_viol.compare_exchange_weak(m, i)) { }
				std::ofstream f(dir + "/v" + std::to_string(i)); for (u32 k = 0; k < sh->ntape; ++k) f << sh->tape[k] << ",";
				break;
			}
		}
	}
	std::ofstream f(dir + fmt("/w%d", w));
	f << a.runs << " " << a.nontriv << " " << a.steps << " " << a.simtime << " " << a.tapes << " " << a.again << " " << a.differ << "\n";
	auto dumpm = [&](const std::map<std::string, u64>& m) { f << m.size() << "\n"; for (auto& x : m) f << x.first << " " << x.second << "\n"; };
	dumpm(a.counts); dumpm(a.runs_with); dumpm(a.scen); dumpm(a.known);
	f << a.hashes.size() << "\n"; for (u64 h : a.hashes) f << h << "\n";
	f << a.states.size() << "\n"; for (u64 h : a.states) f << h << "\n";
	f << a.sample; f.close();
	_exit(0);
}

static std::vector<u32> tape_of(Shared* sh) { return std::vector<u32>(sh->tape, sh->tape + sh->ntape); }

static std::vector<u32> minimise(Shared* sh, int errfd, const Scenario& sc, std::vector<u32> best, const std::string& sig, double budget, u64& tries) {
	double tend = wall() + budget; tries = 0;
	auto test = [&](std::vector<u32> t) -> bool {
		++tries;
		Result r = run_one(sh, sc, 0, &t, errfd);
		if (r.status != ST_VIOLATION || r.sig != sig) return false;
		std::vector<u32> used = tape_of(sh);
		while (!used.empty() && used.back() == 0) used.pop_back();
		// accept only if simpler: shorter, or fewer non-zero cells, or smaller sum
		auto cost = [](const std::vector<u32>& x) { u64 nz = 0, sum = 0; for (u32 c : x) { nz += c != 0; sum += c; } return std::make_tuple(nz, u64(x.size()), sum); };
		if (cost(used) < cost(best)) { best = used; return true; }
		return false;
	};
	while (!best.empty() && best.back() == 0) best.pop_back();
	bool progress = true;
	while (progress && wall() < tend) {
		progress = false;
		for (size_t n = best.size(); n > 0 && wall() < tend; n /= 2) {          // truncate / remove / zero chunks
			for (size_t pos = 0; pos < best.size() && wall() < tend;) {
				size_t k = std::min(n, best.size() - pos); bool hit = false;
				bool allz = true; for (size_t j = 0; j < k; ++j) if (best[pos + j]) allz = false;
				if (!allz) { std::vector<u32> t = best; std::fill(t.begin() + pos, t.begin() + pos + k, 0u); if (test(t)) { progress = hit = true; } }
				if (!hit && pos + k <= best.size()) { std::vector<u32> t = best; t.erase(t.begin() + pos, t.begin() + pos + k); if (test(t)) { progress = hit = true; continue; } }
				pos += k;
			}
			if (n == 1) break;
		}
		for (size_t pos = 0; pos < best.size() && wall() < tend; ++pos) {
			if (best[pos] > 1) { for (u32 nv : {1u, best[pos] / 2, best[pos] - 1}) { if (pos >= best.size() || best[pos] <= nv) break; std::vector<u32> t = best; t[pos] = nv; if (test(t)) { progress = true; break; } } }
		}
	}
	return best;
}

static std::string arg(int argc, char** argv, const char* n, const char* d) { for (int i = 0; i + 1 < argc; ++i) if (!strcmp(argv[i], n)) return argv[i + 1]; return d; }
static bool flag(int argc, char** argv, const char* n) { for (int i = 0; i < argc; ++i) if (!strcmp(argv[i], n)) return true; return false; }
static std::string self_exe() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); return n > 0 ? std::string(b, n) : "sim"; }

static int cmd_check(const std::string& prop, int argc, char** argv) {
	u64 seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10), runs = strtoull(arg(argc, argv, "--runs", "1000").c_str(), nullptr, 10);
	double secs = atof(arg(argc, argv, "--secs", "60").c_str()); int W = atoi(arg(argc, argv, "--workers", "8").c_str());
	std::string out = arg(argc, argv, "--out", "/verif/out"), stats = arg(argc, argv, "--stats", ""), onlys = arg(argc, argv, "--scenario", "");
	const char* only = onlys.empty() ? nullptr : onlys.c_str(); bool dump = flag(argc, argv, "--hashes");
	auto known = load_known(arg(argc, argv, "--known", "/dev/null"));
	auto v = prop_scens(prop);
	if (v.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
	char dirt[] = "/tmp/simXXXXXX"; if (!mkdtemp(dirt)) { perror("mkdtemp"); return 2; }
	std::string dir = dirt; double t0 = wall();
	BatchShared* bs = static_cast<BatchShared*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	new (bs) BatchShared; bs->min_viol = ~0ull; bs->stop = 0;
	std::vector<pid_t> ps;
	for (int w = 0; w < W; ++w) { pid_t p = fork(); if (p < 0) { perror("fork"); return 2; } if (p == 0) worker(w, W, prop, seed, runs, t0 + secs, known, bs, dir, only, dump); ps.push_back(p); }
	bool bad = false;
	for (pid_t p : ps) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) bad = true; }
	double dt = wall() - t0;
	Agg a; std::string sample;
	for (int w = 0; w < W; ++w) {
		std::ifstream f(dir + fmt("/w%d", w)); u64 x[7] = {}; for (u64& y : x) f >> y;
		a.runs += x[0]; a.steps += x[2]; a.simtime += x[3]; a.tapes += x[4]; a.again += x[5]; a.differ += x[6];
		auto rd = [&](std::map<std::string, u64>& m) { size_t n = 0; f >> n; for (size_t i = 0; i < n; ++i) { std::string k; u64 c; f >> k >> c; m[k] += c; } };
		rd(a.counts); rd(a.runs_with); rd(a.scen); rd(a.known);
		size_t n = 0; f >> n; for (size_t i = 0; i < n; ++i) { u64 h; f >> h; a.hashes.insert(h); }
		n = 0; f >> n; for (size_t i = 0; i < n; ++i) { u64 h; f >> h; a.states.insert(h); }
		if (a.sample.empty()) { std::string l; std::getline(f, l); while (std::getline(f, l)) a.sample += l + "\n"; }
	}
	int rc = 0; std::string replay; u64 viol = 0, mi = bs->min_viol.load(); std::string vsig;
	if (dump) { for (int w = 0; w < W; ++w) { std::ifstream f(dir + fmt("/h%d", w)); std::string l; while (std::getline(f, l)) puts(l.c_str()); } }
	if (bad) { fprintf(stderr, "a worker process died\n"); rc = 2; }
	else if (mi != ~0ull) {
		viol = 1;
		Shared* sh = new_shared(); int errfd = new_memfd();
		const Scenario& sc = pick_scen(v, seed, mi, only); u64 rs = run_seed(seed, prop, mi);
		Result r1 = run_one(sh, sc, rs, nullptr, errfd); std::vector<u32> tape = tape_of(sh); bool ovf = sh->tapeovf;
		Result r2 = run_one(sh, sc, rs, nullptr, errfd);
		if (r1.status != ST_VIOLATION || r1.sig != r2.sig || (r1.hash != r2.hash && r1.sig != "hang.cpu")) { fprintf(stderr, "NOT REPRODUCIBLE: %s run %llu: '%s' %016llx / '%s' %016llx\n", prop.c_str(), (unsigned long long) mi, r1.sig.c_str(), (unsigned long long) r1.hash, r2.sig.c_str(), (unsigned long long) r2.hash); rc = 2; }
		else {
			u64 tries = 0; vsig = r1.sig; std::vector<u32> best = tape; size_t orig = tape.size();
			if (!ovf) best = minimise(sh, errfd, sc, tape, r1.sig, r1.sig == "hang.cpu" ? 60 : atof(arg(argc, argv, "--minsecs", "20").c_str()), tries);
			Result r3 = run_one(sh, sc, 0, &best, errfd);
			if (r3.status != ST_VIOLATION || r3.sig != r1.sig) { best = tape; r3 = run_one(sh, sc, 0, &best, errfd); }
			mkdir(out.c_str(), 0777);
			replay = out + fmt("/%s-seed%llu-run%llu.replay.json", prop.c_str(), (unsigned long long) seed, (unsigned long long) mi);
			write_replay(replay, sc, seed, mi, r3, best, orig, sh);
			// fresh process
			std::string cmd = "'" + self_exe() + "' replay '" + replay + "' >/dev/null 2>&1"; int st = system(cmd.c_str());
			if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { fprintf(stderr, "NOT REPRODUCIBLE in a fresh process: %s (%d)\n", replay.c_str(), st); rc = 2; }
			else {
				printf("violated: %s (scenario %s, run %llu, seed %llu): %s\n", r3.sig.c_str(), sc.name, (unsigned long long) mi, (unsigned long long) seed, esc(r3.msg, 1500).c_str());
				printf("minimised tape: %zu of %zu choices, %llu attempts\n", best.size(), orig, (unsigned long long) tries);
				printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay.c_str());
				rc = 1;
			}
		}
	}
	for (auto& k : known) if (k.prop == prop && !dump) {
		u64 n = a.known.count(k.sig) ? a.known[k.sig] : 0;
		printf("KNOWN-FINDING: property=%s %s%s (seen in %llu of %llu runs)\n", prop.c_str(), k.sig.c_str(), k.text.c_str(), (unsigned long long) n, (unsigned long long) a.runs);
	}
	if (!stats.empty()) {
		std::ofstream f(stats);
		f << "{\"runs\":" << a.runs << ",\"distinct_nontrivial\":" << a.hashes.size() << ",\"steps\":" << a.steps << ",\"sim_us\":" << a.simtime << ",\"choices\":" << a.tapes << ",\"states\":" << a.states.size() << ",\"again\":" << a.again << ",\"differ\":" << a.differ << ",\"search_s\":" << dt << ",\"wall_s\":" << (wall() - t0) << ",\"workers\":" << W << ",\"violations\":" << viol << ",\"violation_sig\":" << jstr(vsig) << ",\"replay\":" << jstr(replay);
		auto dm = [&](const char* n, std::map<std::string, u64>& m) { f << ",\"" << n << "\":{"; bool first = true; for (auto& x : m) { f << (first ? "" : ",") << jstr(x.first) << ":" << x.second; first = false; } f << "}"; };
		dm("counts", a.counts); dm("runs_with", a.runs_with); dm("scenarios", a.scen); dm("known", a.known);
		f << ",\"sample\":" << jstr(a.sample) << "}\n";
	}
	if (!dump) printf("%s: %llu runs in %.1fs (%.0f/h), %zu distinct non-trivial, %llu simulated calls, %.0f s simulated, %zu states\n", prop.c_str(), (unsigned long long) a.runs, dt, a.runs / dt * 3600, a.hashes.size(), (unsigned long long) a.steps, a.simtime / 1e6, a.states.size());
	for (int w = 0; w < W; ++w) { unlink((dir + fmt("/w%d", w)).c_str()); unlink((dir + fmt("/h%d", w)).c_str()); }
	{ std::string c = "rm -f '" + dir + "'/v*; rmdir '" + dir + "'"; if (system(c.c_str())) { } }
	return rc;
}

int main(int argc, char** argv) {
	// identical addresses in every process, where the kernel allows it
	int per = personality(0xffffffff);
	if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
		setenv("SIM_REEXEC", "1", 1); setenv("TZ", "UTC", 1); setenv("LC_ALL", "C", 1);
		personality(per | ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv);
	}
	setenv("TZ", "UTC", 1); setenv("LC_ALL", "C", 1);
	setvbuf(stdout, nullptr, _IOLBF, 0);
	if (argc < 2) { fprintf(stderr, "usage: sim list | check PROP .. | run PROP INDEX | replay FILE\n"); return 2; }
	std::string c = argv[1];
	if (c == "list") { for (auto& s : scenarios()) printf("%s %s %u\n", s.prop, s.name, s.weight); return 0; }
	if (c == "check" && argc > 2) return cmd_check(argv[2], argc, argv);
	if (c == "run" && argc > 3) {
		u64 seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10), i = strtoull(argv[3], nullptr, 10);
		std::string onlys = arg(argc, argv, "--scenario", "");
		Shared* sh = new_shared(); int e = new_memfd(); auto v = prop_scens(argv[2]); if (v.empty()) return 2;
		const Scenario& sc = pick_scen(v, seed, i, onlys.empty() ? nullptr : onlys.c_str());
		Result r = run_one(sh, sc, run_seed(seed, argv[2], i), nullptr, e);
		fwrite(sh->trace, 1, sh->tracelen, stdout);
		for (u32 k = 0; k < sh->ncount; ++k) printf("# %s %llu\n", sh->counts[k].name, (unsigned long long) sh->counts[k].v);
		std::string er = slurp(e); if (!er.empty()) printf("stderr: %s\n", er.c_str());
		printf("%s %016llx tape %u steps %llu: %s %s\n", r.status == ST_OK ? "ok" : "VIOLATED", (unsigned long long) r.hash, sh->ntape, (unsigned long long) sh->steps, r.sig.c_str(), r.msg.substr(0, 3000).c_str());
		return r.status == ST_OK ? 0 : 1;
	}
	if (c == "replay" && argc > 2) {
		std::ifstream f(argv[2]); std::stringstream ss; ss << f.rdbuf(); std::string t = ss.str();
		const Scenario* sc = find_scen(jfield(t, "property"), jfield(t, "scenario")); if (!sc) { fprintf(stderr, "bad replay file\n"); return 2; }
		std::vector<u32> tape = parse_tape(jfield(t, "tape"));
		Shared* sh = new_shared(); int e = new_memfd();
		Result r = run_one(sh, *sc, 0, &tape, e);
		fwrite(sh->trace, 1, sh->tracelen, stdout);
		bool same = r.status == ST_VIOLATION && r.sig == jfield(t, "signature") && (r.sig == "hang.cpu" || fmt("%016llx", (unsigned long long) r.hash) == jfield(t, "trace_hash"));
		if (r.status == ST_VIOLATION) printf("violated: %s: %s\n", r.sig.c_str(), r.msg.c_str());
		if (same) { printf("VIOLATION property=%s replay=%s\n", sc->prop, argv[2]); return 1; }
		printf(r.status == ST_VIOLATION ? "a different violation than the recorded one\n" : "not violated on this tree\n");
		return r.status == ST_VIOLATION ? 3 : 0;
	}
	return 2;
}

// Descriptor table, clock, identity, locks, pipes and processes of the simulated host.
#include "world.hpp"
#include "os.hpp"
#include "runner.hpp"
#include <cstdlib>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <sys/ioctl.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <new>

namespace sim {

static const int FD0 = 600;
static std::map<int, std::shared_ptr<VFile>>* g_fd; static size_t g_fdmax = 400;
static std::map<int, int>* g_std;                    // in a forked child: real 0/1/2 -> virtual
static std::map<int, std::shared_ptr<VFile>>& fdt() { if (!g_fd) g_fd = new std::map<int, std::shared_ptr<VFile>>; return *g_fd; }
bool is_vfd(int fd) { return fd >= FD0 && fd < FD0 + 424; }
std::shared_ptr<VFile> vfd_get(int fd) { auto i = fdt().find(fd); return i == fdt().end() ? nullptr : i->second; }
void vfd_limit(size_t n) { g_fdmax = n; }
int vfd_new(std::shared_ptr<VFile> f) {
	if (fdt().size() >= g_fdmax) { count("fault.emfile"); errno = EMFILE; return -1; }
	int fd = FD0; for (auto& x : fdt()) { if (x.first != fd) break; ++fd; }
	++f->refs; fdt()[fd] = f; return fd;
}
int vfd_close(int fd) {
	auto i = fdt().find(fd); if (i == fdt().end()) { count("probe.close_of_closed_fd"); errno = EBADF; return -1; }
	auto f = i->second; fdt().erase(i);
	if (--f->refs == 0) f->last_close();
	return 0;
}
size_t vfd_open_count(const char* k) { size_t n = 0; for (auto& x : fdt()) if (!k || !strcmp(k, x.second->kind())) ++n; return n; }
std::string vfd_list() { std::string s; for (auto& x : fdt()) s += fmt(" %d:%s", x.first, x.second->kind()); return s; }

// ------------------------------------------------------------------ pipes and programs
ProgCfg g_prog;
std::vector<std::shared_ptr<Program>> g_programs;
struct Pipe { std::string buf; int writers = 0, readers = 0; };
struct PipeEnd : VFile {
	std::shared_ptr<Pipe> p; bool wr;
	PipeEnd(std::shared_ptr<Pipe> pp, bool w) : p(pp), wr(w) { (w ? p->writers : p->readers)++; }
	const char* kind() const override { return "pipe"; }
	void last_close() override { (wr ? p->writers : p->readers)--; }
	short poll_events() override { if (wr) return p->readers == 0 ? POLLERR : p->buf.size() < g_prog.cap ? POLLOUT : 0; return p->buf.size() ? POLLIN : p->writers == 0 ? POLLHUP : 0; }
	ssize_t read(void* b, size_t n) override {
		if (wr) { errno = EBADF; return -1; }
		if (g_prog.eintr && chance(g_prog.eintr, "pipe.eintr")) { count("fault.eintr"); errno = EINTR; return -1; }
		auto pp = p; if (!(flags & O_NONBLOCK)) block([pp] { return !pp->buf.empty() || pp->writers == 0; }, 0, "read(pipe)");
		if (p->buf.empty()) { if (p->writers) { errno = EAGAIN; return -1; } return 0; }
		size_t k = std::min(n, p->buf.size()); memcpy(b, p->buf.data(), k); p->buf.erase(0, k); return k;
	}
	ssize_t write(const void* b, size_t n) override {
		if (!wr) { errno = EBADF; return -1; }
		auto pp = p;
		size_t done = 0; const char* d = static_cast<const char*>(b);
		if (n == 0) return 0;
		if (g_prog.eintr && chance(g_prog.eintr, "pipe.eintr")) { count("fault.eintr"); errno = EINTR; return -1; }
		while (done < n) {
			if (p->readers == 0) {
				count("fault.proc.epipe");
				if (done) return done;
				errno = EPIPE; sigpipe(); return -1;
			}
			size_t room = g_prog.cap > p->buf.size() ? g_prog.cap - p->buf.size() : 0;
			if (!room) {
				if (flags & O_NONBLOCK) { if (done) return done; errno = EAGAIN; return -1; }
				// a signal handler interrupting a blocked write after part was transferred: short write
				if (done && g_prog.shortwr && chance(g_prog.shortwr, "pipe.short")) { count("fault.pipe.short_write"); return done; }
				block([pp] { return pp->readers == 0 || pp->buf.size() < g_prog.cap; }, 0, "write(pipe)"); continue;
			}
			size_t k = std::min(room, n - done); p->buf.append(d + done, k); done += k;
		}
		return done;
	}
	static void sigpipe();
};
static bool g_sigpipe_ignored = false;
static std::map<int, std::pair<sigset_t, sigset_t>>* g_sig;                      // thread -> blocked, pending
static std::pair<sigset_t, sigset_t>& mysig() { if (!g_sig) g_sig = new std::map<int, std::pair<sigset_t, sigset_t>>; auto i = g_sig->find(cur_thread()); if (i == g_sig->end()) { i = g_sig->emplace(cur_thread(), std::pair<sigset_t, sigset_t>()).first; sigemptyset(&i->second.first); sigemptyset(&i->second.second); } return i->second; }
std::string sim_signals() { std::string r; if (g_sig) for (auto& x : *g_sig) for (int i = 1; i < 32; ++i) if (sigismember(&x.second.first, i)) r += fmt("%s signal %d is still blocked", r.empty() ? "" : ",", i); return r; }
void PipeEnd::sigpipe() {
	if (g_sigpipe_ignored) return;
	if (sigismember(&mysig().first, SIGPIPE)) sigaddset(&mysig().second, SIGPIPE); else violate("signal.sigpipe", "write() to a pipe whose reader is gone: SIGPIPE would kill the application");
}

struct Proc { int pid; std::shared_ptr<Program> prog; std::map<int, std::shared_ptr<VFile>> fds; };
static std::map<int, std::shared_ptr<Proc>>* g_procs; static int g_nextpid = 9000;

static void proc_close_all(Proc& p) { auto m = p.fds; p.fds.clear(); for (auto& x : m) if (--x.second->refs == 0) x.second->last_close(); }
static void proc_exit(std::shared_ptr<Proc> p, int status) { if (p->prog->finished) return; p->prog->status = status; p->prog->finished = true; tr("program %d ends, status %#x, %zu bytes read", p->pid, status, p->prog->in.size()); proc_close_all(*p); }
static void proc_run(std::shared_ptr<Proc> p) {
	if (p->prog->finished) return;
	auto in = p->fds.count(0) ? std::dynamic_pointer_cast<PipeEnd>(p->fds[0]) : nullptr;
	u64 pace = g_prog.pace ? 1 + choose(g_prog.pace, "prog.pace") : 20;
	if (p->prog->wrote < g_prog.out.size()) {
		auto out = p->fds.count(1) ? std::dynamic_pointer_cast<PipeEnd>(p->fds[1]) : nullptr;
		if (!out) p->prog->wrote = g_prog.out.size();   // somewhere else
		else if (out->p->readers == 0) { count("fault.proc.stdout_closed"); proc_exit(p, SIGPIPE); return; }
		else { size_t room = g_prog.cap > out->p->buf.size() ? g_prog.cap - out->p->buf.size() : 0, k = std::min(room, g_prog.out.size() - p->prog->wrote); if (g_prog.pace) k = std::min<size_t>(k, 1 + choose(4096, "prog.chunk")); out->p->buf.append(g_prog.out, p->prog->wrote, k); p->prog->wrote += k; }
		after(pace, [p] { proc_run(p); }); return;
	}
	size_t total = p->prog->in.size();
	if (total >= g_prog.stop_after) {
		if (g_prog.signal) { count("fault.proc.signal"); proc_exit(p, g_prog.signal); return; }
		if (g_prog.mode == 1) { count("fault.proc.early_exit"); proc_exit(p, g_prog.exit_code << 8); return; }
		if (g_prog.mode == 2 && in) { count("fault.proc.closed_stdin"); auto f = p->fds[0]; p->fds.erase(0); if (--f->refs == 0) f->last_close(); after(pace * 3 + 50000, [p] { proc_exit(p, g_prog.exit_code << 8); }); return; }
	}
	if (!in) { p->prog->eof = true; proc_exit(p, g_prog.exit_code << 8); return; }
	auto& buf = in->p->buf;
	if (!buf.empty()) {
		size_t k = buf.size(); if (g_prog.pace) k = std::min<size_t>(k, 1 + choose(4096, "prog.chunk"));
		if (g_prog.stop_after != ~0ull) k = std::min<size_t>(k, std::max<u64>(1, g_prog.stop_after - total));
		p->prog->in += buf.substr(0, k); buf.erase(0, k);
		after(pace, [p] { proc_run(p); }); return;
	}
	if (in->p->writers == 0) { p->prog->eof = true; if (g_prog.signal) { count("fault.proc.signal"); proc_exit(p, g_prog.signal); } else proc_exit(p, g_prog.exit_code << 8); return; }
	after(pace, [p] { proc_run(p); });
}

void os_reset() { fdt().clear(); g_fdmax = 400; }
} // sim
using namespace sim;

extern "C" {
#define REAL(ret, name, args) ret __real_##name args
REAL(ssize_t, read, (int, void*, size_t)); REAL(ssize_t, write, (int, const void*, size_t)); REAL(int, close, (int));
REAL(int, fcntl, (int, int, ...)); REAL(time_t, time, (time_t*)); REAL(int, gettimeofday, (struct timeval*, void*));
REAL(int, clock_gettime, (clockid_t, struct timespec*)); REAL(pid_t, getpid, ()); REAL(pid_t, gettid, ());
REAL(int, pipe, (int*)); REAL(int, pipe2, (int*, int)); REAL(int, dup2, (int, int)); REAL(int, dup, (int)); REAL(pid_t, fork, ()); REAL(int, execv, (const char*, char* const*));
REAL(int, execve, (const char*, char* const*, char* const*)); REAL(int, execvp, (const char*, char* const*));
REAL(pid_t, waitpid, (pid_t, int*, int)); REAL(void, _exit, (int)); REAL(int, sigprocmask, (int, const sigset_t*, sigset_t*)); REAL(int, pthread_sigmask, (int, const sigset_t*, sigset_t*));
REAL(int, sigaction, (int, const struct sigaction*, struct sigaction*)); REAL(sighandler_t, signal, (int, sighandler_t));
REAL(int, pthread_mutex_lock, (pthread_mutex_t*)); REAL(int, pthread_mutex_unlock, (pthread_mutex_t*));
REAL(ssize_t, readv, (int, const struct iovec*, int)); REAL(ssize_t, writev, (int, const struct iovec*, int)); REAL(int, usleep, (useconds_t)); REAL(int, nanosleep, (const struct timespec*, struct timespec*));
REAL(unsigned, sleep, (unsigned)); REAL(int, ioctl, (int, unsigned long, ...));
REAL(int, __cxa_guard_acquire, (u64*)); REAL(void, __cxa_guard_release, (u64*)); REAL(void, __cxa_guard_abort, (u64*));
REAL(int, kill, (pid_t, int)); REAL(int, sigtimedwait, (const sigset_t*, siginfo_t*, const struct timespec*)); REAL(int, sigpending, (sigset_t*)); REAL(int, sigwait, (const sigset_t*, int*)); REAL(pid_t, vfork, ());
REAL(int, rand, ()); REAL(long, random, ()); REAL(void, srand, (unsigned)); REAL(pid_t, getppid, ());

static bool g_childmode = false; static int g_report = -1; static std::map<int, int> g_dupmap;

ssize_t __wrap_read(int fd, void* b, size_t n) {
	if (!active() || (!is_vfd(fd) && !g_childmode)) return __real_read(fd, b, n);
	step("read"); auto f = vfd_get(fd); if (!f) { errno = EBADF; return -1; }
	return f->read(b, n);
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
	if (!active() || !is_vfd(fd)) return __real_write(fd, b, n);
	step("write"); auto f = vfd_get(fd); if (!f) { errno = EBADF; return -1; }
	return f->write(b, n);
}
ssize_t __wrap_readv(int fd, const struct iovec* v, int c) { if (!active() || !is_vfd(fd)) return __real_readv(fd, v, c); return c ? __wrap_read(fd, v[0].iov_base, v[0].iov_len) : 0; }
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) { if (!active() || !is_vfd(fd)) return __real_writev(fd, v, c); std::string d; for (int i = 0; i < c; ++i) d.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len); return __wrap_write(fd, d.data(), d.size()); }
int fs_close_fault(int fd);
int __wrap_close(int fd) {
	if (!active()) return __real_close(fd);
	if (g_childmode) { if (is_vfd(fd)) { fdt().erase(fd); return 0; } g_dupmap.erase(fd); return 0; }
	if (!is_vfd(fd)) { if (fd < 0) { errno = EBADF; return -1; } if (fd <= 2) { count("probe.close_std"); tr("close(%d): a standard descriptor of the application", fd); return 0; } return __real_close(fd); }
	step("close"); tr("close %d", fd);
	int fault = fs_close_fault(fd);
	int r = vfd_close(fd);
	if (r == 0 && fault) { errno = fault; return -1; }
	return r;
}
int __wrap_fcntl(int fd, int cmd, ...) {
	va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a);
	if (!active() || !is_vfd(fd)) return __real_fcntl(fd, cmd, arg);
	auto f = vfd_get(fd); if (!f) { errno = EBADF; return -1; }
	switch (cmd) {
		case F_GETFL: return f->flags; case F_SETFL: f->flags = int(arg); return 0;
		case F_GETFD: return f->cloexec ? FD_CLOEXEC : 0; case F_SETFD: f->cloexec = arg & FD_CLOEXEC; return 0;
		case F_DUPFD: case F_DUPFD_CLOEXEC: return vfd_new(f);
		default: return 0;
	}
}
int __wrap_ioctl(int fd, unsigned long req, ...) {
	va_list a; va_start(a, req); void* arg = va_arg(a, void*); va_end(a);
	if (!active() || !is_vfd(fd)) return __real_ioctl(fd, req, arg);
	auto f = vfd_get(fd); if (!f) { errno = EBADF; return -1; }
	if (req == FIONBIO) { if (*static_cast<int*>(arg)) f->flags |= O_NONBLOCK; else f->flags &= ~O_NONBLOCK; }
	return 0;
}
int __wrap_dup(int fd) { if (!active() || !is_vfd(fd)) return __real_dup(fd); auto f = vfd_get(fd); if (!f) { errno = EBADF; return -1; } return vfd_new(f); }

// ---- time
time_t __wrap_time(time_t* t) { if (!active()) return __real_time(t); time_t r = time_t(real_now() / 1000000); if (t) *t = r; return r; }
int __wrap_gettimeofday(struct timeval* tv, void* tz) { if (!active()) return __real_gettimeofday(tv, tz); tick(1); tv->tv_sec = real_now() / 1000000; tv->tv_usec = real_now() % 1000000; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec* t) { if (!active()) return __real_clock_gettime(c, t); tick(1); u64 v = c == CLOCK_MONOTONIC ? now() + 1000000 : real_now(); t->tv_sec = v / 1000000; t->tv_nsec = (v % 1000000) * 1000; return 0; }
int __wrap_usleep(useconds_t u) { if (!active()) return __real_usleep(u); step("usleep"); block([] { return false; }, now() + std::max<u64>(u, 1), "usleep"); return 0; }
int __wrap_nanosleep(const struct timespec* t, struct timespec* r) { if (!active()) return __real_nanosleep(t, r); step("nanosleep"); block([] { return false; }, now() + std::max<u64>(u64(t->tv_sec) * 1000000 + t->tv_nsec / 1000, 1), "nanosleep"); return 0; }
unsigned __wrap_sleep(unsigned s) { if (!active()) return __real_sleep(s); step("sleep"); block([] { return false; }, now() + u64(s) * 1000000 + 1, "sleep"); return 0; }

// ---- identity, randomness
pid_t __wrap_getpid() { if (!active()) return __real_getpid(); return cur_pid(); }
pid_t __wrap_getppid() { if (!active()) return __real_getppid(); return 1; }
pid_t __wrap_gettid() { if (!active()) return __real_gettid(); return cur_pid() + (cur_thread() ? 1000 * 0 + cur_thread() : 0); }
static u64 g_randstate = 1;
void __wrap_srand(unsigned s) { if (!active()) return __real_srand(s); g_randstate = s; }
int __wrap_rand() { if (!active()) return __real_rand(); g_randstate = g_randstate * 6364136223846793005ull + 1442695040888963407ull; return int((g_randstate >> 33) & 0x7fffffff); }
long __wrap_random() { if (!active()) return __real_random(); return __wrap_rand(); }

// ---- locks
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
	if (!active() || m == core_mutex()) return __real_pthread_mutex_lock(m);
	step("mutex");
	if (pthread_mutex_trylock(m) == 0) return 0;
	if (killed()) { __real_pthread_mutex_unlock(m); return __real_pthread_mutex_lock(m); }   // its owner died in a crash
	count("probe.lock_contended");
	block([m] { if (pthread_mutex_trylock(m) != 0) return false; __real_pthread_mutex_unlock(m); return true; }, 0, "mutex");
	return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return __real_pthread_mutex_unlock(m); }
// a thread initialising a static variable may be preempted; others that need it wait
static std::set<u64*>* g_guards;
int __wrap___cxa_guard_acquire(u64* g) {
	if (!active()) return __real___cxa_guard_acquire(g);
	if (*(volatile char*) g) return 0;
	if (!g_guards) g_guards = new std::set<u64*>;
	if (g_guards->count(g)) {
		if (!killed()) { count("probe.guard_contended"); block([g] { return !g_guards->count(g) || killed(); }, 0, "static initialisation"); }
		if (g_guards->count(g)) { g_guards->erase(g); __real___cxa_guard_abort(g); }   // the thread died in a crash
		if (*(volatile char*) g) return 0;
	}
	int r = __real___cxa_guard_acquire(g); if (r) g_guards->insert(g); return r;
}
void __wrap___cxa_guard_release(u64* g) { if (g_guards) g_guards->erase(g); __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(u64* g) { if (g_guards) g_guards->erase(g); __real___cxa_guard_abort(g); }

// ---- signals
int __wrap_sigprocmask(int how, const sigset_t* s, sigset_t* o) {
	if (!active()) return __real_sigprocmask(how, s, o);
	auto& cur = mysig().first; auto& pend = mysig().second;
	if (o) *o = cur;
	if (s) { for (int i = 1; i < 32; ++i) { bool in = sigismember(s, i) == 1; if (how == SIG_BLOCK && in) sigaddset(&cur, i); else if (how == SIG_UNBLOCK && in) sigdelset(&cur, i); else if (how == SIG_SETMASK) { if (in) sigaddset(&cur, i); else sigdelset(&cur, i); } } }
	if (sigismember(&pend, SIGPIPE) && !sigismember(&cur, SIGPIPE)) { sigdelset(&pend, SIGPIPE); if (!g_sigpipe_ignored) violate("signal.sigpipe", "a pending SIGPIPE is unblocked: it would kill the application"); }
	return 0;
}
int __wrap_pthread_sigmask(int how, const sigset_t* s, sigset_t* o) { if (!active()) return __real_pthread_sigmask(how, s, o); return __wrap_sigprocmask(how, s, o); }
int __wrap_sigaction(int sig, const struct sigaction* a, struct sigaction* o) { if (!active()) return __real_sigaction(sig, a, o); if (o) { memset(o, 0, sizeof *o); if (sig == SIGPIPE && g_sigpipe_ignored) o->sa_handler = SIG_IGN; } if (a && sig == SIGPIPE) g_sigpipe_ignored = a->sa_handler != SIG_DFL; return 0; }
sighandler_t __wrap_signal(int sig, sighandler_t h) { if (!active()) return __real_signal(sig, h); sighandler_t old = SIG_DFL; if (sig == SIGPIPE) { old = g_sigpipe_ignored ? SIG_IGN : SIG_DFL; g_sigpipe_ignored = h != SIG_DFL; } return old; }
int __wrap_sigtimedwait(const sigset_t* s, siginfo_t* i, const struct timespec* t) { if (!active()) return __real_sigtimedwait(s, i, t); step("sigtimedwait"); if (sigismember(s, SIGPIPE) && sigismember(&mysig().second, SIGPIPE)) { sigdelset(&mysig().second, SIGPIPE); return SIGPIPE; } errno = EAGAIN; return -1; }
int __wrap_sigwait(const sigset_t* s, int* sig) { if (!active()) return __real_sigwait(s, sig); step("sigwait"); if (sigismember(s, SIGPIPE) && sigismember(&mysig().second, SIGPIPE)) { sigdelset(&mysig().second, SIGPIPE); *sig = SIGPIPE; return 0; } violate("hang.sigwait", "sigwait() for a signal that is not pending"); }
int __wrap_sigpending(sigset_t* s) { if (!active()) return __real_sigpending(s); *s = mysig().second; return 0; }
int __wrap_kill(pid_t p, int s) {
	if (!active()) return __real_kill(p, s);
	step("kill"); auto i = g_procs ? g_procs->find(p) : decltype(g_procs->begin())(); if (!g_procs || i == g_procs->end()) { errno = ESRCH; return -1; }
	if (s) proc_exit(i->second, s); return 0;
}

// ---- processes
int __wrap_pipe2(int* fd, int fl) {
	if (!active()) return __real_pipe2(fd, fl);
	step("pipe"); if (g_prog.pipe_err) { count("fault.proc.pipe_fails"); errno = g_prog.pipe_err; return -1; }
	auto p = std::make_shared<Pipe>(); auto r = std::make_shared<PipeEnd>(p, false), w = std::make_shared<PipeEnd>(p, true);
	r->cloexec = w->cloexec = fl & O_CLOEXEC; if (fl & O_NONBLOCK) { r->flags |= O_NONBLOCK; w->flags |= O_NONBLOCK; }
	int a = vfd_new(r); if (a < 0) return -1; int b = vfd_new(w); if (b < 0) { vfd_close(a); errno = EMFILE; return -1; }
	fd[0] = a; fd[1] = b; return 0;
}
int __wrap_pipe(int* fd) { if (!active()) return __real_pipe(fd); return __wrap_pipe2(fd, 0); }
int __wrap_dup2(int a, int b) {
	if (!active()) return __real_dup2(a, b);
	if (g_childmode) { g_dupmap[b] = a; if (is_vfd(b) && vfd_get(a)) fdt()[b] = vfd_get(a); return b; }
	auto f = vfd_get(a); if (!f) { errno = EBADF; return -1; }
	if (is_vfd(b)) { vfd_close(b); ++f->refs; fdt()[b] = f; }
	return b;
}
[[noreturn]] static void child_report(const std::string& path, char* const* argv, int code) {
	// one record: path NUL argv.. NUL NUL, then "fd:vfd" of 0..2, then open vfds
	std::string r; r += char(path.empty() ? 'X' : 'E'); r += char(code);
	auto put = [&](const std::string& s) { u32 n = u32(s.size()); r.append(reinterpret_cast<char*>(&n), 4); r += s; };
	put(path); u32 n = 0; if (argv) while (argv[n]) ++n; r.append(reinterpret_cast<char*>(&n), 4);
	for (u32 i = 0; i < n; ++i) put(argv[i]);
	u32 k = u32(g_dupmap.size()); r.append(reinterpret_cast<char*>(&k), 4); for (auto& x : g_dupmap) { r.append(reinterpret_cast<const char*>(&x.first), 4); r.append(reinterpret_cast<const char*>(&x.second), 4); }
	std::vector<int> open; for (auto& x : fdt()) if (!x.second->cloexec) open.push_back(x.first);
	k = u32(open.size()); r.append(reinterpret_cast<char*>(&k), 4); for (int x : open) r.append(reinterpret_cast<char*>(&x), 4);
	size_t p = 0; while (p < r.size()) { ssize_t w = __real_write(g_report, r.data() + p, r.size() - p); if (w <= 0) break; p += w; }
	__real__exit(0); abort();
}
pid_t __wrap_fork() {
	if (!active()) return __real_fork();
	step("fork");
	if (g_prog.fork_err) { count("fault.proc.fork_fails"); errno = g_prog.fork_err; return -1; }
	int rp[2]; if (__real_pipe(rp) < 0) { perror("pipe"); abort(); }
	pid_t p = __real_fork();
	if (p == 0) {
		core_detach(1); g_childmode = true; g_report = rp[1]; __real_close(rp[0]); g_dupmap.clear();
		return 0;
	}
	__real_close(rp[1]);
	std::string r; char b[4096]; ssize_t n; while ((n = __real_read(rp[0], b, sizeof b)) > 0) r.append(b, n);
	__real_close(rp[0]); int st; __real_waitpid(p, &st, 0);
	int pid = ++g_nextpid; auto pr = std::make_shared<Proc>(); pr->pid = pid; pr->prog = std::make_shared<Program>();
	if (!g_procs) g_procs = new std::map<int, std::shared_ptr<Proc>>;
	(*g_procs)[pid] = pr; g_programs.push_back(pr->prog);
	if (r.size() < 2) violate("sim.child", "the forked child reported nothing (crashed before exec)");
	size_t q = 0; auto u = [&]() { u32 v; memcpy(&v, &r[q], 4); q += 4; return v; }; auto str = [&]() { u32 n = u(); std::string s = r.substr(q, n); q += n; return s; };
	char how = r[q++]; int code = (unsigned char) r[q++]; pr->prog->path = str(); u32 na = u(); for (u32 i = 0; i < na; ++i) pr->prog->argv.push_back(str());
	u32 nd = u(); std::map<int, int> dm; for (u32 i = 0; i < nd; ++i) { int a = u(), c = u(); dm[a] = c; }
	u32 no = u(); for (u32 i = 0; i < no; ++i) { int fd = u(); auto f = vfd_get(fd); if (f) { pr->fds[fd] = f; ++f->refs; } }
	for (auto& x : dm) if (x.first < 3) { auto f = vfd_get(x.second); if (f) { pr->fds[x.first] = f; ++f->refs; } }
	pr->prog->fds_inherited = no;
	std::string cl; for (auto& a : pr->prog->argv) cl += " [" + esc(a) + "]";
	tr("fork: pid %d executes %s%s, %u descriptors inherited", pid, pr->prog->path.c_str(), cl.c_str(), no);
	if (how == 'X') { proc_exit(pr, code << 8); }
	else if (!g_prog.exists) { count("fault.proc.exec_fails"); pr->prog->exec_failed = true; proc_exit(pr, 255 << 8); }
	else after(100, [pr] { proc_run(pr); });
	return pid;
}
pid_t __wrap_vfork() { if (!active()) return __real_vfork(); return __wrap_fork(); }
int __wrap_execv(const char* p, char* const* argv) { if (!active() || !g_childmode) return __real_execv(p, argv); child_report(p, argv, 0); }
int __wrap_execve(const char* p, char* const* argv, char* const* e) { if (!active() || !g_childmode) return __real_execve(p, argv, e); child_report(p, argv, 0); }
int __wrap_execvp(const char* p, char* const* argv) { if (!active() || !g_childmode) return __real_execvp(p, argv); child_report(p, argv, 0); }
void __wrap__exit(int c) { if (active() && g_childmode) child_report("", nullptr, c); __real__exit(c); }
pid_t __wrap_waitpid(pid_t pid, int* st, int opt) {
	if (!active()) return __real_waitpid(pid, st, opt);
	step("waitpid");
	if (g_prog.wait_eintr && chance(g_prog.wait_eintr, "wait.eintr")) { count("fault.eintr"); errno = EINTR; return -1; }
	if (g_prog.wait_err) { count("fault.proc.wait_fails"); errno = g_prog.wait_err; auto i = g_procs ? g_procs->find(pid) : decltype(g_procs->begin())(); if (g_procs && i != g_procs->end()) { auto p = i->second; block([p] { return p->prog->finished; }, 0, "waitpid"); p->prog->reaped = true; } errno = g_prog.wait_err; return -1; }
	if (!g_procs || !g_procs->count(pid) || (*g_procs)[pid]->prog->reaped) { errno = ECHILD; return -1; }
	auto p = (*g_procs)[pid];
	if (!p->prog->finished && (opt & WNOHANG)) return 0;
	block([p] { return p->prog->finished; }, 0, "waitpid");
	p->prog->reaped = true; if (st) *st = p->prog->status; tr("waitpid %d: %#x", pid, p->prog->status);
	return pid;
}
}

// ---- allocation: huge requests fail the way they do on a host with little memory
static u64 g_maxalloc = 512u << 20;
void sim::set_max_alloc(u64 n) { g_maxalloc = n; }
static bool g_aw, g_asticky; static u64 g_an, g_afail, g_ahits;   // allocations of the watched stretch of code
void sim::alloc_watch(u64 nth, bool sticky) { g_an = g_ahits = 0; g_afail = nth; g_asticky = sticky; g_aw = true; }
u64 sim::alloc_done(u64* hits) { g_aw = false; if (hits) *hits = g_ahits; return g_an; }
static bool alloc_fails() { if (!g_aw) return false; ++g_an; if (g_an != g_afail && !(g_asticky && g_afail && g_an > g_afail)) return false; ++g_ahits; return true; }
void* operator new(size_t n) { if (alloc_fails()) throw std::bad_alloc(); if (n > g_maxalloc) { if (sim::g_sh) sim::count("probe.huge_allocation"); throw std::bad_alloc(); } void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return n > g_maxalloc || alloc_fails() ? nullptr : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return n > g_maxalloc || alloc_fails() ? nullptr : malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// Deterministic simulation core: choice tape, virtual clock, events, cooperative threads, trace,
// violations. One process = one simulated execution; everything it does follows from the tape.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <algorithm>

namespace sim {

typedef uint64_t u64;
typedef uint32_t u32;

u64 fnv(const void* p, size_t n, u64 h = 1469598103934665603ull);
inline u64 fnvs(const std::string& s, u64 h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }
std::string esc(const std::string& s, size_t max = 120);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

struct Rng {
	u64 s;
	explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
	u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	u32 below(u32 n) { return n ? u32((next() >> 11) % n) : 0; }
};

// ---- choices (0 is always the simplest, fault-free alternative)
u32 choose(u32 n, const char* label);                 // uniform in [0,n)
bool chance(u32 permille, const char* label);         // 1 with given probability
u32 weighted(std::initializer_list<u32> w, const char* label);
inline u32 range(u32 lo, u32 hi, const char* label) { return lo + choose(hi - lo + 1, label); }
u32 sized(u32 max, const char* label);                // 0..max, biased to small and to boundary values
Rng subrng(const char* label);                        // bulk content: one tape cell
template <class T> const T& oneof(const std::vector<T>& v, const char* label) { return v[choose(u32(v.size()), label)]; }

// ---- trace, counters, verdicts
void tr(const char* f, ...) __attribute__((format(printf, 1, 2)));   // goes into the run's hash
void note(const char* f, ...) __attribute__((format(printf, 1, 2))); // shown, not hashed
void core_detach(u64 seed);                      // in a real child process: go on with choices of its own, which are not recorded
void count(const char* name, u64 n = 1);
void state(u64 h);                                    // an abstract state reached
void nontrivial();
[[noreturn]] void violate(const char* sig, const char* f, ...) __attribute__((format(printf, 2, 3)));
void lenient(const std::vector<std::string>& prefixes);  // violations of these families end the run instead of failing it
[[noreturn]] void end_run();                          // stop here, run counts as passed
#define CHECK(cond, sig, ...) do { if (!(cond)) ::sim::violate(sig, __VA_ARGS__); } while (0)

// ---- time and events (microseconds)
u64 now();
u64 real_now();                                       // wall clock of the simulated host (with skew), microseconds
void skew(int64_t us);                                // jump of the host's wall clock
void at(u64 t, std::function<void()> fn);
inline void after(u64 dt, std::function<void()> fn) { at(now() + dt, std::move(fn)); }
void tick(u64 us = 1);                                // time passes, due events run
void step(const char* what);                          // one simulated system call: clock, budget, preemption point
bool block(const std::function<bool()>& pred, u64 deadline, const char* what); // false: deadline passed
void advance(u64 dt);                                 // run everything that happens in the next dt
u64 steps();
u64 work();                                           // basic blocks of vmime executed since the last simulated call
void set_work_limit(u64 n);
void set_max_alloc(u64 n);                            // larger requests of memory fail (std::bad_alloc)
void alloc_watch(u64 nth, bool sticky = false);       // from now on the nth allocation (and, sticky, all later ones) fails; 0: only counted
u64 alloc_done(u64* hits = nullptr);                  // end of the watched stretch: allocations made, of which failed
void no_preempt(int d);
void set_preempt(u32 permille);                       // preemption at simulated system calls
void set_bb_preempt(u32 maxgap);                      // preemption between any two basic blocks of vmime
void kill_threads();
void* core_mutex();
void set_step_limit(u64 n);
bool active();
void set_active(bool);                                // off: wrapped calls go to the real kernel

// ---- threads ("processes" of the simulated host)
int spawn(const std::string& name, std::function<void()> fn);   // runnable at next scheduling point
void join_all();
int cur_thread();
int cur_pid();
void set_pid(int pid);
bool killed();                                        // the crash happened: only the main thread still runs

// ---- known findings / scenario registry
typedef void (*ScenFn)();
struct Scenario { const char* prop; const char* name; u32 weight; ScenFn fn; const char* real; const char* stub; };
std::vector<Scenario>& scenarios();
struct Reg { Reg(const char* p, const char* n, u32 w, ScenFn f) { scenarios().push_back({p, n, w, f, "", ""}); } };
#define SCENARIO(prop, name, weight) static void scen_##prop##_##name(); static ::sim::Reg reg_##prop##_##name(#prop, #name, weight, scen_##prop##_##name); static void scen_##prop##_##name()

} // sim

#pragma once
#include "core.hpp"
namespace sim {
enum { ST_NONE = 0, ST_RUNNING, ST_OK, ST_VIOLATION };
static const u32 MAXTAPE = 4000000, MAXCOUNT = 200, MAXSTATE = 8192, MAXTRACE = 1 << 20;
struct Counter { char name[48]; u64 v; };
struct Shared {
	int status; u32 nontrivial; char sig[128]; char msg[3000]; u64 hash, steps, simtime;
	u32 ntape, tapeovf, ncount, nstates; u64 tracelen;
	Counter counts[MAXCOUNT]; u64 states[MAXSTATE]; u32 tape[MAXTAPE]; char trace[MAXTRACE];
};
extern Shared* g_sh;
void core_start(Shared* sh, u64 seed, const std::vector<u32>* tape);
[[noreturn]] void core_finish_ok();
}

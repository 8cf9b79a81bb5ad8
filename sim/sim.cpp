// Simulator run-time. Compiled WITHOUT instrumentation.
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <wchar.h>
#include <assert.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <pthread.h>
#include <cxxabi.h>
#include <link.h>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <string>
#include <exception>

namespace std { extern __thread void* __once_callable; extern __thread void (*__once_call)(); }
extern "C"
{
	void* __real_malloc(size_t);
	void  __real_free(void*);
	void* __real_calloc(size_t, size_t);
	void* __real_realloc(void*, size_t);
	extern char __data_start[];
	extern char _end[];
	extern char __start_simharness[] __attribute__((weak));
	extern char __stop_simharness[] __attribute__((weak));
}

namespace sim
{
	typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
	bool g_track = false;
	static const u64 STEP_CAP = 12000000, RUN_CAP = 100000000;	// simulated memory accesses: without a library call returning, and in one run
	static u64 g_budget;
	static u64 g_steps;
	bool set_mode(bool m) { bool o = g_track; g_track = m; if (o && !m) g_budget = g_steps + STEP_CAP < RUN_CAP ? g_steps + STEP_CAP : RUN_CAP; return o; }

// =====================================================================================================
// Shared result block (child -> parent)
// =====================================================================================================
	static const int MAX_NAMES = 96;
	static const int MAX_BATCH = 64;
	struct Counter { char name[40]; u64 runs, count; };
	struct RunSummary { u64 seed, hash, il_hash, steps, switches, preempts; u32 nchoices; u8 nontrivial, done; };
	struct Shared
	{
		u32		runs_done;
		u32		violated;				// 0 none, 1 violation, 2 harness error
		u32		discarded;
		u64		viol_seed;
		char	kind[96];
		char	msg[4096];
		u64		viol_hash;
		u64		pc;
		u32		nchoices, nspans;
		u32		choices[1 << 18];
		u32		spans[1 << 16][2];
		Counter	faults[MAX_NAMES], probes[MAX_NAMES], knowns[MAX_NAMES];
		double	sim_seconds;
		RunSummary runs[MAX_BATCH];
	};
	static Shared* S;

// =====================================================================================================
// PRNG and choices
// =====================================================================================================
	static u64 g_seed, g_s0, g_s1;
	static u64 splitmix(u64& x) { u64 z = (x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
	u64 rnd() { u64 s0 = g_s0, s1 = g_s1, r = s0 + s1; s1 ^= s0; g_s0 = rotl(s0, 24) ^ s1 ^ (s1 << 16); g_s1 = rotl(s1, 37); return r; }

	static bool			g_replay = false;
	static std::vector<u32> g_in;			// replay input
	static u32			g_pos;
	static u32			g_nch, g_nsp;
	static u64			g_hash, g_il;
	static bool			g_trace = false;
	static FILE*		g_tracefile = nullptr;

	static inline void hmix(u64 v) { g_hash = (g_hash ^ v) * 0x9FB21C651E98DF25ull; g_hash ^= g_hash >> 29; }
	void mix(u64 v) { hmix(v); }
	void mix(const void* p, size_t n) { const u8* b = (const u8*)p; for (size_t i = 0; i < n; i++) hmix(b[i]); }

	[[noreturn]] static void finish_run_abnormal();

	static u32 record(u32 v)
	{
		if (g_nch >= sizeof(S->choices) / sizeof(S->choices[0])) { S->violated = 2; snprintf(S->kind, sizeof S->kind, "choice-overflow"); finish_run_abnormal(); }
		S->choices[g_nch++] = v;
		S->nchoices = g_nch;
		hmix(v + 0x1000);
		return v;
	}
	u32 draw(u32 n, u32 rv)
	{
		if (n <= 1) return 0;
		u32 v;
		if (g_replay) { v = g_pos < g_in.size() ? g_in[g_pos] : 0; g_pos++; if (v >= n) v %= n; }
		else v = rv % n;
		return record(v);
	}
	u32 choose(u32 n) { if (n <= 1) return 0; return draw(n, g_replay ? 0 : (u32)(rnd() % n)); }
	bool chance(u32 num, u32 den) { if (num == 0) return false; if (num >= den) num = den; return draw(2, g_replay ? 0 : ((rnd() % den) < num)) != 0; }
	bool more(u32 mean) { return draw(2, g_replay ? 0 : ((rnd() % (mean + 1)) != 0)) != 0; }
	u32 pick(std::initializer_list<u32> w)
	{
		u32 v = 0;
		if (!g_replay) { u64 t = 0; for (u32 x : w) t += x; u64 r = rnd() % t; for (u32 x : w) { if (r < x) break; r -= x; v++; } }
		return draw((u32)w.size(), v);
	}
	Span::Span() { begin = g_nch; }
	Span::~Span() { if (g_nsp < sizeof(S->spans) / sizeof(S->spans[0]) && g_nch > begin) { S->spans[g_nsp][0] = begin; S->spans[g_nsp][1] = g_nch; S->nspans = ++g_nsp; } }

// =====================================================================================================
// Fibers
// =====================================================================================================
	static const int MAXT = 8;
	static const size_t STACK = 256 * 1024;
	static char* const STACK_BASE = (char*)0x600000000000ull;
	struct VC { u32 c[MAXT]; };
	enum State { Free, Runnable, Blocked, Done };
	struct Fiber
	{
		void*	sp; State st; bool track; u64 eh[2]; int prio; const void* wait;
		VC vc, acq, rel; bool hasrel; int statics; std::function<void()>* body; void* once_callable; void(*once_call)();
	};
	static Fiber F[MAXT];
	// thread_local variables of the program: one copy per simulated thread, swapped into the real one
	static char* g_tls; static size_t g_tls_size, g_tls_init; static const char* g_tls_image;
	static char g_tls_copy[MAXT][4096];
	struct TlsDtor { void(*f)(void*); void* p; };
	static std::vector<TlsDtor>* g_tls_dtors;	// [MAXT]
	static void tls_find()
	{
		dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) -> int
		{
			if (i->dlpi_name && i->dlpi_name[0]) return 0;
			for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_phdr[k].p_memsz <= sizeof g_tls_copy[0]) { g_tls = (char*)i->dlpi_tls_data; g_tls_size = i->dlpi_phdr[k].p_memsz; g_tls_init = i->dlpi_phdr[k].p_filesz; g_tls_image = (const char*)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; }
			return 1;
		}, nullptr);
		if (!g_tls) g_tls_size = 0;
		g_tls_dtors = new std::vector<TlsDtor>[MAXT];
	}
	static void tls_fresh(int t) { if (!g_tls_size) return; memset(g_tls_copy[t], 0, g_tls_size); memcpy(g_tls_copy[t], g_tls_image, g_tls_init); g_tls_dtors[t].clear(); }
	static void tls_swap(int from, int to) { if (!g_tls_size) return; if (from >= 0) memcpy(g_tls_copy[from], g_tls, g_tls_size); memcpy(g_tls, g_tls_copy[to], g_tls_size); }
	static int cur, nf;
	static u32 g_lastclk[MAXT];
	static u64 g_switches, g_preempts;
	// schedule strategy
	static int g_strategy; static u32 g_mean; static u64 g_countdown; static bool g_seqsched;
	static std::vector<u64> g_change; static size_t g_changei;

	extern "C" void sim_switch(void** from, void* to);
	asm(R"(
	.text
	.globl sim_switch
	.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp,(%rdi)
	movq %rsi,%rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
	.size sim_switch,.-sim_switch
)");
	static void* g_scheduler_sp;	// context of the run loop
	int tid() { return cur; }
	int thread_count() { return nf; }
	u64 now() { return g_steps; }

	static void switch_to(int t)
	{
		if (t == cur) return;
		Fiber& a = F[cur]; Fiber& b = F[t];
		g_switches++;
		g_il = (g_il ^ (g_steps * 31 + t)) * 0x9FB21C651E98DF25ull; hmix(0x51 + t);
		if (g_trace && g_tracefile) fprintf(g_tracefile, "        -- switch T%d -> T%d at step %llu\n", cur, t, (unsigned long long)g_steps);
		memcpy(a.eh, abi::__cxa_get_globals(), 16);
		a.track = g_track;
		a.once_callable = std::__once_callable; a.once_call = std::__once_call;
		std::__once_callable = b.once_callable; std::__once_call = b.once_call;
		tls_swap(cur, t);
		cur = t;
		memcpy(abi::__cxa_get_globals(), b.eh, 16);
		g_track = b.track;
		sim_switch(&a.sp, b.sp);
	}
	static int runnable(int* out) { int n = 0; for (int i = 0; i < nf; i++) if (F[i].st == Runnable) out[n++] = i; return n; }
	static void next_countdown()
	{
		g_countdown = ~0ull;
		if (g_seqsched || nf <= 1) return;
		if (g_strategy == 1 || g_strategy == 3)
		{
			// geometric distance with mean g_mean, capped; 0 == never again
			u32 d = 0;
			if (!g_replay) { u64 r = rnd(); double u = (double)((r >> 11) + 1) / 9007199254740993.0; double x = -__builtin_log(u) * g_mean; d = x > 60000 ? 60001 : (u32)x + 1; }
			d = draw(65536, d);
			if (d) g_countdown = d;
		}
		else if (g_strategy == 2)
		{
			g_countdown = g_changei < g_change.size() ? (g_change[g_changei] > g_steps ? g_change[g_changei] - g_steps : 1) : ~0ull;
		}
	}
	static int pct_best() { int b = -1; for (int i = 0; i < nf; i++) if (F[i].st == Runnable && (b < 0 || F[i].prio > F[b].prio)) b = i; return b; }
	static void preempt()
	{
		if (g_strategy == 2)
		{
			if (g_changei < g_change.size()) { F[cur].prio = -(int)(g_changei++) - 1; }
			next_countdown();
			int b = pct_best();
			if (b >= 0 && b != cur) g_preempts++;
			if (b >= 0) switch_to(b);
			return;
		}
		int r[MAXT]; int n = 0;
		for (int i = 0; i < nf; i++) if (i != cur && F[i].st == Runnable) r[n++] = i;
		if (!n) { next_countdown(); return; }
		int t = r[choose(n)];
		next_countdown(); g_preempts++;
		switch_to(t);
	}
	static void deadlock() { fail("deadlock", "all simulated threads are blocked"); }
	static void schedule_away()	// current fiber cannot continue
	{
		int r[MAXT]; int n = runnable(r);
		if (!n) deadlock();
		int t = g_strategy == 2 ? pct_best() : r[choose(n)];
		switch_to(t);
	}
	[[noreturn]] static void out_of_steps() { if (g_steps > RUN_CAP) fail("no-progress", "step budget of %llu simulated memory accesses per run exhausted", (unsigned long long)RUN_CAP); fail("no-progress", "no library call returned within %llu simulated memory accesses", (unsigned long long)STEP_CAP); }
	static inline void point(int weight)
	{
		if (++g_steps > g_budget) out_of_steps();
		if (g_strategy == 3 && !weight) return;
		if (g_countdown != ~0ull && --g_countdown == 0) preempt();
	}
	void yield()
	{
		if (nf <= 1) return;
		int r[MAXT]; int n = runnable(r);
		if (n <= 1) return;
		int t = g_strategy == 2 ? pct_best() : r[choose(n)];
		if (t != cur) switch_to(t);
	}
	// A thread that waits without blocking (spin lock, sched_yield, sleep) must let the others run: a fair processor does.
	static u64 g_spin_addr; static u32 g_spin_n; static int g_spin_t;
	static void step_aside()
	{
		int r[MAXT]; int n = 0;
		for (int i = 0; i < nf; i++) if (i != cur && F[i].st == Runnable) r[n++] = i;
		if (!n) return;
		int t;
		if (g_strategy == 2)
		{
			int lo = F[cur].prio; for (int i = 0; i < nf; i++) if (F[i].prio < lo) lo = F[i].prio;
			F[cur].prio = lo - 1; t = pct_best();
		}
		else t = r[choose(n)];
		if (t != cur) switch_to(t);
	}
	static void spinning(u64 addr)
	{
		if (nf <= 1) return;
		if (addr != g_spin_addr || cur != g_spin_t) { g_spin_addr = addr; g_spin_t = cur; g_spin_n = 0; return; }
		if (++g_spin_n >= 100) { g_spin_n = 0; step_aside(); }
	}
	static void fiber_main()
	{
		(*F[cur].body)();
		if (g_tls_size) while (!g_tls_dtors[cur].empty()) { TlsDtor d = g_tls_dtors[cur].back(); g_tls_dtors[cur].pop_back(); g_track = true; d.f(d.p); g_track = false; }
		g_track = false;
		F[cur].st = Done;
		// joiner inherits
		for (int i = 0; i < MAXT; i++) F[0].vc.c[i] = std::max(F[0].vc.c[i], F[cur].vc.c[i]);
		bool all = true; for (int i = 1; i < nf; i++) if (F[i].st != Done) all = false;
		if (all && F[0].st == Blocked && F[0].wait == (void*)1) F[0].st = Runnable;
		schedule_away();
		abort();
	}
	static void prepare_stack(Fiber& f, int i, void(*entry)())
	{
		char* top = STACK_BASE + (size_t)(i + 1) * (STACK + 65536) - 64;
		u64* sp = (u64*)top;
		*--sp = 0;				// alignment / fake return
		*--sp = (u64)entry;
		for (int k = 0; k < 6; k++) *--sp = 0;
		f.sp = sp;
	}
	int spawn(std::function<void()> body)
	{
		if (nf >= MAXT) { fprintf(stderr, "too many threads\n"); abort(); }
		int i = nf++;
		Fiber& f = F[i];
		f = Fiber();
		tls_fresh(i);
		f.st = Runnable; f.track = false; f.body = new std::function<void()>(std::move(body));
		prepare_stack(f, i, &fiber_main);
		F[cur].vc.c[cur]++;
		f.vc = F[cur].vc;
		f.vc.c[i] = ++g_lastclk[i];
		F[cur].vc.c[cur]++;
		if (g_strategy == 2) f.prio = 100 + (int)choose(64);
		if (g_countdown == ~0ull) next_countdown();
		return i;
	}
	void join_all()
	{
		bool all = true; for (int i = 1; i < nf; i++) if (F[i].st != Done) all = false;
		if (!all) { F[0].st = Blocked; F[0].wait = (void*)1; schedule_away(); }
		for (int i = 1; i < nf; i++) { delete F[i].body; F[i].st = Free; g_lastclk[i] = F[i].vc.c[i]; }	// a later thread in the same slot continues its clock
		nf = 1; g_countdown = ~0ull;
	}
	void sequential_schedule() { g_seqsched = true; g_countdown = ~0ull; }

// =====================================================================================================
// Simulated heap
// =====================================================================================================
	static char* const ARENA = (char*)0x500000000000ull;
	static const size_t ARENA_SIZE = 32ull << 20;
	static const size_t STRIPES = 64;
	static u8* g_valid;				// per 8-byte word: number of addressable leading bytes (0..8)
	struct Block { u32 id; size_t size; bool live, lib; int kind; u32 full; };
	static std::map<size_t, Block> g_blocks;		// offset -> block (live and quarantined)
	static std::unordered_map<size_t, std::vector<size_t>> g_freelist;
	static size_t g_lo, g_hi; static size_t g_stripe[STRIPES];
	static int g_policy; static u32 g_blockid; static size_t g_live_lib; static u64 g_allocs;
	static u64 g_fail_after_[MAXT], g_fail_count_[MAXT], g_failed_[MAXT]; static u8 g_pattern;	// per simulated thread
#define g_fail_after g_fail_after_[cur]
#define g_fail_count g_fail_count_[cur]
#define g_failed g_failed_[cur]

	bool in_arena(const void* p) { return (char*)p >= ARENA && (char*)p < ARENA + ARENA_SIZE; }

	struct Cell
	{
		u32 epoch; u32 r[MAXT], w[MAXT], a[MAXT], l[MAXT]; u8 rm[MAXT], wm[MAXT], am[MAXT], lm[MAXT];	// plain reads, plain writes, atomic writes, atomic loads
		u32 rpc, wpc;
	};
	static Cell* g_cells;			// arena
	static Cell* g_gcells;			// globals
	static size_t g_gwords;
	static u32 g_epoch;
	static inline Cell* cell(u64 addr)
	{
		Cell* c;
		if (addr - (u64)ARENA < ARENA_SIZE) c = &g_cells[(addr - (u64)ARENA) >> 3];
		else c = &g_gcells[(addr - (u64)__data_start) >> 3];
		if (c->epoch != g_epoch) { memset(c, 0, sizeof(*c)); c->epoch = g_epoch; }
		return c;
	}
	static std::string describe(u64 addr)
	{
		char b[200];
		if (in_arena((void*)addr))
		{
			size_t off = addr - (u64)ARENA;
			auto it = g_blocks.upper_bound(off);
			if (it != g_blocks.begin())
			{
				--it;
				snprintf(b, sizeof b, "byte %lld of block #%u (%zu bytes, %s)", (long long)(off - it->first), it->second.id, it->second.size, it->second.live ? "live" : "freed");
				return b;
			}
			return "heap address before any block";
		}
		snprintf(b, sizeof b, "global at %#llx", (unsigned long long)addr);
		return b;
	}
	static void set_valid(size_t off, size_t size)
	{
		size_t w = off >> 3, n = size >> 3;
		memset(g_valid + w, 8, n);
		if (size & 7) g_valid[w + n] = size & 7;
	}
	static void clear_valid(size_t off, size_t size) { memset(g_valid + (off >> 3), 0, (size + 7) >> 3); }

	static void access(u64 addr, size_t size, int kind, u64 pc);	// 0 read 1 write 2 atomic

	static void* do_alloc(size_t size, bool islib, int kind)
	{
		if (islib)
		{
			g_allocs++;
			if (g_fail_after != ~0ull)
			{
				if (g_fail_after == 0)
				{
					if (g_fail_count) { g_fail_count--; g_failed++; fault("alloc_fail"); if (g_trace) log("!! allocation of %zu bytes fails", size); hmix(0xFA11); return nullptr; }
				}
				else g_fail_after--;
			}
		}
		if (size > ARENA_SIZE / 8) { if (islib) fault("alloc_huge_refused"); return nullptr; }
		size_t full = ((size ? size : 1) + 15) / 16 * 16 + 32;	// 16 bytes of red zone on both sides
		size_t base = ~0ull;
		auto fl = g_freelist.find(full);
		if (fl != g_freelist.end() && !fl->second.empty() && (g_policy == 2 || g_policy == 3 || g_policy == 5))
		{
			auto& v = fl->second;
			size_t idx = g_policy == 2 ? v.size() - 1 : g_policy == 3 ? 0 : choose((u32)v.size() + 1);
			if (idx < v.size()) { base = v[idx]; v.erase(v.begin() + idx); g_blocks.erase(base + 16); }
		}
		if (base == ~0ull)
		{
			if (g_policy == 4 || g_policy == 5)
			{
				u32 s = choose(STRIPES);
				for (u32 k = 0; k < STRIPES; k++)
				{
					u32 t = (s + k) % STRIPES; size_t room = ARENA_SIZE / STRIPES;
					if (g_stripe[t] + full <= room) { base = t * room + g_stripe[t]; g_stripe[t] += full; break; }
				}
			}
			else if (g_policy == 1) { if (g_hi >= g_lo + full) { g_hi -= full; base = g_hi; } }
			else { if (g_lo + full <= g_hi) { base = g_lo; g_lo += full; } }
		}
		if (base == ~0ull) { S->violated = 2; snprintf(S->kind, sizeof S->kind, "arena-exhausted"); finish_run_abnormal(); }
		size_t off = base + 16;
		Block b; b.id = ++g_blockid; b.size = size; b.live = true; b.lib = islib; b.kind = kind; b.full = (u32)full;
		g_blocks[off] = b;
		if (islib) g_live_lib++;
		set_valid(off, size);
		memset(ARENA + off, g_pattern, size);
		// fresh memory: no earlier accesses count
		for (size_t w = off >> 3; w < (off + size + 7) >> 3; w++) if (g_cells[w].epoch == g_epoch) g_cells[w].epoch = 0;
		hmix(off * 7 + size);
		return ARENA + off;
	}
	static const char* kinds[] = { "malloc", "new", "new[]" };
	static void do_free(void* p, int kind, u64 pc)
	{
		if (!p) return;
		size_t off = (char*)p - ARENA;
		auto it = g_blocks.find(off);
		if (it == g_blocks.end()) fail("bad-free", "free of a pointer that is not the start of a block: %s", describe((u64)p).c_str());
		if (!it->second.live) fail("double-free", "second free of block #%u (%zu bytes)", it->second.id, it->second.size);
		if (it->second.kind != kind && kind >= 0 && it->second.kind >= 0) fail("mismatched-free", "block #%u was allocated by %s but released by %s", it->second.id, kinds[it->second.kind], kind == 0 ? "free" : kind == 1 ? "delete" : "delete[]");
		// freeing is a write to the whole block as far as races are concerned
		size_t size = it->second.size;
		if (nf > 1) for (size_t k = 0; k < size; k += 8) access((u64)p + k, size - k < 8 ? size - k : 8, 3, pc);
		it->second.live = false;
		if (it->second.lib) g_live_lib--;
		clear_valid(off, size);
		memset(p, (u8)~g_pattern, size);
		g_freelist[it->second.full].push_back(off - 16);
		hmix(off * 13 + 1);
	}
	void* heap_alloc(size_t n) { Har guard; void* p = do_alloc(n, false, -1); return p; }
	void heap_free(void* p) { Har guard; do_free(p, -1, 0); }
	bool is_live_block(const void* p) { auto it = g_blocks.find((char*)p - ARENA); return it != g_blocks.end() && it->second.live; }
	size_t live_blocks() { return g_live_lib; }
	u64 alloc_count() { return g_allocs; }
	void fail_alloc_after(u64 n, u64 many) { g_fail_after = n; g_fail_count = many; g_failed = 0; }
	u64 clear_alloc_faults() { g_fail_after = ~0ull; g_fail_count = 0; u64 f = g_failed; g_failed = 0; return f; }
	void check_no_leaks(const char* where)
	{
		if (!g_live_lib) return;
		std::string s; int n = 0;
		for (auto& b : g_blocks) if (b.second.live && b.second.lib) { char t[64]; snprintf(t, sizeof t, " #%u(%zu bytes)", b.second.id, b.second.size); s += t; if (++n >= 8) break; }
		fail("leak", "%s: %zu block(s) never freed:%s", where, g_live_lib, s.c_str());
	}

// =====================================================================================================
// Memory accesses: validity and happens-before races
// =====================================================================================================
	static u64 g_pc;
	static void race(u64 addr, int kind, int other, const char* okind, u64 pc, u64 opc)
	{
		S->pc = pc; 
		static const char* kn[] = { "read", "write", "atomic update", "free", "atomic load" };
		fail("data-race", "unordered %s by T%d and %s by T%d at %s [pc=%#llx prev=%#llx]", kn[kind], cur, okind, other, describe(addr).c_str(), (unsigned long long)pc, (unsigned long long)opc);
	}
	// kind: 0 plain read, 1 plain write, 2 atomic store or read-modify-write, 3 free, 4 atomic load
	static inline void mark(u32* c, u8* m, u32 my, u8 mask) { if (c[cur] != my) m[cur] = 0; c[cur] = my; m[cur] |= mask; }
	static void access_word(u64 addr, u8 mask, int kind, u64 pc)
	{
		Cell* c = cell(addr);
		VC& v = F[cur].vc;
		for (int t = 0; t < MAXT; t++)
		{
			if (t == cur) continue;
			if ((c->wm[t] & mask) && c->w[t] > v.c[t]) race(addr, kind, t, "write", pc, c->wpc);
			if (kind != 2 && kind != 4 && (c->am[t] & mask) && c->a[t] > v.c[t]) race(addr, kind, t, "atomic update", pc, 0);
			if (kind != 0 && kind != 4 && (c->rm[t] & mask) && c->r[t] > v.c[t]) race(addr, kind, t, "read", pc, c->rpc);
			if ((kind == 1 || kind == 3) && (c->lm[t] & mask) && c->l[t] > v.c[t]) race(addr, kind, t, "atomic load", pc, 0);
		}
		u32 my = v.c[cur];
		switch (kind)
		{
		case 0: mark(c->r, c->rm, my, mask); c->rpc = (u32)pc; break;
		case 1: case 3: mark(c->w, c->wm, my, mask); c->wpc = (u32)pc; break;
		case 2: mark(c->a, c->am, my, mask); break;
		case 4: mark(c->l, c->lm, my, mask); break;
		}
	}
	static inline bool tracked(u64 addr) { return addr - (u64)ARENA < ARENA_SIZE || (addr - (u64)__data_start < (u64)(_end - __data_start) && !(addr >= (u64)__start_simharness && addr < (u64)__stop_simharness)); }

	static void access(u64 addr, size_t size, int kind, u64 pc)
	{
		if (!tracked(addr)) return;
		if (kind != 3) point(kind == 2 || kind == 4);
		if (addr - (u64)ARENA < ARENA_SIZE)
		{
			u64 a = addr, e = addr + size;
			while (a < e)
			{
				size_t w = (a - (u64)ARENA) >> 3; u64 wend = (a & ~7ull) + 8; u64 stop = wend < e ? wend : e;
				u8 need = (u8)(stop - (a & ~7ull));
				if (g_valid[w] < need)
				{
					S->pc = pc;
					std::string d = describe(a);
					bool freed = d.find("freed") != std::string::npos;
					fail(freed ? "use-after-free" : "out-of-bounds", "%s of %zu bytes at invalid memory: %s [pc=%#llx]", kind == 0 ? "read" : kind == 1 ? "write" : "atomic access", size, d.c_str(), (unsigned long long)pc);
				}
				a = stop;
			}
		}
		hmix(addr * 4 + kind);
		if (nf > 1)
		{
			u64 a = addr, e = addr + size;
			while (a < e)
			{
				u64 wend = (a & ~7ull) + 8; u64 stop = wend < e ? wend : e;
				u8 mask = (u8)(((1u << (stop - a)) - 1) << (a & 7));
				access_word(a & ~7ull, mask, kind, pc);
				a = stop;
			}
		}
	}
	void touch_read(const void* p, size_t n) { bool s = g_track; g_track = false; access((u64)p, n, 0, (u64)__builtin_return_address(0)); g_track = s; }
	void touch_write(const void* p, size_t n) { bool s = g_track; g_track = false; access((u64)p, n, 1, (u64)__builtin_return_address(0)); g_track = s; }

	// atomics: per-address synchronisation clocks
	struct Sync { VC vc; bool any; };
	static std::unordered_map<u64, Sync> g_sync;
	static void joinvc(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
	static bool is_acq(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST || o == __ATOMIC_CONSUME; }
	static bool is_rel(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
	static void atomic_pre(u64 addr, size_t size, bool load, u64 pc) { if (g_track) { g_track = false; spinning(addr); access(addr, size, load ? 4 : 2, pc); g_track = true; } }
	static void atomic_load_sync(u64 addr, int mo)
	{
		if (!g_track || nf <= 1) return;
		auto it = g_sync.find(addr); if (it == g_sync.end() || !it->second.any) return;
		if (is_acq(mo)) joinvc(F[cur].vc, it->second.vc); else joinvc(F[cur].acq, it->second.vc);
	}
	static void atomic_store_sync(u64 addr, int mo, bool rmw)
	{
		if (!g_track || nf <= 1) return;
		g_track = false; Sync& s = g_sync[addr]; g_track = true;
		if (!rmw) { s.any = false; memset(&s.vc, 0, sizeof s.vc); }
		if (is_rel(mo)) { joinvc(s.vc, F[cur].vc); s.any = true; F[cur].vc.c[cur]++; }
		else if (F[cur].hasrel) { joinvc(s.vc, F[cur].rel); s.any = true; }
	}

	struct SimLock { int owner, depth; VC vc; };
	static std::unordered_map<u64, SimLock>* g_locks;
	void sync_release(u64 key) { if (nf <= 1) return; joinvc(g_sync[key].vc, F[cur].vc); g_sync[key].any = true; F[cur].vc.c[cur]++; }
	void sync_acquire(u64 key) { if (nf <= 1) return; auto it = g_sync.find(key); if (it != g_sync.end()) joinvc(F[cur].vc, it->second.vc); }

// =====================================================================================================
// Verdicts
// =====================================================================================================
	static char g_viol_trace_path[512];
	[[noreturn]] static void finish_run_abnormal()
	{
		if (g_tracefile) fflush(g_tracefile);
		S->viol_seed = g_seed;
		S->viol_hash = g_hash;
		_exit(0);
	}
	void fail(const char* kind, const char* fmt, ...)
	{
		g_track = false;
		S->violated = 1;
		snprintf(S->kind, sizeof S->kind, "%s", kind);
		va_list ap; va_start(ap, fmt); vsnprintf(S->msg, sizeof S->msg, fmt, ap); va_end(ap);
		if (g_tracefile) fprintf(g_tracefile, "T%d ** VIOLATION %s: %s\n", cur, S->kind, S->msg);
		finish_run_abnormal();
	}
	void log(const char* fmt, ...)
	{
		if (!g_trace || !g_tracefile) return;
		bool s = g_track; g_track = false;
		fprintf(g_tracefile, "[%6llu] T%d ", (unsigned long long)g_steps, cur);
		va_list ap; va_start(ap, fmt); vfprintf(g_tracefile, fmt, ap); va_end(ap);
		fputc('\n', g_tracefile);
		g_track = s;
	}
	bool tracing() { return g_trace; }
	static void count(Counter* t, const char* name)
	{
		for (int i = 0; i < MAX_NAMES; i++)
		{
			if (!t[i].name[0]) { snprintf(t[i].name, sizeof t[i].name, "%s", name); t[i].count = 1; return; }
			if (!strncmp(t[i].name, name, sizeof t[i].name - 1)) { t[i].count++; return; }
		}
	}
	static bool g_nontriv;
	static std::set<std::string> g_known;
	void known(const char* key, const char* fmt, ...)
	{
		va_list ap; va_start(ap, fmt); char b[1024]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
		if (!g_known.count(key)) fail((std::string("defect:") + key).c_str(), "%s", b);
		count(S->knowns, key);
	}
	void fault(const char* k) { count(S->faults, k); g_nontriv = true; }
	void probe(const char* k) { count(S->probes, k); }
	void nontrivial() { g_nontriv = true; }
	void sim_time(double s) { S->sim_seconds += s; }

// =====================================================================================================
// Running one seed
// =====================================================================================================
	static u64 derive(u64 base, u64 index) { u64 x = base * 0xD1342543DE82EF95ull + index * 0x9E3779B97F4A7C15ull + 0x1234567; u64 h = 1469598103934665603ull; for (const char* p = sim_property; *p; p++) h = (h ^ (u8)*p) * 1099511628211ull; x ^= h; splitmix(x); return splitmix(x); }
	static bool g_finished;
	static void main_fiber()
	{
		sim_scenario();
		g_track = false;
		g_finished = true;
		void* dummy; sim_switch(&dummy, g_scheduler_sp);
		abort();
	}
	static void reset_heap()
	{
		for (auto& b : g_blocks) clear_valid(b.first, b.second.size);
		g_blocks.clear(); g_freelist.clear(); g_sync.clear();
		g_lo = 0; g_hi = ARENA_SIZE; memset(g_stripe, 0, sizeof g_stripe);
		g_blockid = 0; g_live_lib = 0; g_allocs = 0; for (int i = 0; i < MAXT; i++) { g_fail_after_[i] = ~0ull; g_fail_count_[i] = 0; g_failed_[i] = 0; }
		if (++g_epoch == 0) g_epoch = 1;
	}
	static void on_signal(int sig, siginfo_t* si, void*)
	{
		g_track = false;
		S->violated = 1;
		const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGABRT ? "SIGABRT" : sig == SIGVTALRM ? "hang" : "signal";
		snprintf(S->kind, sizeof S->kind, "crash:%s", n);
		snprintf(S->msg, sizeof S->msg, "the run ended with %s (address %s)", n, (u64)si->si_addr < 65536 ? "near null" : "wild");
		finish_run_abnormal();
	}
	static void on_terminate()
	{
		g_track = false;
		std::string what = "unknown type";
		if (auto e = std::current_exception()) { int st; if (auto t = abi::__cxa_current_exception_type()) { char* d = abi::__cxa_demangle(t->name(), 0, 0, &st); if (d) { what = d; __real_free(d); } } }
		fail("terminate", "an exception of type %s escaped", what.c_str());
	}
	static void run_one(u64 seed, const std::vector<u32>* replay)
	{
		g_seed = seed; u64 x = seed; g_s0 = splitmix(x); g_s1 = splitmix(x);
		g_replay = replay != nullptr; if (replay) g_in = *replay; g_pos = 0;
		g_nch = 0; g_nsp = 0; S->nchoices = 0; S->nspans = 0; g_hash = 1469598103934665603ull; g_il = 7; g_nontriv = false;
		g_steps = 0; g_budget = STEP_CAP; g_switches = 0; g_preempts = 0; g_seqsched = false; g_countdown = ~0ull; g_change.clear(); g_changei = 0; g_spin_addr = 0; g_spin_n = 0; g_spin_t = -1;
		reset_heap();
		memset(F, 0, sizeof F); memset(g_lastclk, 0, sizeof g_lastclk); if (g_locks) g_locks->clear(); nf = 1; cur = 0; F[0].st = Runnable; for (int i = 0; i < MAXT; i++) F[0].vc.c[i] = 0; F[0].vc.c[0] = 1;
		g_track = false;
		// swarm configuration of the run
		g_policy = choose(6);
		g_pattern = (u8[]){ 0xCD, 0x00, 0xFF, 0x5A }[choose(4)];
		g_strategy = pick({ 1, 6, 4, 3 });
		static const u32 means[] = { 200, 2, 4, 8, 16, 32, 64, 24 };
		g_mean = means[choose(8)];
		if (g_strategy == 2)
		{
			u32 d = choose(5);
			static const u32 ks[] = { 400, 100, 200, 1500 };
			u32 k = ks[choose(4)];
			for (u32 i = 0; i < d; i++) g_change.push_back(1 + choose(k));
			std::sort(g_change.begin(), g_change.end());
			F[0].prio = 1000;
		}
		if (g_trace) log("seed=%llu heap-policy=%d pattern=%02x strategy=%d mean=%u", (unsigned long long)seed, g_policy, g_pattern, g_strategy, g_mean);
		prepare_stack(F[0], 0, &main_fiber);
		g_finished = false;
		if (!g_tls_dtors) tls_find();
		tls_fresh(0); tls_swap(-1, 0);
		u64 eh[2]; memcpy(eh, abi::__cxa_get_globals(), 16); memset(abi::__cxa_get_globals(), 0, 16);
		sim_switch(&g_scheduler_sp, F[0].sp);
		memcpy(abi::__cxa_get_globals(), eh, 16);
		g_replay = false;
	}
	static void child_setup()
	{
		stack_t ss; ss.ss_sp = __real_malloc(65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
		struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
		for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM }) sigaction(s, &sa, nullptr);
		struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 20; setitimer(ITIMER_VIRTUAL, &it, nullptr);
		std::set_terminate(on_terminate);
	}
	static void map_memory()
	{
		auto m = [](void* at, size_t n) { void* p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return p; };
		m(ARENA, ARENA_SIZE);
		for (int i = 0; i < MAXT; i++) m(STACK_BASE + (size_t)i * (STACK + 65536) + 65536, STACK);
		g_valid = (u8*)m(nullptr, ARENA_SIZE / 8 + 64);
		g_cells = (Cell*)m(nullptr, ARENA_SIZE / 8 * sizeof(Cell));
		g_gwords = (_end - __data_start) / 8 + 2;
		g_gcells = (Cell*)m(nullptr, g_gwords * sizeof(Cell));
		S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	}

	// ---- parent side ----------------------------------------------------------------------------------
	static void clear_shared() { S->runs_done = 0; S->violated = 0; S->discarded = 0; S->kind[0] = S->msg[0] = 0; S->pc = 0; S->nchoices = S->nspans = 0; memset(S->faults, 0, sizeof S->faults); memset(S->probes, 0, sizeof S->probes); memset(S->knowns, 0, sizeof S->knowns); S->sim_seconds = 0; }
	static void summarise(u32 i, u64 seed)
	{
		RunSummary& r = S->runs[i]; r.seed = seed; r.hash = g_hash; r.il_hash = g_il; r.steps = g_steps; r.switches = g_switches; r.preempts = g_preempts; r.nchoices = g_nch;
		r.nontrivial = g_nontriv; r.done = 1; S->runs_done = i + 1;
	}
	// runs seeds in a child; returns false when the child died in an unexpected way
	static bool run_child(const std::vector<u64>& seeds, const std::vector<u32>* replay, bool trace = false, const char* tracepath = nullptr)
	{
		clear_shared();
		fflush(nullptr);
		pid_t p = fork();
		if (p < 0) { perror("fork"); exit(2); }
		if (p == 0)
		{
			child_setup();
			g_trace = trace;
			if (tracepath) g_tracefile = fopen(tracepath, "w");
			for (u32 i = 0; i < seeds.size(); i++) { run_one(seeds[i], replay); S->viol_hash = g_hash; summarise(i, seeds[i]); }
			if (g_tracefile) { fprintf(g_tracefile, "-- run ended normally\n"); fclose(g_tracefile); }
			_exit(0);
		}
		int st; 
		while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
		if (!S->violated)
		{
			S->violated = 1;
			snprintf(S->kind, sizeof S->kind, "crash:exit");
			snprintf(S->msg, sizeof S->msg, "the process ended abnormally (status %d)", st);
			S->viol_seed = seeds.size() == 1 ? seeds[0] : 0;
		}
		return true;
	}
	struct Outcome { u32 violated; std::string kind, msg; u64 hash; std::vector<u32> choices; std::vector<std::pair<u32, u32>> spans; };
	static Outcome trial(u64 seed, const std::vector<u32>* replay, bool trace = false, const char* path = nullptr)
	{
		run_child({ seed }, replay, trace, path);
		Outcome o; o.violated = S->violated; o.kind = S->kind; o.msg = S->msg; o.hash = S->viol_hash;
		o.choices.assign(S->choices, S->choices + S->nchoices);
		for (u32 i = 0; i < S->nspans; i++) o.spans.push_back({ S->spans[i][0], S->spans[i][1] });
		return o;
	}
	static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
	static std::string esc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32) r += ' '; else r += c; } return r; }

	static int cmd_run(u64 base, u64 first, u64 count, u64 stride, double limit, u32 batch)
	{
		std::map<std::string, u64> faults, probes, knowns;
		std::unordered_set<u64> hashes, ils; u64 runs = 0, nontriv = 0, steps = 0, max_steps = 0, switches = 0, preempted = 0, preempts = 0, contaminated = 0, errors = 0; double simsec = 0;
		double t0 = wall();
		bool viol = false; u64 vseed = 0, vidx = 0; std::string vk, vm;
		u64 i = 0;
		auto absorb = [&]()
		{
			for (u32 k = 0; k < S->runs_done; k++)
			{
				RunSummary& r = S->runs[k]; runs++; steps += r.steps; max_steps = std::max(max_steps, r.steps); switches += r.switches; if (r.preempts) preempted++; preempts += r.preempts;
				if (r.nontrivial) { nontriv++; if (hashes.size() < 4000000) hashes.insert(r.hash); }
				if (r.switches && ils.size() < 4000000) ils.insert(r.il_hash);
			}
			for (auto& c : S->faults) if (c.name[0]) faults[c.name] += c.count;
			for (auto& c : S->probes) if (c.name[0]) probes[c.name] += c.count;
			for (auto& c : S->knowns) if (c.name[0]) knowns[c.name] += c.count;
			simsec += S->sim_seconds;
		};
		std::vector<u64> sample_hash;
		while (i < count && wall() - t0 < limit && !viol)
		{
			std::vector<u64> seeds; std::vector<u64> idx;
			for (u32 k = 0; k < batch && i < count; k++, i++) { idx.push_back(first + i * stride); seeds.push_back(derive(base, idx.back())); }
			run_child(seeds, nullptr);
			u32 v = S->violated;
			if (!v) { absorb(); continue; }
			// something happened: redo every seed of the batch alone, in a fresh process image each
			bool confirmed = false;
			for (size_t k = 0; k < seeds.size() && !viol; k++)
			{
				run_child({ seeds[k] }, nullptr);
				if (S->violated == 1) { viol = confirmed = true; vseed = seeds[k]; vidx = idx[k]; vk = S->kind; vm = S->msg; absorb(); runs++; }
				else if (S->violated == 2) { errors++; absorb(); }
				else absorb();
			}
			if (v == 1 && !confirmed) contaminated++;
		}
		printf("{\"runs\": %llu, \"nontrivial\": %llu, \"distinct\": %zu, \"interleavings\": %zu, \"preempted\": %llu, \"steps\": %llu, \"max_steps\": %llu, \"switches\": %llu, \"preempts\": %llu, \"sim_seconds\": %.3f, \"wall\": %.3f, \"contaminated\": %llu, \"errors\": %llu,",
			(unsigned long long)runs, (unsigned long long)nontriv, hashes.size(), ils.size(), (unsigned long long)preempted, (unsigned long long)steps, (unsigned long long)max_steps, (unsigned long long)switches, (unsigned long long)preempts, simsec, wall() - t0, (unsigned long long)contaminated, (unsigned long long)errors);
		printf("\"faults\": {"); bool f = true; for (auto& c : faults) { printf("%s\"%s\": %llu", f ? "" : ", ", esc(c.first).c_str(), (unsigned long long)c.second); f = false; }
		printf("}, \"probes\": {"); f = true; for (auto& c : probes) { printf("%s\"%s\": %llu", f ? "" : ", ", esc(c.first).c_str(), (unsigned long long)c.second); f = false; }
		printf("}, \"known\": {"); f = true; for (auto& c : knowns) { printf("%s\"%s\": %llu", f ? "" : ", ", esc(c.first).c_str(), (unsigned long long)c.second); f = false; }
		printf("}, \"violation\": ");
		if (viol) printf("{\"seed\": %llu, \"index\": %llu, \"kind\": \"%s\", \"msg\": \"%s\"}", (unsigned long long)vseed, (unsigned long long)vidx, esc(vk).c_str(), esc(vm).c_str()); else printf("null");
		printf("}\n");
		return 0;
	}

	static bool same_kind(const Outcome& a, const std::string& k) { return a.violated == 1 && a.kind == k; }
	static bool simpler(const std::vector<u32>& a, const std::vector<u32>& b)
	{
		if (a.size() != b.size()) return a.size() < b.size();
		return a < b;
	}
	static int cmd_shrink(u64 seed, const char* out, double limit)
	{
		double t0 = wall();
		Outcome a = trial(seed, nullptr), b = trial(seed, nullptr);
		if (a.violated != 1) { fprintf(stderr, "seed %llu does not fail\n", (unsigned long long)seed); return 3; }
		if (b.violated != 1 || a.kind != b.kind || a.hash != b.hash || a.choices != b.choices) { fprintf(stderr, "seed %llu is not deterministic: %s/%llx vs %s/%llx\n", (unsigned long long)seed, a.kind.c_str(), (unsigned long long)a.hash, b.kind.c_str(), (unsigned long long)b.hash); return 4; }
		Outcome best = trial(seed, &a.choices);
		if (!same_kind(best, a.kind)) { fprintf(stderr, "recorded choices do not reproduce seed %llu\n", (unsigned long long)seed); return 4; }
		size_t original = best.choices.size(); u64 trials = 0; std::string kind = a.kind;
		auto attempt = [&](const std::vector<u32>& c) -> bool
		{
			trials++;
			Outcome o = trial(seed, &c);
			if (!same_kind(o, kind)) return false;
			if (!simpler(o.choices, best.choices)) return false;
			best = o; return true;
		};
		bool progress = true;
		while (progress && wall() - t0 < limit)
		{
			progress = false;
			// 1. delete whole spans, largest first
			for (bool again = true; again && wall() - t0 < limit;)
			{
				again = false;
				auto sp = best.spans; std::sort(sp.begin(), sp.end(), [](auto& x, auto& y) { return x.second - x.first > y.second - y.first; });
				for (auto& s : sp)
				{
					if (wall() - t0 >= limit) break;
					if (s.second > best.choices.size()) continue;
					auto c = best.choices; c.erase(c.begin() + s.first, c.begin() + s.second);
					if (attempt(c)) { again = progress = true; break; }
				}
			}
			// 2. delete chunks, from the end
			for (size_t chunk = 16; chunk >= 1 && wall() - t0 < limit; chunk /= 2)
				for (size_t e = best.choices.size(); e >= chunk && e > 0 && wall() - t0 < limit;)
				{
					if (e > best.choices.size()) { e = best.choices.size(); continue; }
					auto c = best.choices; c.erase(c.begin() + (e - chunk), c.begin() + e);
					if (attempt(c)) { progress = true; e = std::min(e, best.choices.size()); if (e < chunk) break; }
					else e--;
				}
			// 3. zero chunks, then lower single values
			for (size_t chunk = 8; chunk >= 1 && wall() - t0 < limit; chunk /= 2)
				for (size_t k = 0; k + chunk <= best.choices.size() && wall() - t0 < limit; k += chunk)
				{
					auto c = best.choices; bool any = false; for (size_t j = k; j < k + chunk; j++) { if (c[j]) any = true; c[j] = 0; }
					if (any && attempt(c)) progress = true;
				}
			for (size_t k = 0; k < best.choices.size() && wall() - t0 < limit; k++)
			{
				u32 lo = 0;
				while (k < best.choices.size() && lo < best.choices[k] && wall() - t0 < limit)
				{
					u32 v = best.choices[k], m = lo + (v - lo) / 2;
					auto c = best.choices; c[k] = m;
					if (attempt(c)) progress = true; else { if (m == lo) { lo = m + 1; } else lo = m + 1; }
					if (lo >= v) break;
				}
			}
		}
		FILE* f = fopen(out, "w"); if (!f) { perror(out); return 2; }
		fprintf(f, "property %s\nseed %llu\nkind %s\nhash %llx\nmessage %s\noriginal-choices %zu\ntrials %llu\nchoices %zu\n", sim_property, (unsigned long long)seed, best.kind.c_str(), (unsigned long long)best.hash, esc(best.msg).c_str(), original, (unsigned long long)trials, best.choices.size());
		for (size_t k = 0; k < best.choices.size(); k++) fprintf(f, "%u%c", best.choices[k], (k % 24 == 23 || k + 1 == best.choices.size()) ? '\n' : ' ');
		fprintf(f, "trace\n");
		std::string tp = std::string(out) + ".trace";
		trial(seed, &best.choices, true, tp.c_str());
		if (FILE* g = fopen(tp.c_str(), "r")) { char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, g)) > 0) fwrite(buf, 1, n, f); fclose(g); unlink(tp.c_str()); }
		fclose(f);
		printf("%s\n%s\n", best.kind.c_str(), best.msg.c_str());
		return 0;
	}
	static int cmd_replay(const char* path, bool trace)
	{
		FILE* f = fopen(path, "r"); if (!f) { perror(path); return 2; }
		char line[8192]; u64 seed = 0; std::string kind; unsigned long long hash = 0; std::vector<u32> ch; size_t n = 0;
		while (fgets(line, sizeof line, f))
		{
			if (!strncmp(line, "seed ", 5)) seed = strtoull(line + 5, 0, 10);
			else if (!strncmp(line, "kind ", 5)) { kind = line + 5; while (!kind.empty() && kind.back() == '\n') kind.pop_back(); }
			else if (!strncmp(line, "hash ", 5)) hash = strtoull(line + 5, 0, 16);
			else if (!strncmp(line, "choices ", 8)) { n = strtoull(line + 8, 0, 10); for (size_t k = 0; k < n; k++) { unsigned v; if (fscanf(f, "%u", &v) != 1) { fprintf(stderr, "bad replay file\n"); return 2; } ch.push_back(v); } break; }
		}
		fclose(f);
		Outcome o = trial(seed, &ch, trace, trace ? "/dev/stdout" : nullptr);
		if (o.violated == 1 && o.kind == kind && o.hash == hash) { printf("REPRODUCED %s: %s\n", o.kind.c_str(), o.msg.c_str()); return 0; }
		printf("NOT-REPRODUCED (violated=%u kind=%s hash=%llx, expected %s %llx) %s\n", o.violated, o.kind.c_str(), (unsigned long long)o.hash, kind.c_str(), hash, o.msg.c_str());
		return 1;
	}
	static int cmd_hashes(u64 base, u64 first, u64 count, u32 batch)
	{
		for (u64 i = 0; i < count; i += batch)
		{
			std::vector<u64> seeds; for (u64 k = i; k < count && k < i + batch; k++) seeds.push_back(derive(base, first + k));
			run_child(seeds, nullptr);
			for (u32 k = 0; k < S->runs_done; k++) printf("%llu %llx %llx %u\n", (unsigned long long)S->runs[k].seed, (unsigned long long)S->runs[k].hash, (unsigned long long)S->runs[k].il_hash, S->runs[k].nchoices);
			if (S->violated) printf("V %s %s %llx\n", S->kind, S->msg, (unsigned long long)S->viol_hash);
		}
		return 0;
	}
	static int cmd_trace(u64 seed) { Outcome o = trial(seed, nullptr, true, "/dev/stdout"); printf("violated=%u %s %s hash=%llx choices=%zu\n", o.violated, o.kind.c_str(), o.msg.c_str(), (unsigned long long)o.hash, o.choices.size()); return 0; }
}

// =====================================================================================================
// Instrumentation entry points
// =====================================================================================================
using namespace sim;
#define PC ((u64)__builtin_return_address(0))
#define TR(ADDR, N, K) do { if (g_track) { g_track = false; access((u64)(ADDR), N, K, PC); g_track = true; } } while (0)
extern "C"
{
	void __tsan_init() {}
	void __tsan_func_entry(void*) {}
	void __tsan_func_exit() {}
#define RW(N) \
	void __tsan_read##N(void* p) { TR(p, N, 0); } \
	void __tsan_write##N(void* p) { TR(p, N, 1); } \
	void __tsan_unaligned_read##N(void* p) { TR(p, N, 0); } \
	void __tsan_unaligned_write##N(void* p) { TR(p, N, 1); } \
	void __tsan_volatile_read##N(void* p) { TR(p, N, 0); } \
	void __tsan_volatile_write##N(void* p) { TR(p, N, 1); } \
	void __tsan_read##N##_pc(void* p, void*) { TR(p, N, 0); } \
	void __tsan_write##N##_pc(void* p, void*) { TR(p, N, 1); }
	RW(1) RW(2) RW(4) RW(8) RW(16)
	void __tsan_read_range(void* p, unsigned long n) { TR(p, n, 0); }
	void __tsan_write_range(void* p, unsigned long n) { TR(p, n, 1); }
	void __tsan_vptr_update(void** p, void* v) { if (g_track) { g_track = false; access((u64)p, 8, 0, PC); if (*p != v) access((u64)p, 8, 1, PC); g_track = true; } }
	void __tsan_vptr_read(void** p) { TR(p, 8, 0); }

#define ATOMICS(BITS, T) \
	T __tsan_atomic##BITS##_load(const volatile T* a, int mo) { atomic_pre((u64)a, sizeof(T), true, PC); T v = *a; atomic_load_sync((u64)a, mo); return v; } \
	void __tsan_atomic##BITS##_store(volatile T* a, T v, int mo) { atomic_pre((u64)a, sizeof(T), false, PC); atomic_store_sync((u64)a, mo, false); *a = v; } \
	T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int mo) { atomic_pre((u64)a, sizeof(T), false, PC); T o = *a; atomic_load_sync((u64)a, mo); atomic_store_sync((u64)a, mo, true); *a = v; return o; } \
	T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int mo) { atomic_pre((u64)a, sizeof(T), false, PC); T o = *a; atomic_load_sync((u64)a, mo); atomic_store_sync((u64)a, mo, true); *a = o + v; return o; } \
	T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int mo) { atomic_pre((u64)a, sizeof(T), false, PC); T o = *a; atomic_load_sync((u64)a, mo); atomic_store_sync((u64)a, mo, true); *a = o - v; return o; } \
	T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int mo) { atomic_pre((u64)a, sizeof(T), false, PC); T o = *a; atomic_load_sync((u64)a, mo); atomic_store_sync((u64)a, mo, true); *a = o & v; return o; } \
	T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int mo) { atomic_pre((u64)a, sizeof(T), false, PC); T o = *a; atomic_load_sync((u64)a, mo); atomic_store_sync((u64)a, mo, true); *a = o | v; return o; } \
	T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int mo) { atomic_pre((u64)a, sizeof(T), false, PC); T o = *a; atomic_load_sync((u64)a, mo); atomic_store_sync((u64)a, mo, true); *a = o ^ v; return o; } \
	T __tsan_atomic##BITS##_fetch_nand(volatile T* a, T v, int mo) { atomic_pre((u64)a, sizeof(T), false, PC); T o = *a; atomic_load_sync((u64)a, mo); atomic_store_sync((u64)a, mo, true); *a = ~(o & v); return o; } \
	bool __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { atomic_pre((u64)a, sizeof(T), false, PC); T o = *a; if (o == *c) { atomic_load_sync((u64)a, mo); atomic_store_sync((u64)a, mo, true); *a = v; return true; } atomic_load_sync((u64)a, fmo); *c = o; return false; } \
	bool __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { atomic_pre((u64)a, sizeof(T), false, PC); T o = *a; if (o == *c) { atomic_load_sync((u64)a, mo); atomic_store_sync((u64)a, mo, true); *a = v; return true; } atomic_load_sync((u64)a, fmo); *c = o; return false; }
	ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
	void __tsan_atomic_thread_fence(int mo)
	{
		if (!g_track || nf <= 1) return;
		if (is_acq(mo)) joinvc(F[cur].vc, F[cur].acq);
		if (is_rel(mo)) { F[cur].rel = F[cur].vc; F[cur].hasrel = true; F[cur].vc.c[cur]++; }
	}
	void __tsan_atomic_signal_fence(int) {}

	// ---- allocation --------------------------------------------------------------------------------
	void* __wrap_malloc(size_t n) { if (!g_track || F[cur].statics) return __real_malloc(n); g_track = false; point(1); void* p = do_alloc(n, true, 0); g_track = true; return p; }
	void __wrap_free(void* p) { if (!in_arena(p)) { __real_free(p); return; } bool s = g_track; g_track = false; if (s) point(1); do_free(p, 0, PC); g_track = s; }
	void* __wrap_calloc(size_t a, size_t b) { if (!g_track) return __real_calloc(a, b); void* p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
	void* __wrap_realloc(void* p, size_t n)
	{
		if (!g_track && !in_arena(p)) return __real_realloc(p, n);
		if (!p) return __wrap_malloc(n);
		bool s = g_track; g_track = true; void* q = __wrap_malloc(n); g_track = s;
		if (!q) return nullptr;
		size_t old = g_blocks[(char*)p - ARENA].size;
		TR(p, old < n ? old : n, 0);
		memmove(q, p, old < n ? old : n);
		__wrap_free(p);
		return q;
	}

	// ---- bulk memory functions ---------------------------------------------------------------------
	void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
	void* __real_memchr(const void*, int, size_t);
	size_t __real_strlen(const char*); size_t __real_wcslen(const wchar_t*);
	void* __wrap_memcpy(void* d, const void* s, size_t n) {
		if (g_track && n) { TR(s, n, 0); TR(d, n, 1); if (d != s && (char*)d < (char*)s + n && (char*)s < (char*)d + n) { g_track = false; fail("overlapping-copy", "memcpy with overlapping ranges (%zu bytes)", n); } }
		return __real_memmove(d, s, n); }
	void* __wrap_memmove(void* d, const void* s, size_t n) { if (g_track && n) { TR(s, n, 0); TR(d, n, 1); } return __real_memmove(d, s, n); }
	void* __wrap_memset(void* d, int c, size_t n) { if (g_track && n) TR(d, n, 1); return __real_memset(d, c, n); }
	int __wrap_memcmp(const void* a, const void* b, size_t n) { if (g_track && n) { TR(a, n, 0); TR(b, n, 0); } return __real_memcmp(a, b, n); }
	void* __wrap_memchr(const void* a, int c, size_t n) { void* r = (void*)__real_memchr(a, c, n); if (g_track && n) TR(a, r ? (size_t)((char*)r - (char*)a) + 1 : n, 0); return r; }
	size_t __wrap_strlen(const char* s) { if (g_track) { size_t n = 0; for (;;) { TR(s + n, 1, 0); if (!s[n]) return n; n++; } } return __real_strlen(s); }
	size_t __wrap_wcslen(const wchar_t* s) { if (g_track) { size_t n = 0; for (;;) { TR(s + n, 4, 0); if (!s[n]) return n; n++; } } return __real_wcslen(s); }
	void* __wrap_wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { return __wrap_memcpy(d, s, n * 4); }
	void* __wrap_wmemmove(wchar_t* d, const wchar_t* s, size_t n) { return __wrap_memmove(d, s, n * 4); }

	// ---- locks and one-time initialisation that library code might use --------------------------------
	static SimLock& lk(void* m) { if (!g_locks) g_locks = new std::unordered_map<u64, SimLock>(); auto it = g_locks->find((u64)m); if (it == g_locks->end()) { SimLock l; memset(&l, 0, sizeof l); l.owner = -1; it = g_locks->emplace((u64)m, l).first; } return it->second; }
	static bool lock_sim(void* m, bool recursive, bool tryonly)
	{
		bool s = g_track; g_track = false;
		if (s) point(1);
		for (;;)
		{
			SimLock& l = lk(m);
			if (l.owner == -1 || (recursive && l.owner == cur)) { l.owner = cur; l.depth++; joinvc(F[cur].vc, l.vc); g_track = s; return true; }
			if (tryonly) { g_track = s; return false; }
			if (l.owner == cur) fail("deadlock", "a thread locks a mutex it already holds");
			F[cur].st = Blocked; F[cur].wait = m; schedule_away();
		}
	}
	static void unlock_sim(void* m)
	{
		bool s = g_track; g_track = false;
		SimLock& l = lk(m);
		if (--l.depth <= 0) { l.depth = 0; l.owner = -1; joinvc(l.vc, F[cur].vc); F[cur].vc.c[cur]++; for (int i = 0; i < nf; i++) if (F[i].st == Blocked && F[i].wait == m) { F[i].st = Runnable; F[i].wait = nullptr; } }
		g_track = s;
	}
	int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*);
	int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!g_track) return __real_pthread_mutex_lock(m); lock_sim(m, m->__data.__kind & PTHREAD_MUTEX_RECURSIVE, false); return 0; }
	int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (!g_track) return __real_pthread_mutex_trylock(m); return lock_sim(m, m->__data.__kind & PTHREAD_MUTEX_RECURSIVE, true) ? 0 : EBUSY; }
	int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!g_track) return __real_pthread_mutex_unlock(m); unlock_sim(m); return 0; }
	int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { lock_sim(m, true, false); return 0; }
	int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { lock_sim(m, false, false); return 0; }
	int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { unlock_sim(m); return 0; }

	// waiting without a lock: the simulated clock passes and another thread runs
	static void wait_a_bit() { bool s = g_track; g_track = false; if (++g_steps > g_budget) out_of_steps(); step_aside(); g_track = s; }
	int __real_sched_yield(); int __real_usleep(unsigned); int __real_nanosleep(const timespec*, timespec*); int __real_clock_nanosleep(int, int, const timespec*, timespec*);
	int __wrap_sched_yield() { if (!g_track) return __real_sched_yield(); wait_a_bit(); return 0; }
	int __wrap_usleep(unsigned n) { if (!g_track) return __real_usleep(n); wait_a_bit(); return 0; }
	int __wrap_nanosleep(const timespec* a, timespec* b) { if (!g_track) return __real_nanosleep(a, b); wait_a_bit(); return 0; }
	int __wrap_clock_nanosleep(int c, int f, const timespec* a, timespec* b) { if (!g_track) return __real_clock_nanosleep(c, f, a, b); wait_a_bit(); return 0; }
	int __real_pthread_once(pthread_once_t*, void(*)());
	int __wrap_pthread_once(pthread_once_t* o, void(*f)())
	{
		if (!g_track) return __real_pthread_once(o, f);
		if (*(volatile int*)o) { g_track = false; joinvc(F[cur].vc, lk(o).vc); g_track = true; return 0; }
		lock_sim(o, false, false);
		if (!*(volatile int*)o)
		{
			F[cur].statics++;
			try { f(); } catch (...) { F[cur].statics--; unlock_sim(o); throw; }
			F[cur].statics--;
			*(volatile int*)o = 2;
		}
		unlock_sim(o);
		return 0;
	}

	int __wrap___cxa_thread_atexit(void(*f)(void*), void* p, void*) { bool s = g_track; g_track = false; if (g_tls_dtors) g_tls_dtors[cur].push_back({ f, p }); g_track = s; return 0; }
	int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); void __real___cxa_guard_abort(uint64_t*);
	int __wrap___cxa_guard_acquire(uint64_t* g)
	{
		if (!g_track) return __real___cxa_guard_acquire(g);
		if (*(volatile u8*)g) { bool s = g_track; g_track = false; joinvc(F[cur].vc, lk(g).vc); g_track = s; return 0; }
		lock_sim(g, false, false);
		if (*(volatile u8*)g) { unlock_sim(g); return 0; }
		F[cur].statics++;
		return 1;
	}
	void __wrap___cxa_guard_release(uint64_t* g)
	{
		bool s = g_track; g_track = false;
		bool mine = g_locks && g_locks->count((u64)g) && lk(g).owner == cur;
		g_track = s;
		if (!mine) { __real___cxa_guard_release(g); return; }
		*(volatile u8*)g = 1; F[cur].statics--;
		g_track = false; Sync& y = g_sync[(u64)g]; joinvc(y.vc, F[cur].vc); y.any = true; g_track = s;
		unlock_sim(g);
	}
	void __wrap___cxa_guard_abort(uint64_t* g)
	{
		bool s = g_track; g_track = false;
		bool mine = g_locks && g_locks->count((u64)g) && lk(g).owner == cur;
		g_track = s;
		if (!mine) { __real___cxa_guard_abort(g); return; }
		F[cur].statics--;
		unlock_sim(g);
	}
}
static void* op_new(size_t n, int kind, bool nothrow)
{
	if (!g_track || F[cur].statics)	// storage of function-local statics outlives the run: not simulated
	{
		void* p = __real_malloc(n ? n : 1);
		if (!p) abort();
		return p;
	}
	g_track = false; point(1); void* p = do_alloc(n, true, kind); g_track = true;
	if (!p && !nothrow) throw std::bad_alloc();
	return p;
}
static void op_delete(void* p, int kind, u64 pc)
{
	if (!p) return;
	if (!in_arena(p)) { __real_free(p); return; }
	bool s = g_track; g_track = false; if (s) point(1); do_free(p, kind, pc); g_track = s;
}
void* operator new(size_t n) { return op_new(n, 1, false); }
void* operator new[](size_t n) { return op_new(n, 2, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, 1, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, 2, true); }
void operator delete(void* p) noexcept { op_delete(p, 1, PC); }
void operator delete[](void* p) noexcept { op_delete(p, 2, PC); }
void operator delete(void* p, size_t) noexcept { op_delete(p, 1, PC); }
void operator delete[](void* p, size_t) noexcept { op_delete(p, 2, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { op_delete(p, 1, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { op_delete(p, 2, PC); }

static u64 num(const char* s) { return strtoull(s, nullptr, 10); }
int main(int argc, char** argv)
{
	std::string cmd = argc > 1 ? argv[1] : "";
	std::map<std::string, std::string> o;
	for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
	auto get = [&](const char* k, const char* d) { return o.count(k) ? o[k] : std::string(d); };
	{ std::string k = get("--known", ""); size_t p = 0; while (p < k.size()) { size_t e = k.find(',', p); if (e == std::string::npos) e = k.size(); sim::g_known.insert(k.substr(p, e - p)); p = e + 1; } }
	map_memory();
	setenv("TZ", "UTC", 1); tzset();
	if (cmd == "run") return cmd_run(num(get("--base", "1").c_str()), num(get("--first", "0").c_str()), num(get("--count", "1000").c_str()), num(get("--stride", "1").c_str()), atof(get("--limit", "60").c_str()), (u32)std::min<u64>(MAX_BATCH, num(get("--batch", "16").c_str())));
	if (cmd == "shrink") return cmd_shrink(num(get("--seed", "0").c_str()), get("--out", "replay.txt").c_str(), atof(get("--limit", "30").c_str()));
	if (cmd == "replay") return cmd_replay(get("--file", "").c_str(), get("--trace", "0") == "1");
	if (cmd == "hashes") return cmd_hashes(num(get("--base", "1").c_str()), num(get("--first", "0").c_str()), num(get("--count", "100").c_str()), (u32)std::min<u64>(MAX_BATCH, num(get("--batch", "16").c_str())));
	if (cmd == "trace") return cmd_trace(num(get("--seed", "0").c_str()));
	fprintf(stderr, "usage: run|shrink|replay|hashes|trace\n");
	return 2;
}

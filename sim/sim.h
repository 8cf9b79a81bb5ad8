// Deterministic simulator for a single-process C++ library: harness-facing interface.
// Library code runs between sim::Lib scopes; there every memory access, atomic operation and allocation is simulated.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <functional>
#include <string>
#include <new>

namespace sim
{
	// ---- the one recorded choice sequence -------------------------------------------------------------
	uint32_t	choose(uint32_t n);									// uniform in [0,n); 0 is the simplest choice
	uint32_t	draw(uint32_t n, uint32_t value_if_random);			// recorded, but the caller supplies the random value
	uint64_t	rnd();												// raw PRNG, only to be passed into draw()
	bool		chance(uint32_t num, uint32_t den);					// true with probability num/den; recorded, 0 == false
	bool		more(uint32_t mean);								// loop control: geometric with the given mean; 0 == stop
	uint32_t	pick(std::initializer_list<uint32_t> weights);		// weighted index; earlier indices are simpler
	struct Span { uint32_t begin; Span(); ~Span(); };				// a deletable unit for the minimiser

	// up to `max` generated operations (geometric with mean `mean`); each is one deletable span. Returns how many ran.
	template<class F> int ops(int max, uint32_t mean, F f) { int n = 0; while (n < max) { Span s; if (!more(mean)) break; n++; f(); } return n; }

	// ---- library / harness mode ----------------------------------------------------------------------
	bool		set_mode(bool library);								// out of line: must not be instrumented; returns the old mode
	struct Lib { bool s; Lib() : s(set_mode(true)) {} ~Lib() { set_mode(s); } };
	struct Har { bool s; Har() : s(set_mode(false)) {} ~Har() { set_mode(s); } };
	template<class F> decltype(auto) lib(F&& f) { Lib l; return f(); }
	void		touch_read(const void* p, size_t n);				// a tracked access made on behalf of harness objects
	void		touch_write(const void* p, size_t n);

	// ---- simulated threads ----------------------------------------------------------------------------
	int			spawn(std::function<void()> body);					// body starts in harness mode
	void		join_all();											// main only: run until every spawned thread ended
	void		yield();											// explicit schedule point
	int			tid();
	int			thread_count();
	void		sequential_schedule();								// this run: no preemption (threads still interleave at yield())
	void		sync_release(uint64_t key);							// models a lock-protected hand-over between threads
	void		sync_acquire(uint64_t key);
	uint64_t	now();												// global event sequence number

	// ---- simulated heap -------------------------------------------------------------------------------
	void*		heap_alloc(size_t n);								// arena block owned by the harness (not counted as leak of the library)
	void		heap_free(void* p);
	bool		in_arena(const void* p);
	bool		is_live_block(const void* p);						// p is the start of a live block
	size_t		live_blocks();										// live blocks allocated in library mode
	uint64_t	alloc_count();										// library-mode allocation attempts so far in this run
	void		fail_alloc_after(uint64_t n, uint64_t how_many = 1);// n further allocations succeed, then how_many fail
	uint64_t	clear_alloc_faults();								// disarm; returns how many failed since armed
	void		check_no_leaks(const char* where);

	// ---- verdicts, measurements, log ------------------------------------------------------------------
	[[noreturn]] void	fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	void		log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	bool		tracing();
	void		fault(const char* kind);							// an injected fault actually fired
	void		probe(const char* name);							// a rare condition was reached
	void		known(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));	// a defect listed in known_findings.json; a violation if it is not listed
	void		nontrivial();										// mark this run as non-trivial
	void		sim_time(double seconds);							// simulated time covered
	void		mix(uint64_t v);									// fold an observation into the run's trace hash
	void		mix(const void* p, size_t n);

	// a fixed, reproducible placement for harness objects that must be visible to the simulated threads
	template<class T, class... A> T* make(A&&... a) { return new(heap_alloc(sizeof(T))) T((A&&)a...); }
	template<class T> void unmake(T* p) { p->~T(); heap_free(p); }
}

// harness variables: not part of the simulated program
#define HARNESS __attribute__((section("simharness")))
#define SIM_CHECK(COND, KIND, ...) do { if (!(COND)) ::sim::fail(KIND, __VA_ARGS__); } while (0)
// run library code in library mode
#define LIB(...) ::sim::lib([&]() -> decltype(auto) { __VA_ARGS__; })

extern const char* const	sim_property;	// defined by the harness
extern void					sim_scenario();	// one simulated run; called in harness mode on simulated thread 0

// Helpers shared by the harnesses.
#pragma once
#include "../sim/sim.h"
#include <vector>
#include <string>
#include <map>
#include <set>
#include <algorithm>
#include <exception>
#include <new>

namespace common
{
	// A lifetime ledger: every tracked object registers construction, destruction and use.
	// The objects themselves live in simulated memory; the ledger is harness memory.
	struct Ledger
	{
		struct Entry { int made = 0, dead = 0; const void* at = nullptr; };
		std::vector<Entry> e;
		long alive = 0;
		int make(const void* at) { e.push_back({ 1, 0, at }); alive++; return (int)e.size() - 1; }
		void kill(int id, const void* at, const char* what)
		{
			SIM_CHECK(id >= 0 && id < (int)e.size(), "lifetime", "%s: destructor runs on memory that never held an object", what);
			SIM_CHECK(e[id].dead == 0, "lifetime", "%s: object %d destroyed twice", what, id);
			SIM_CHECK(e[id].at == at, "lifetime", "%s: object %d destroyed at a different address than it was created (bitwise relocation)", what, id);
			e[id].dead++; alive--;
		}
		void use(int id, const void* at, const char* what) const
		{
			SIM_CHECK(id >= 0 && id < (int)e.size(), "lifetime", "%s: use of memory that never held an object", what);
			SIM_CHECK(e[id].dead == 0, "lifetime", "%s: use of object %d after its destruction", what, id);
			SIM_CHECK(e[id].at == at, "lifetime", "%s: use of object %d at a different address than it was created (bitwise relocation)", what, id);
		}
		void reset() { e.clear(); alive = 0; }
	};
	extern Ledger ledger;	// defined by COMMON_STATE

	// The element type put into containers: holds a value, records its lifetime, may throw on copy.
	struct ElemThrow { int where; };
	extern long elem_copy_fail_[16];	// per thread: number of copies that still succeed, -1 = never fail
	inline long& elem_copy_fail() { return elem_copy_fail_[sim::tid()]; }
	extern long elem_cmp_fail_[16];		// likewise for comparisons
	inline long& elem_cmp_fail() { return elem_cmp_fail_[sim::tid()]; }
	inline void maybe_throw_cmp() { long& f = elem_cmp_fail(); if (f < 0) return; if (f-- == 0) { f = -1; sim::fault("element_comparison_throws"); sim::log("!! element comparison throws"); throw ElemThrow{ 2 }; } }
	inline void	maybe_throw(const char* what)
	{
		long& f = elem_copy_fail();
		if (f < 0) return;
		if (f-- == 0) { f = -1; sim::fault("element_copy_throws"); sim::log("!! element %s throws", what); throw ElemThrow{ 1 }; }
	}
	struct Elem
	{
		int		id;
		int		value;
		void*	self;
		static const int MOVED = -777777;
		void rd() const { sim::touch_read(this, sizeof(*this)); ledger.use(id, this, "element"); }
		Elem() { sim::Har h; maybe_throw("default construction"); sim::touch_write(this, sizeof(*this)); value = 0; self = this; id = ledger.make(this); }
		Elem(int v) { sim::Har h; sim::touch_write(this, sizeof(*this)); value = v; self = this; id = ledger.make(this); }
		Elem(const Elem& o) { sim::Har h; o.rd(); maybe_throw("copy construction"); sim::touch_write(this, sizeof(*this)); value = o.value; self = this; id = ledger.make(this); }
		Elem(Elem&& o) noexcept { sim::Har h; o.rd(); sim::touch_write(this, sizeof(*this)); value = o.value; o.value = MOVED; self = this; id = ledger.make(this); }
		~Elem() { sim::Har h; sim::touch_write(this, sizeof(*this)); ledger.kill(id, this, "element"); value = -888888; }
		Elem& operator=(const Elem& o) { sim::Har h; rd(); o.rd(); maybe_throw("copy assignment"); sim::touch_write(this, sizeof(*this)); value = o.value; return *this; }
		Elem& operator=(Elem&& o) noexcept { sim::Har h; rd(); o.rd(); sim::touch_write(this, sizeof(*this)); if (this != &o) { value = o.value; o.value = MOVED; } return *this; }
		std::strong_ordering operator<=>(const Elem& o) const { sim::Har h; rd(); o.rd(); maybe_throw_cmp(); return value <=> o.value; }
		bool operator==(const Elem& o) const { sim::Har h; rd(); o.rd(); maybe_throw_cmp(); return value == o.value; }
	};
	inline void reset() { ledger.reset(); for (long& f : elem_copy_fail_) f = -1; for (long& f : elem_cmp_fail_) f = -1; }

	inline std::string show(const std::vector<int>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string(v[i]); } return s + "]"; }
}
namespace common
{
	// large sizes: the data comes from one choice, so that a replay stays short
	struct Bulk { uint64_t s; Bulk() : s(sim::choose(0x7fffffff)) {} uint32_t operator()(uint32_t n) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (uint32_t)((s >> 33) % n); } };
	inline int vast_size() { return sim::chance(1, 2) ? 32700 + (int)sim::choose(200) : 65400 + (int)sim::choose(400); }	// around what 16 bits can count
	inline int large_size() { return sim::chance(1, 6) ? 100 + (int)sim::choose(6000) : 60 + (int)sim::choose(1200); }
}

#define COMMON_STATE namespace common { HARNESS Ledger ledger; HARNESS long elem_copy_fail_[16]; HARNESS long elem_cmp_fail_[16]; }

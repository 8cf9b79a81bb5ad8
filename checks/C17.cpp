// C17: sorting in place with comparisons that throw or contradict themselves, and element copies that throw.
#include "common.h"
#include "Source/Collections/Dictionary.h"
#include "Source/Collections/Operation.h"
using namespace vl;
using namespace vl::collections;
using namespace common;
COMMON_STATE
const char* const sim_property = "C17";

namespace
{
	struct CmpThrow { int at; };
	HARNESS long compares, limit, throw_at; HARNESS int mode; HARNESS const Elem* lo; HARNESS const Elem* hi; HARNESS int modulus; HARNESS bool bounded;
	// mode 0 by value, 1 by value reversed, 2 by key (ties), 3 random answers, 4 always less, 5 always greater, 6 always equal, 7 not transitive
	int compare(const Elem& a, const Elem& b)
	{
		sim::Har h; a.rd(); b.rd();
		SIM_CHECK(a.value != Elem::MOVED && b.value != Elem::MOVED, "wrong-call", "a comparison is given an element whose value is elsewhere");
		compares++; SIM_CHECK(compares <= limit, "no-termination", "sorting %ld elements made more than %ld comparisons", (long)(hi - lo), limit);
		if (throw_at >= 0 && compares > throw_at) { sim::fault("comparison_throws"); throw_at = -2; throw CmpThrow{ 1 }; }
		if (throw_at == -2) sim::fail("wrong-call", "sorting goes on after a comparison threw");
		int x = a.value, y = b.value; auto sg = [](int v) { return v < 0 ? -1 : v > 0; };
		switch (mode) { case 0: return sg(x - y); case 1: return sg(y - x); case 2: return sg(x % modulus - y % modulus); case 3: return (int)sim::choose(3) - 1; case 4: return -1; case 5: return 1; case 6: return 0; default: return x == y ? 0 : ((x - y + 300) % 3 == 1 ? -1 : 1); }
	}
	std::strong_ordering so(int c) { return c < 0 ? std::strong_ordering::less : c > 0 ? std::strong_ordering::greater : std::strong_ordering::equal; }
	std::weak_ordering wo(int c) { return so(c); }
	void check_sorted(const std::vector<int>& v)
	{
		for (size_t i = 1; i < v.size(); i++) { int a = v[i - 1], b = v[i]; bool ok = mode == 0 ? a <= b : mode == 1 ? a >= b : mode == 2 ? a % modulus <= b % modulus : true; SIM_CHECK(ok, "wrong-order", "the result %s is not ordered at %zu", show(v).c_str(), i); }
	}
	void numbers()
	{
		// plain numbers, with and without incomparable ones
		int n = (int)sim::choose(12); double* d = (double*)sim::heap_alloc(sizeof(double) * (n + 2)); std::vector<double> m; bool nan = false; sim::log("sort %d numbers", n);
		d[0] = -5; d[n + 1] = -6; for (int i = 0; i < n; i++) { d[i + 1] = sim::chance(1, 20) ? (nan = true, __builtin_nan("")) : (double)sim::choose(9); m.push_back(d[i + 1]); }
		bool err = false; try { sim::Lib l; Sort(d + 1, n); } catch (const Error&) { err = true; }
		SIM_CHECK(err == (nan && n > 1), "wrong-result", "sorting %s incomparable numbers %s", nan ? "with" : "without", err ? "is refused" : "is accepted");
		std::vector<double> g(d + 1, d + 1 + n); SIM_CHECK(d[0] == -5 && d[n + 1] == -6, "out-of-bounds", "sorting numbers changed their neighbours");
		auto key = [](std::vector<double> v) { std::multiset<double> s; int k = 0; for (double x : v) if (x == x) s.insert(x); else k++; return std::pair(s, k); };
		SIM_CHECK(key(g) == key(m), "not-a-permutation", "sorting numbers lost some"); if (!nan) SIM_CHECK(std::is_sorted(g.begin(), g.end()), "wrong-order", "numbers are not ordered");
		sim::heap_free(d);
	}
	void one()
	{
		int n = (int)sim::pick({ 1, 1, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3 }); if (sim::chance(1, 6)) n = 12 + (int)sim::choose(30);
		mode = (int)sim::pick({ 5, 3, 4, 3, 1, 1, 1, 2 }); modulus = 1 + (int)sim::choose(4); compares = 0; limit = 4L * n * n + 64; throw_at = -1; bool consistent = mode <= 2 || mode == 6; bool distinct = sim::chance(1, 2);
		int fault = (int)sim::pick({ 3, 3, 1 }); if (fault == 1) throw_at = (long)sim::choose((uint32_t)(2 * n + 2)); 
		Elem* mem = (Elem*)sim::heap_alloc(sizeof(Elem) * (n + 2)); std::vector<int> m; LIB(for (int i = 0; i < n + 2; i++) new(mem + i) Elem(0));
		lo = mem + 1; hi = mem + 1 + n; mem[0].value = -11; mem[n + 1].value = -12;
		for (int i = 0; i < n; i++) { int v = distinct ? (int)sim::choose(200) : (int)sim::choose(5); mem[i + 1].value = v; m.push_back(v); }
		int how = (int)sim::pick({ 5, 3, 2 }); if (how == 2 && (fault == 2 || (mode != 0))) how = 0; if (how == 2) throw_at = -1, fault = fault == 1 ? 0 : fault;
		sim::log("sort %s, mode %d, comparison %s%s", show(m).c_str(), mode, throw_at >= 0 ? "may throw" : "does not throw", fault == 2 ? ", copies may throw" : "");
		if (fault == 2) elem_copy_fail() = (long)sim::choose(8);
		bool threw = false, cthrew = false; std::vector<int> order;
		try { sim::Lib l; if (how == 0) Sort(mem + 1, n, [](const Elem& a, const Elem& b) { return so(compare(a, b)); }); else if (how == 1) Sort(mem + 1, n, [](const Elem& a, const Elem& b) { return wo(compare(a, b)); }); else Sort(mem + 1, n); }
		catch (const CmpThrow&) { threw = true; } catch (const ElemThrow&) { cthrew = true; }
		bool fired = throw_at == -2; elem_copy_fail() = -1;
		SIM_CHECK(threw == fired, "wrong-exception", "an exception of the comparison was %s", threw ? "invented" : "swallowed"); if (cthrew) sim::probe("copy_threw");
		std::vector<int> got; for (int i = 0; i < n; i++) got.push_back(LIB(sim::Har h; mem[i + 1].rd(); return int(mem[i + 1].value)));
		std::vector<int> a = m, b = got; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
		SIM_CHECK(a == b, "not-a-permutation", "sorting %s leaves %s", show(m).c_str(), show(got).c_str());
		SIM_CHECK(mem[0].value == -11 && mem[n + 1].value == -12, "out-of-bounds", "sorting changed the neighbours of the sequence");
		SIM_CHECK(ledger.alive == n + 2, "lifetime", "%ld elements are alive after sorting %d", ledger.alive - 2, n);
		if (!threw && !cthrew && consistent) check_sorted(got);
		LIB(for (int i = 0; i < n + 2; i++) mem[i].~Elem()); sim::heap_free(mem);
		SIM_CHECK(ledger.alive == 0, "lifetime", "%ld elements were never destroyed", ledger.alive);
	}
	// longer sequences in the patterns that are worst for a quick sort; how deep the calls go is observed from inside the comparison
	HARNESS size_t deepest; HARNESS const char* surface; HARNESS long bcompares;
	template<class T> void big_one(T(*mk)(int), int(*un)(const T&))
	{
		bool vast = sim::chance(1, 12); int n = vast ? 450 + (int)sim::choose(2600) : 200 + (int)sim::choose(250), pattern = vast ? 7 : (int)sim::choose(8), kinds = 1 + (int)sim::choose(40); T* a = (T*)sim::heap_alloc(sizeof(T) * (n + 2)); std::vector<int> m; deepest = 0; bcompares = 0; sim::log("sort %d elements, pattern %d", n, pattern); sim::probe("long_sequence");
		if (vast) { Bulk bulk; sim::probe("vast_sequence"); for (int i = 0; i < n; i++) m.push_back((int)bulk(1 << 20)); }
		else for (int i = 0; i < n; i++) switch (pattern) { case 0: m.push_back(i); break; case 1: m.push_back(n - i); break; case 2: m.push_back(7); break; case 3: m.push_back(i < n / 2 ? i : n - i); break; case 4: m.push_back(i % 2 ? i : n - i); break; case 5: m.push_back((int)sim::choose(kinds)); break; case 6: m.push_back(i % kinds); break; default: m.push_back((int)sim::choose(2000)); }
		if (sizeof(T) == 1) for (int& v : m) v %= 100;
		LIB(new(a) T(mk(-5)); new(a + n + 1) T(mk(-6)); for (int i = 0; i < n; i++) new(a + 1 + i) T(mk(m[i])));
		char here; surface = &here; bool plain = sim::chance(1, 3);
		if (plain) LIB(Sort(a + 1, n)); else LIB(Sort(a + 1, n, [un](const T& x, const T& y) { { sim::Har h; char c; size_t d = (size_t)(surface - &c); if (d < (1u << 28) && d > deepest) deepest = d; bcompares++; } return un(x) <=> un(y); }));
		std::vector<int> g; for (int i = 0; i < n; i++) g.push_back(LIB(return un(a[i + 1]))); int l = LIB(return un(a[0])), r = LIB(return un(a[n + 1]));
		SIM_CHECK(l == -5 && r == -6, "out-of-bounds", "sorting changed the neighbours of the sequence"); std::vector<int> w = m; std::sort(w.begin(), w.end()); std::vector<int> v = g; std::sort(v.begin(), v.end());
		SIM_CHECK(v == w, "not-a-permutation", "sorting %d elements lost some", n); SIM_CHECK(g == w, "wrong-order", "%d elements are not ordered", n);
		SIM_CHECK(bcompares <= 4L * n * n + 64, "no-termination", "sorting %d elements made %ld comparisons", n, bcompares); SIM_CHECK(deepest < 30000, "stack-exhausted", "sorting %d elements takes %zu bytes of stack", n, deepest);
		LIB(for (int i = 0; i < n + 2; i++) a[i].~T()); sim::heap_free(a);
	}
	void large()
	{
		switch (sim::choose(3)) { case 0: big_one<vint>([](int v) { return (vint)v; }, [](const vint& v) { return (int)v; }); break; case 1: big_one<vint8_t>([](int v) { return (vint8_t)(v < 0 ? v : v % 100); }, [](const vint8_t& v) { return (int)v; }); break; default: big_one<Elem>([](int v) { return Elem(v); }, [](const Elem& e) { sim::Har h; e.rd(); return e.value; }); break; }
	}
	void ordered_query()
	{
		int n = (int)sim::choose(8); mode = (int)sim::pick({ 3, 2, 3 }); modulus = 1 + (int)sim::choose(3); compares = 0; limit = 4L * n * n + 64; throw_at = sim::chance(1, 3) ? (long)sim::choose(2 * n + 1) : -1; std::vector<int> m; lo = hi = nullptr;
		List<Elem>* l = LIB(return sim::make<List<Elem>>()); for (int i = 0; i < n; i++) { int v = (int)sim::choose(30); m.push_back(v); LIB(l->Add(Elem(v))); }
		std::vector<int> got; bool threw = false; sim::log("order a query of %s, mode %d", show(m).c_str(), mode);
		try { sim::Lib x; auto q = From(*l).OrderBy([](const Elem& a, const Elem& b) { return so(compare(a, b)); }); for (auto& e : q) { sim::Har h; e.rd(); got.push_back(e.value); } } catch (const CmpThrow&) { threw = true; }
		SIM_CHECK(threw == (throw_at == -2), "wrong-exception", "an exception of the comparison was %s", threw ? "invented" : "swallowed");
		if (!threw) { std::vector<int> a = m, b = got; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); SIM_CHECK(a == b, "not-a-permutation", "ordering %s yields %s", show(m).c_str(), show(got).c_str()); check_sorted(got); }
		for (int i = 0; i < n; i++) { int v = LIB(sim::Har h; return int(l->Get(i).value)); SIM_CHECK(v == m[i], "wrong-contents", "ordering a query changed its source"); }
		LIB(sim::unmake(l)); SIM_CHECK(ledger.alive == 0, "lifetime", "%ld elements were never destroyed", ledger.alive);
	}
}
void sim_scenario()
{
	common::reset();
	int n = sim::ops(6, 3, [] { switch (sim::pick({ 60, 10, 20, 1 })) { case 3: large(); break; case 0: one(); break; case 1: numbers(); break; case 2: ordered_query(); break; } });
	if (n) sim::nontrivial();
	sim::check_no_leaks("end of run");
}

// C20: dependency ordering with relationship functions that throw, items whose copies throw, and failing memory.
#include "common.h"
#include "pool.h"
#include "Source/Collections/PartialOrdering.h"
using namespace vl;
using namespace vl::collections;
using namespace common;
COMMON_STATE
const char* const sim_property = "C20";

namespace
{
	struct FuncThrow {};
	struct Graph { int n; std::vector<int> item; std::set<std::pair<int, int>> dep; std::map<int, int> cls; };	// by position; dep(a,b): a depends on b
	HARNESS Graph g; HARNESS long func_fail, func_calls;
	using pool::Item; template<class T> T mk(int v) { return T(v); } template<> Ptr<Item> mk<Ptr<Item>>(int v) { return pool::pointer(v); } template<> WString mk<WString>(int v) { return pool::text(v); }
	int val(const Ptr<Item>& p) { return pool::number(p); } int val(const WString& w) { return pool::number(w); }
	int val(const Elem& e) { sim::Har h; e.rd(); return e.value; } int val(vint v) { return (int)v; }
	void generate()
	{
		g = Graph(); bool big = sim::chance(1, 6); g.n = (int)sim::choose(big ? 30 : 9); if (big) sim::probe("big_graph"); std::vector<int> names; for (int i = 0; i < g.n; i++) names.push_back(i * 3 + 1); for (int i = 0; i < g.n; i++) std::swap(names[i], names[sim::choose(g.n)]); g.item = names;
		int shape = (int)sim::choose(6), m = g.n ? (int)sim::choose(g.n * 2 + 1) : 0;
		for (int k = 0; k < m; k++) { int a = (int)sim::choose(g.n), b = (int)sim::choose(g.n); if (shape == 1 && a <= b) continue; if (shape == 2 && a / 3 != b / 3) continue; if (shape == 3) { b = (a + 1) % g.n; } if (shape == 4 && a != b) a = k % 2 ? a : 0; if (shape == 5 && a != b) b = k % 3 ? b : 0; g.dep.insert({ a, b }); }
		if (sim::chance(1, 2)) { int classes = 1 + (int)sim::choose(4); for (int i = 0; i < g.n; i++) if (sim::chance(3, 4)) g.cls[i] = 10 + (int)sim::choose(classes); }
	}
	// ---- reference: reachability -------------------------------------------------------------------------
	struct Want { int n; std::vector<std::set<int>> ins, outs; std::vector<std::vector<char>> reach; };
	Want reference(int n, const std::set<std::pair<int, int>>& dep)
	{
		Want w; w.n = n; w.ins.resize(n); w.outs.resize(n); w.reach.assign(n, std::vector<char>(n, 0)); for (int i = 0; i < n; i++) w.reach[i][i] = 1;
		for (auto& d : dep) { w.ins[d.first].insert(d.second); w.outs[d.second].insert(d.first); w.reach[d.first][d.second] = 1; }
		for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (w.reach[i][k]) for (int j = 0; j < n; j++) if (w.reach[k][j]) w.reach[i][j] = 1;
		return w;
	}
	std::set<int> of(const List<vint>* l, const char* what) { SIM_CHECK(l, "wrong-order", "a node has no list of %s", what); std::set<int> r; vint n = LIB(return l->Count()); for (vint i = 0; i < n; i++) { vint x = LIB(return l->Get(i)); SIM_CHECK(r.insert((int)x).second, "wrong-order", "node %lld is listed twice among the %s of a node", (long long)x, what); } return r; }
	void verify(PartialOrderingProcessor& p, const Want& w)
	{
		vint nodes = LIB(return p.nodes.Count()), comps = LIB(return p.components.Count()); SIM_CHECK(nodes == w.n, "wrong-order", "%lld nodes, should be %d", (long long)nodes, w.n);
		std::vector<int> at(w.n, -1); int total = 0;
		for (vint c = 0; c < comps; c++)
		{
			const vint* first; vint n; LIB(first = p.components[c].firstNode; n = p.components[c].nodeCount); SIM_CHECK(n > 0, "wrong-order", "an empty component");
			for (vint k = 0; k < n; k++) { vint x = LIB(return first[k]); SIM_CHECK(x >= 0 && x < w.n && at[x] < 0, "wrong-order", "node %lld is in two components or does not exist", (long long)x); at[x] = (int)c; total++; vint own = LIB(return p.nodes[x].component); SIM_CHECK(own == c, "wrong-order", "node %lld is in component %lld but says %lld", (long long)x, (long long)c, (long long)own); }
		}
		SIM_CHECK(total == w.n, "wrong-order", "%d of %d nodes are in a component", total, w.n);
		for (int a = 0; a < w.n; a++)
		{
			const List<vint>* in; const List<vint>* out; LIB(in = p.nodes[a].ins; out = p.nodes[a].outs);
			SIM_CHECK(of(in, "dependencies") == w.ins[a] && of(out, "dependants") == w.outs[a], "wrong-order", "node %d has wrong dependencies or dependants", a);
			for (int b = 0; b < w.n; b++) { bool together = w.reach[a][b] && w.reach[b][a]; SIM_CHECK((at[a] == at[b]) == together, "wrong-order", "nodes %d and %d %s depend on each other but are in components %d and %d", a, b, together ? "do" : "do not", at[a], at[b]); if (w.reach[a][b] && !together) SIM_CHECK(at[b] < at[a], "wrong-order", "node %d depends on %d but comes first (components %d, %d)", a, b, at[a], at[b]); }
		}
	}
	template<class T, class TL, class TS> void attempt(int mode, bool faults, bool& done)
	{
		int fault = faults ? (int)sim::pick({ 1, 3, 3, 3 }) : 0; uint64_t k = fault ? sim::choose(fault == 2 ? 90 : 40) : 0;
		sim::log("%s, %d items, %zu dependencies%s", mode == 0 ? "group" : mode == 1 ? "function" : "sub classes", g.n, g.dep.size(), fault == 1 ? " (memory may run out)" : fault == 2 ? " (function may throw)" : fault == 3 ? " (copies may throw)" : "");
		bool threw = false, fired = false; const T* hold = nullptr; (void)hold;
		TL* items = LIB(return sim::make<TL>()); Group<T, T>* dep = LIB(return sim::make<Group<T, T>>()); Dictionary<T, TS>* cls = LIB(return sim::make<Dictionary<T, TS>>());
		if constexpr (std::is_same_v<TL, Array<T>>) { LIB(items->Resize(g.n)); for (int i = 0; i < g.n; i++) LIB(items->Set(i, mk<T>(g.item[i]))); } else for (int v : g.item) LIB(items->Add(mk<T>(v))); for (auto& d : g.dep) LIB(dep->Add(mk<T>(g.item[d.first]), mk<T>(g.item[d.second]))); for (auto& c : g.cls) LIB(cls->Add(mk<T>(g.item[c.first]), mk<TS>(c.second)));
		PartialOrderingProcessor* p = LIB(return sim::make<PartialOrderingProcessor>()); bool inited = false, sorted = false; func_fail = -1;
		auto arm = [&] { if (fault == 1) sim::fail_alloc_after(k); if (fault == 2) func_fail = (long)k; if (fault == 3) elem_copy_fail() = (long)k; };
		auto disarm = [&] { if (fault == 1) fired = sim::clear_alloc_faults() > 0; if (fault == 2) fired = func_fail == -2; if (fault == 3) fired = elem_copy_fail() < 0; elem_copy_fail() = -1; func_fail = -1; };
		auto func = [&](const T& a, const T& b) -> bool { int x = val(a), y = val(b); sim::Har h; if (func_fail >= 0 && func_fail-- == 0) { func_fail = -2; sim::fault("relationship_function_throws"); throw FuncThrow(); } for (auto& d : g.dep) if (g.item[d.first] == x && g.item[d.second] == y) return true; return false; };
		auto init = [&] { sim::Lib l; if (mode == 0) p->InitWithGroup(*items, *dep); else if (mode == 1) p->InitWithFunc(*items, func); else p->InitWithSubClass(*items, *dep, *cls); };
		arm(); try { init(); inited = true; if (!fault && g.n && sim::chance(1, 4)) { bool err = false; try { init(); } catch (const Error&) { err = true; } SIM_CHECK(err, "wrong-exception", "initialising twice before sorting is accepted"); } LIB(p->Sort()); sorted = true; } catch (const std::bad_alloc&) { threw = true; } catch (const ElemThrow&) { threw = true; } catch (const FuncThrow&) { threw = true; } disarm();
		SIM_CHECK(threw == fired, "wrong-exception", "%s", threw ? "an exception arrives although nothing failed" : "an exception was swallowed");
		if (threw && fault == 2 && !inited) { sim::probe("retried_on_the_same_processor"); init(); LIB(p->Sort()); sorted = true; }	// the relationship was not known yet: nothing has happened
		if (sorted)
		{
			std::set<std::pair<int, int>> dd; int n = g.n;
			if (mode == 2)
			{
				// nodes are classes; find out which is which by their items
				vint nodes = LIB(return p->nodes.Count()); std::map<int, int> node; std::set<int> seen;
				for (vint i = 0; i < nodes; i++) { const vint* f; vint c; LIB(f = p->nodes[i].firstSubClassItem; c = p->nodes[i].subClassItemCount); SIM_CHECK(c > 0, "wrong-order", "an empty sub class"); int cl = -1; for (vint j = 0; j < c; j++) { vint x = LIB(return f[j]); SIM_CHECK(x >= 0 && x < g.n && seen.insert((int)x).second, "wrong-order", "item %lld is in two sub classes or does not exist", (long long)x); node[(int)x] = (int)i; int mine = g.cls.count((int)x) ? g.cls[(int)x] : 1000 + (int)x; if (j == 0) cl = mine; SIM_CHECK(mine == cl, "wrong-order", "items of different sub classes share a node"); } int members = 0; for (int x = 0; x < g.n; x++) members += (g.cls.count(x) ? g.cls[x] : 1000 + x) == cl; SIM_CHECK(members == c, "wrong-order", "a sub class has %lld of its %d items", (long long)c, members); }
				SIM_CHECK((int)seen.size() == g.n, "wrong-order", "%zu of %d items are in a sub class", seen.size(), g.n);
				for (auto& d : g.dep) dd.insert({ node[d.first], node[d.second] }); n = (int)nodes;
			}
			else dd = g.dep;
			verify(*p, reference(n, dd));
			bool err = false; try { sim::Lib l; if (g.n) { p->Sort(); } else throw Error(L""); } catch (const Error&) { err = true; } SIM_CHECK(err, "wrong-exception", "sorting twice is accepted");
			err = false; try { if (g.n) init(); else throw Error(L""); } catch (const Error&) { err = true; } SIM_CHECK(err, "wrong-exception", "initialising twice is accepted");
			verify(*p, reference(n, dd));
			done = true;
		}
		LIB(sim::unmake(p)); // the inputs are unchanged
		vint cnt = LIB(return items->Count()); SIM_CHECK(cnt == g.n, "wrong-order", "the items have changed"); for (int i = 0; i < g.n; i++) { int v = LIB(return val((*items)[i])); SIM_CHECK(v == g.item[i], "wrong-order", "the items have changed"); }
		vint edges = 0; LIB(for (vint i = 0; i < dep->Count(); i++) edges += dep->GetByIndex(i).Count()); SIM_CHECK(edges == (vint)g.dep.size(), "wrong-order", "the dependencies have changed");
		LIB(sim::unmake(items); sim::unmake(dep); sim::unmake(cls)); if (std::is_same_v<T, Ptr<Item>> || std::is_same_v<TS, Ptr<Item>>) SIM_CHECK(pool::held() == 0, "lifetime", "%ld references to items were never given up", pool::held()); SIM_CHECK(ledger.alive == 0, "lifetime", "%ld items were never destroyed", ledger.alive); sim::check_no_leaks("after the processor is gone");
	}
	void foreign()	// a dependency on something that is not an item is refused
	{
		if (!g.n) return; List<vint>* items = LIB(return sim::make<List<vint>>()); Group<vint, vint>* dep = LIB(return sim::make<Group<vint, vint>>()); for (int v : g.item) LIB(items->Add(v)); for (auto& d : g.dep) LIB(dep->Add(g.item[d.first], g.item[d.second]));
		vint bad = 500, ok = g.item[sim::choose(g.n)]; bool left = sim::chance(1, 2), sub = sim::chance(1, 2); LIB(if (left) dep->Add(bad, ok); else dep->Add(ok, bad)); PartialOrderingProcessor* p = LIB(return sim::make<PartialOrderingProcessor>()); bool err = false; Dictionary<vint, vint>* cls = LIB(return sim::make<Dictionary<vint, vint>>());
		try { sim::Lib l; if (sub) p->InitWithSubClass(*items, *dep, *cls); else p->InitWithGroup(*items, *dep); } catch (const Error&) { err = true; } SIM_CHECK(err, "wrong-exception", "a dependency on something that is not an item is accepted");
		LIB(sim::unmake(p); sim::unmake(items); sim::unmake(dep); sim::unmake(cls)); sim::probe("foreign_item"); sim::check_no_leaks("after the processor is gone");
	}
}
namespace
{
	// many items: components by an own search, order by every dependency
	void large()
	{
		bool func = sim::chance(1, 4); int n = func ? 60 + (int)sim::choose(200) : std::min(large_size(), 3000); Bulk r; int near = 1 + (int)sim::choose(40), per = 1 + (int)sim::choose(3); sim::log("%d items%s", n, func ? ", by function" : ""); sim::probe("thousands"); std::vector<int> item(n); for (int i = 0; i < n; i++) item[i] = i * 3 + 1; for (int i = 0; i < n; i++) std::swap(item[i], item[r(n)]);
		std::set<std::pair<int, int>> dep; for (int i = 0; i < n * per / 2; i++) { int a = (int)r(n), b; if (a / 50 * 50 == a) continue; int lo = std::max(a / 50 * 50, a - near); b = r(4) ? lo + (int)r(a - lo + 1) : std::min(n - 1, std::min(a / 50 * 50 + 49, a + (int)r(near + 1))); if (!r(20)) b = (int)r(a / 50 + 1) * 50; dep.insert({ a, b }); }
		List<vint>* items = LIB(return sim::make<List<vint>>()); Group<vint, vint>* g2 = LIB(return sim::make<Group<vint, vint>>()); for (int v : item) LIB(items->Add(v)); for (auto& d : dep) LIB(g2->Add(item[d.first], item[d.second])); PartialOrderingProcessor* p = LIB(return sim::make<PartialOrderingProcessor>());
		std::map<int, int> at; for (int i = 0; i < n; i++) at[item[i]] = i;
		if (func) LIB(p->InitWithFunc(*items, [&](vint a, vint b) { sim::Har h; return dep.count({ at[(int)a], at[(int)b] }) > 0; })); else LIB(p->InitWithGroup(*items, *g2)); LIB(p->Sort());
		vint nodes = LIB(return p->nodes.Count()), comps = LIB(return p->components.Count()); SIM_CHECK(nodes == n, "wrong-order", "%lld nodes, should be %d", (long long)nodes, n); std::vector<int> c(n, -1); int total = 0;
		for (vint k = 0; k < comps; k++) { const vint* f; vint cnt; LIB(f = p->components[k].firstNode; cnt = p->components[k].nodeCount); SIM_CHECK(cnt > 0, "wrong-order", "an empty component"); for (vint j = 0; j < cnt; j++) { vint x = LIB(return f[j]); SIM_CHECK(x >= 0 && x < n && c[x] < 0, "wrong-order", "node %lld is in two components or does not exist", (long long)x); c[x] = (int)k; total++; vint own = LIB(return p->nodes[x].component); SIM_CHECK(own == k, "wrong-order", "node %lld is in component %lld but says %lld", (long long)x, (long long)k, (long long)own); } }
		SIM_CHECK(total == n, "wrong-order", "%d of %d nodes are in a component", total, n);
		std::vector<std::vector<int>> out(n), in(n); for (auto& d : dep) { out[d.first].push_back(d.second); in[d.second].push_back(d.first); SIM_CHECK(c[d.second] <= c[d.first], "wrong-order", "node %d depends on %d but comes first", d.first, d.second); }
		// the order makes components at least as large as they should be: each has to be connected both ways from its first member
		std::map<int, std::vector<int>> members; for (int i = 0; i < n; i++) members[c[i]].push_back(i);
		for (auto& [k, v] : members) for (auto* e : { &out, &in }) { std::set<int> seen = { v[0] }; std::vector<int> todo = { v[0] }; while (todo.size()) { int x = todo.back(); todo.pop_back(); for (int y : (*e)[x]) if (c[y] == k && seen.insert(y).second) todo.push_back(y); } SIM_CHECK(seen.size() == v.size(), "wrong-order", "component %d holds %zu nodes that do not all depend on each other", k, v.size()); }
		for (int i = 0; i < n; i++) { const List<vint>* li; const List<vint>* lo; LIB(li = p->nodes[i].ins; lo = p->nodes[i].outs); SIM_CHECK(of(li, "dependencies") == std::set<int>(out[i].begin(), out[i].end()) && of(lo, "dependants") == std::set<int>(in[i].begin(), in[i].end()), "wrong-order", "node %d of %d has wrong dependencies or dependants", i, n); }
		LIB(sim::unmake(p); sim::unmake(items); sim::unmake(g2)); sim::nontrivial(); sim::check_no_leaks("end of run");
	}
}
void sim_scenario()
{
	common::reset(); if (sim::chance(1, 1000)) { large(); return; } generate(); int mode = (int)sim::choose(3), types = (int)sim::pick({ 4, 4, 1, 1, 1, 1, 1 }); bool done = false; pool::fill();
	if (types == 3 || types == 4) std::sort(g.item.begin(), g.item.end());		// items in a sorted list have their order from it
	if (types > 1) sim::probe("other_item_types");
	for (int k = 0; k < 4 && !done; k++) switch (types)
	{
	case 0: attempt<Elem, List<Elem>, vint>(mode, k < 3, done); break;
	case 1: attempt<vint, List<vint>, vint>(mode, k < 3, done); break;
	case 2: attempt<Ptr<Item>, List<Ptr<Item>>, Ptr<Item>>(mode, k < 3, done); break;
	case 3: attempt<Ptr<Item>, SortedList<Ptr<Item>>, WString>(mode, k < 3, done); break;
	case 4: attempt<Elem, SortedList<Elem>, Elem>(mode, k < 3, done); break;
	case 5: attempt<WString, Array<WString>, vint>(mode, k < 3, done); break;
	case 6: attempt<Elem, Array<Elem>, Ptr<Item>>(mode, k < 3, done); break;
	}
	SIM_CHECK(done, "no-progress", "ordering never succeeds"); if (sim::chance(1, 8)) foreign();
	if (g.n > 1) sim::nontrivial();
	sim::check_no_leaks("end of run");
}

// C21: push-only allocators and byte maps: stable addresses, independent maps sharing one allocator, failing memory.
#include "common.h"
#include "Source/Collections/List.h"
using namespace vl;
using namespace vl::collections;
using namespace common;
COMMON_STATE
const char* const sim_property = "C21";

namespace
{
	// a default construction may throw, too
	struct Item { Elem e; Item() { sim::Har h; maybe_throw("construction"); } };
	typedef ByteObjectMap<int> Map;
	struct Pool { PushOnlyAllocator<Item>* a; std::vector<Item*> items; std::vector<int> values; vint block; };
	struct Maps { Map::Allocator* al; Map* m[3]; std::map<int, int*> want[3]; };
	void check_pool(Pool& p)
	{
		for (size_t i = 0; i < p.items.size(); i++) { Item* g = LIB(return p.a->Get((vint)i)); SIM_CHECK(g == p.items[i], "wrong-item", "item %zu is found at another address than it was created", i); int v; { p.items[i]->e.rd(); v = p.items[i]->e.value; } SIM_CHECK(v == p.values[i], "wrong-item", "item %zu holds %d, should hold %d", i, v, p.values[i]); }
		for (int k = 0; k < 2; k++) { Item* g = LIB(return p.a->Get((vint)p.items.size() + k)); SIM_CHECK(!g, "wrong-item", "an item that was never created is found"); }
	}
	void pool_step(Pool& p, bool faults)
	{
		int fault = faults ? (int)sim::pick({ 3, 1, 1 }) : 0; uint64_t k = fault ? sim::choose(fault == 1 ? 3 : 8) : 0; bool threw = false, fired = false; Item* x = nullptr;
		if (fault == 1) sim::fail_alloc_after(k); if (fault == 2) elem_copy_fail() = (long)k; sim::log("create an item%s", fault == 1 ? " (memory may run out)" : fault == 2 ? " (its construction may throw)" : "");
		try { x = LIB(return p.a->Create()); } catch (const std::bad_alloc&) { threw = true; } catch (const ElemThrow&) { threw = true; }
		if (fault == 1) fired = sim::clear_alloc_faults() > 0; if (fault == 2) { fired = elem_copy_fail() < 0; elem_copy_fail() = -1; }
		SIM_CHECK(threw == fired, "wrong-exception", "%s", threw ? "an exception arrives although nothing failed" : "an exception was swallowed");
		if (!threw) { SIM_CHECK(x, "wrong-item", "creating an item yields nothing"); for (auto o : p.items) SIM_CHECK(o != x, "wrong-item", "an item is handed out twice"); { sim::touch_write(x, sizeof(*x)); x->e.rd(); } int v = (int)sim::choose(1000); x->e.value = v; p.items.push_back(x); p.values.push_back(v); }
		check_pool(p);
	}
	void check_map(Maps& q, int m, int key) { int* g = LIB(return q.m[m]->Get((vuint8_t)key)); auto it = q.want[m].find(key); int* w = it == q.want[m].end() ? nullptr : it->second; SIM_CHECK(g == w, "wrong-map", "map %d yields %s for %d", m, g ? w ? "another object" : "an object nobody put there" : "nothing", key); }
	int gen_key() { static const int edge[] = { 0, 255, 1, 4, 16, 64, 3, 128, 254, 63 }; return sim::chance(1, 2) ? edge[sim::choose(10)] : (int)sim::choose(256); }
	void map_step(Maps& q, bool faults)
	{
		int m = (int)sim::choose(3), key = gen_key(); int* v = sim::chance(1, 8) ? nullptr : (int*)sim::heap_alloc(4); bool oom = faults && sim::chance(1, 3), threw = false, fired = false; sim::log("map %d: set %d%s", m, key, oom ? " (memory may run out)" : "");
		if (oom) sim::fail_alloc_after(sim::choose(3)); try { LIB(q.m[m]->Set((vuint8_t)key, v, *q.al)); } catch (const std::bad_alloc&) { threw = true; } if (oom) fired = sim::clear_alloc_faults() > 0;
		SIM_CHECK(threw == fired, "wrong-exception", "%s", threw ? "out of memory is reported although memory was available" : "running out of memory was not reported");
		if (!threw) q.want[m][key] = v;
		for (int k = 0; k < 3; k++) { check_map(q, k, key); for (auto& w : q.want[k]) check_map(q, k, w.first); check_map(q, k, gen_key()); }
		if (sim::chance(1, 20)) for (int i = 0; i < 256; i++) check_map(q, m, i);
	}
}
namespace
{
	// large blocks and the default block size
	void large()
	{
		bool def = sim::chance(1, 6); vint block = def ? 65536 : 1 + sim::choose(2000); int n = def ? 65530 + (int)sim::choose(20) : large_size(); sim::log("%d items in blocks of %lld", n, (long long)block); sim::probe("thousands");
		PushOnlyAllocator<vint>* a = def ? LIB(return sim::make<PushOnlyAllocator<vint>>()) : LIB(return sim::make<PushOnlyAllocator<vint>>(block)); std::vector<vint*> v; std::set<vint*> seen;
		for (int i = 0; i < n; i++) { vint* x = LIB(vint* x = a->Create(); *x = i * 3; return x); SIM_CHECK(seen.insert(x).second, "wrong-item", "item %d is handed out twice", i); v.push_back(x); }
		for (int i = 0; i < n; i++) { vint g; vint* x = LIB(auto y = a->Get(i); g = *y; return y); SIM_CHECK(x == v[i] && g == i * 3, "wrong-item", "item %d of %d is found at another address or holds %lld", i, n, (long long)g); } bool none = LIB(return a->Get(n) == nullptr); SIM_CHECK(none, "wrong-item", "an item that was never created is found");
		LIB(sim::unmake(a)); sim::nontrivial(); sim::check_no_leaks("end of run");
	}
}
void sim_scenario()
{
	common::reset(); if (sim::chance(1, 2000)) { large(); return; } Pool p; p.block = 1 + sim::choose(5); vint mb = sim::chance(1, 4) ? 1 + sim::choose(3) : 1 + sim::choose(20);
	p.a = LIB(return sim::make<PushOnlyAllocator<Item>>(p.block)); Maps q; q.al = LIB(return sim::make<Map::Allocator>(mb)); for (auto& m : q.m) m = LIB(return sim::make<Map>());
	int n = sim::ops(40, 20, [&] { if (sim::chance(1, 2)) pool_step(p, true); else map_step(q, true); });
	pool_step(p, false); map_step(q, false);
	// several threads only look things up
	int threads = sim::chance(1, 3) ? 1 + (int)sim::choose(2) : 0;
	for (int t = 0; t < threads; t++) sim::spawn([&] { sim::ops(6, 4, [&] { if (sim::chance(1, 2)) check_map(q, (int)sim::choose(3), gen_key()); else { size_t i = sim::choose((uint32_t)p.items.size()); Item* g = LIB(return p.a->Get((vint)i)); SIM_CHECK(g == p.items[i], "wrong-item", "item %zu is found at another address than it was created", i); } }); });
	if (threads) sim::join_all();
	LIB(for (auto m : q.m) sim::unmake(m)); LIB(sim::unmake(q.al)); LIB(sim::unmake(p.a));
	SIM_CHECK(ledger.alive == 0, "lifetime", "%ld items were never destroyed", ledger.alive);
	if (n > 2) sim::nontrivial();
	sim::check_no_leaks("end of run");
}

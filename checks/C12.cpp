// C12: global storages through nested accesses, finalisations and failures.
#include "common.h"
#include "Source/GlobalStorage.h"
using namespace vl;
using namespace common;
COMMON_STATE
const char* const sim_property = "C12";

namespace
{
	struct InitThrow { int id; }; struct FinThrow { int id; };
	const int N = 5;
	HARNESS bool up[N], known[N], gone[N]; HARNESS int initing[N]; HARNESS std::vector<int> order;	// order of registration
	HARNESS int expect_init, expect_fin; HARNESS int depth, inits, budget; HARNESS bool destroying, calm, escaped; HARNESS int last_throw;	// escaped: a callback of the innermost library call ended by throwing
	struct Sweep { size_t cursor, limit; }; HARNESS std::vector<Sweep> sweeps; HARNESS bool sweep_top;	// running global finalisations; sweep_top: the innermost library call is one
	int pos(int id) { for (size_t i = 0; i < order.size(); i++) if (order[i] == id) return (int)i; return -1; }
	void on_init(int id, Ptr<Elem>& data); void on_fin(int id, Ptr<Elem>& data);
}
#define STORAGE(NAME, ID) BEGIN_GLOBAL_STORAGE_CLASS(NAME) Ptr<Elem> data; INITIALIZE_GLOBAL_STORAGE_CLASS on_init(ID, data); FINALIZE_GLOBAL_STORAGE_CLASS on_fin(ID, data); END_GLOBAL_STORAGE_CLASS(NAME)
STORAGE(S0, 0) STORAGE(S1, 1) STORAGE(S2, 2) STORAGE(S3, 3) STORAGE(S4, 4)
namespace
{
	struct Ref { GlobalStorage* g; Ptr<Elem>* data; };
	HARNESS Ref refs[N];
	Ref get(int id) { switch (id) { case 0: { auto& s = GetS0(); return { &s, &s.data }; } case 1: { auto& s = GetS1(); return { &s, &s.data }; } case 2: { auto& s = GetS2(); return { &s, &s.data }; } case 3: { auto& s = GetS3(); return { &s, &s.data }; } default: { auto& s = GetS4(); return { &s, &s.data }; } } }
	void state(int id) { if (!known[id] || gone[id] || !refs[id].g) return; bool g = LIB(return refs[id].g->IsInitialized()); SIM_CHECK(g == up[id], "wrong-state", "storage %d reports %s", id, g ? "initialised" : "not initialised"); }
	void states() { for (int i = 0; i < N; i++) state(i); }
	struct Save { int ei, ef; bool st, es; Save() : ei(expect_init), ef(expect_fin), st(sweep_top), es(escaped) { expect_init = expect_fin = -1; sweep_top = escaped = false; } ~Save() { expect_init = ei; expect_fin = ef; sweep_top = st; escaped = es; } };
	struct Esc { int n = std::uncaught_exceptions(); ~Esc() { if (std::uncaught_exceptions() > n) escaped = true; } };
	void reached(const char* what) { SIM_CHECK(!escaped, "lost-exception", "%s returned although a callback it made threw", what); }
	struct In { In() { depth++; } ~In() { depth--; } };

	void access(int id, bool ensure)
	{
		Save sv; sim::log("%*saccess storage %d (%s)", depth * 2, "", id, up[id] ? "ready" : "not ready");
		bool need = !up[id]; if (need) expect_init = id;
		if (!known[id]) { known[id] = true; order.push_back(id); }
		Ref r; try { if (ensure && refs[id].g) { LIB(refs[id].g->EnsureInitialized()); r = refs[id]; } else r = LIB(return get(id)); } catch (...) { SIM_CHECK(expect_init == -1, "missing-initialise", "accessing storage %d failed without an attempt to initialise it", id); SIM_CHECK(!up[id] || !need, "wrong-state", "model"); throw; }
		reached("an access"); SIM_CHECK(expect_init == -1, "missing-initialise", "storage %d was handed out without being initialised", id); refs[id] = r;
		SIM_CHECK(up[id], "wrong-exception", "storage %d was handed out although its initialisation threw", id);
		if (up[id] && !initing[id]) { int v = LIB(sim::Har h; (*r.data)->rd(); return int((*r.data)->value)); SIM_CHECK(v == 100 + id, "wrong-value", "storage %d holds %d", id, v); }
	}
	void finalise(int id)
	{
		if (!known[id] || !refs[id].g) return; Save sv; sim::log("%*sfinalise storage %d", depth * 2, "", id); if (up[id]) expect_fin = id;
		try { LIB(refs[id].g->EnsureFinalized()); } catch (...) { SIM_CHECK(expect_fin == -1, "missing-finalise", "finalising storage %d failed without an attempt", id); throw; }
		reached("finalising a storage"); SIM_CHECK(expect_fin == -1, "missing-finalise", "an initialised storage %d was not finalised", id);
	}
	void global()
	{
		Save sv; sweep_top = true; sweeps.push_back({ 0, order.size() }); sim::log("%*sfinalise all", depth * 2, "");
		try { LIB(FinalizeGlobalStorage()); } catch (...) { sweeps.pop_back(); throw; }
		reached("finalising all"); Sweep s = sweeps.back(); sweeps.pop_back();
		for (size_t i = s.cursor; i < s.limit; i++) SIM_CHECK(!up[order[i]], "missing-finalise", "storage %d is still initialised after finalising all", order[i]);
	}
	void nested(int self, bool fin)
	{
		In in; if (depth > 4) return;
		sim::ops(3, 1, [&]
		{
			if (budget-- <= 0) return;
			int id = (int)sim::choose(N);
			if (destroying) { if (!fin || id == self || gone[id] || !known[id] || pos(id) >= pos(self)) return; access(id, sim::chance(1, 2)); return; }
			switch (sim::pick({ 5, 2, 2, 2 }))
			{
			case 0: access(id, sim::chance(1, 2)); break;
			case 1: access(self, sim::chance(1, 2)); break;
			case 2: if (!initing[id]) finalise(id); break;
			case 3: if (!inits) global(); break;
			}
		});
	}
	void on_init(int id, Ptr<Elem>& data)
	{
		sim::Har h; Esc esc; In in; sim::log("%*sinitialise %d", depth * 2, "", id); SIM_CHECK(expect_init == id, "wrong-call", "storage %d is initialised %s", id, up[id] ? "again" : "without being accessed"); expect_init = -1;
		up[id] = true; initing[id]++; inits++;
		struct U { int id; bool ok = false; ~U() { initing[id]--; inits--; if (!ok) up[id] = false; } } u{ id };
		Save sv; bool early = !calm && sim::chance(1, 8); if (early) { sim::fault("initialise_throws"); last_throw = id; throw InitThrow{ id }; }
		if (sim::chance(1, 3)) nested(id, false);
		if (!calm && sim::chance(1, 10)) sim::fail_alloc_after(sim::choose(2));
		try { LIB(data = Ptr(new Elem(100 + id))); } catch (const std::bad_alloc&) { sim::clear_alloc_faults(); sim::fault("allocation_fails"); throw; }
		sim::clear_alloc_faults();
		if (sim::chance(1, 4)) nested(id, false);
		if (!calm && sim::chance(1, 12)) { LIB(data = nullptr); sim::fault("initialise_throws"); last_throw = id; throw InitThrow{ id }; }
		u.ok = true;
	}
	void on_fin(int id, Ptr<Elem>& data)
	{
		sim::Har h; Esc esc; In in; sim::log("%*sfinalise %d", depth * 2, "", id); SIM_CHECK(up[id], "wrong-call", "storage %d is finalised although it is not initialised", id); SIM_CHECK(!initing[id], "wrong-call", "storage %d is finalised while it is being initialised", id);
		if (sweep_top)
		{
			Sweep& s = sweeps.back(); int p = pos(id); SIM_CHECK((size_t)p >= s.cursor, "wrong-order", "storage %d is finalised out of registration order", id);
			for (size_t i = s.cursor; i < (size_t)p && i < s.limit; i++) SIM_CHECK(!up[order[i]], "wrong-order", "storage %d is finalised before storage %d, which was registered earlier", id, order[i]);
			s.cursor = p + 1;
		}
		else { SIM_CHECK(expect_fin == id, "wrong-call", "storage %d is finalised without a reason", id); expect_fin = -1; }
		up[id] = false; Save sv;
		if (sim::chance(1, 6)) { LIB(data = nullptr); nested(id, true); if (up[id]) return; }
		LIB(data = nullptr);
		if (!calm && !destroying && sim::chance(1, 16)) { sim::fault("finalise_throws"); last_throw = 100 + id; throw FinThrow{ id }; }
	}
	template<class F> void guarded(F f) { try { f(); } catch (const InitThrow& e) { sim::log("initialise of %d threw", e.id); SIM_CHECK(last_throw == e.id, "wrong-exception", "the exception is not the one that was thrown last"); } catch (const FinThrow& e) { sim::log("finalise of %d threw", e.id); SIM_CHECK(last_throw == 100 + e.id, "wrong-exception", "the exception is not the one that was thrown last"); } catch (const std::bad_alloc&) { sim::log("out of memory"); } states(); }
}
void sim_scenario()
{
	common::reset(); expect_init = expect_fin = -1; budget = 40; calm = sim::chance(1, 3);
	int n = sim::ops(24, 10, []
	{
		switch (sim::pick({ 6, 2, 2 }))
		{
		case 0: { int id = (int)sim::choose(N); bool e = sim::chance(1, 3); guarded([&] { access(id, e); }); } break;
		case 1: { int id = (int)sim::choose(N); guarded([&] { finalise(id); }); } break;
		case 2: guarded([] { global(); }); break;
		}
	});
	calm = true; guarded([] { for (int i = 0; i < N; i++) if (known[i]) access(i, false); });	// faults have stopped: everything can be used again
	if (sim::chance(1, 3)) { budget = 0; guarded([] { global(); }); for (int i = 0; i < N; i++) SIM_CHECK(!up[i], "missing-finalise", "storage %d survived finalising all", i); }
	// the program ends: storages are destroyed in the opposite order of registration
	destroying = true; budget = 20;
	for (size_t i = order.size(); i-- > 0;)
	{
		int id = order[i]; sim::log("destroy %d", id); Save sv; if (up[id]) expect_fin = id; 
		if (refs[id].g) { switch (id) { case 0: LIB(static_cast<S0*>(refs[id].g)->~S0()); break; case 1: LIB(static_cast<S1*>(refs[id].g)->~S1()); break; case 2: LIB(static_cast<S2*>(refs[id].g)->~S2()); break; case 3: LIB(static_cast<S3*>(refs[id].g)->~S3()); break; default: LIB(static_cast<S4*>(refs[id].g)->~S4()); break; } }
		SIM_CHECK(expect_fin == -1, "missing-finalise", "storage %d was destroyed without being finalised", id); gone[id] = true;
	}
	SIM_CHECK(ledger.alive == 0, "lifetime", "%ld resources were never released", ledger.alive);
	if (n > 1) sim::nontrivial();
	sim::check_no_leaks("end of run");
}

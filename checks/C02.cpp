// C02: COM-style pointers (vl::ComPtr) under every interleaving and history.
#include "common.h"
#include <cstring>
#include "Source/Primitives/Pointer.h"
using namespace vl;
using namespace common;
COMMON_STATE
const char* const sim_property = "C02";

namespace
{
	struct Info { void* at; int next; int released; };
	HARNESS std::vector<Info> objs;
	HARNESS int releasing[8];
	struct Com
	{
		int oid; vint payload; ComPtr<Com> next;
		Com(int id, ComPtr<Com>&& n) : oid(id), payload(id * 1000 + 7), next(std::move(n)) {}
		void Release();
	};
	struct Counted { int* refs; bool* gone; Counted(int* r, bool* g) : refs(r), gone(g) {} void AddRef() { ++*refs; } void Release() { { sim::Har h; SIM_CHECK(*refs > 0, "released-twice", "an interface without references is released"); } if (--*refs == 0) { *gone = true; delete this; } } };
	struct Slots { ComPtr<Com> p[4]; int m[4]; Slots() { for (int& x : m) x = -1; } };
	HARNESS std::vector<Slots*> all;
	HARNESS Slots* peeking[8]; HARNESS Slots* current[8];
	HARNESS ComPtr<Com>* box; HARNESS int mbox; HARNESS bool boxbusy;
	int owners(int id)
	{
		int c = 0;
		for (auto* s : all) for (int x : s->m) c += x == id;
		if (mbox == id) c++;
		for (auto& o : objs) if (!o.released && o.next == id) c++;
		return c;
	}
	void Com::Release()
	{
		{
			sim::Har h;
			sim::touch_write(this, sizeof(*this));
			SIM_CHECK(oid >= 0 && oid < (int)objs.size(), "garbage-object", "release on something that is not a known interface");
			sim::log("interface %d released", oid);
			int w = owners(oid);
			SIM_CHECK(!objs[oid].released, "released-twice", "interface %d is released twice", oid);
			SIM_CHECK(w == 0, "released-while-owned", "interface %d is released while %d owner(s) still hold it", oid, w);
			objs[oid].released++; objs[oid].next = -1;
			// what the interface finds in the pointers of its thread while it goes, all of which live on
			if (Slots* s = peeking[sim::tid()]) { sim::probe("release_uses_pointers"); for (int k = 0; k < 4; k++) { const void* q = LIB(return s->p[k].Obj()); bool ok = !q; for (auto& o : objs) ok |= !o.released && q == o.at; SIM_CHECK(ok, "released-while-owned", "while interface %d is released a pointer still yields a released interface", oid); } }
		}
		delete this;
	}
	void verify(ComPtr<Com>& p, int m)
	{
		Com* q = LIB(return p.Obj()); SIM_CHECK(q == (m < 0 ? nullptr : objs[m].at), "wrong-pointer", "pointer should hold interface %d", m);
		bool b = LIB(return (bool)p); SIM_CHECK(b == (m >= 0), "wrong-pointer", "bool test of a pointer holding %d", m);
		if (m >= 0) { SIM_CHECK(!objs[m].released, "released-while-owned", "interface %d is gone although an owner exists", m); vint v = LIB(return p->payload); SIM_CHECK(v == m * 1000 + 7, "wrong-contents", "interface %d reads %lld", m, (long long)v); }
	}
	void verify_all(Slots& s) { for (int i = 0; i < 4; i++) verify(s.p[i], s.m[i]); }
	void check_released(int id)
	{
		if (id < 0 || objs[id].released) return;
		for (int t = 0; t < 8; t++) if (t != sim::tid() && (releasing[t] >= 0 || current[t])) return;
		SIM_CHECK(owners(id) > 0, "never-released", "interface %d has no owner left but was not released", id);
	}
	template<class F> void step(int& m, int to, const char* what, F f)
	{
		int old = m;
		sim::log("%s: %d -> %d", what, old, to);
		m = to; releasing[sim::tid()] = old;
		Slots* cur = current[sim::tid()]; if (cur && !strstr(what, "construct") && sim::chance(1, 2)) peeking[sim::tid()] = cur;
		{ sim::Lib l; f(); }
		releasing[sim::tid()] = -1; peeking[sim::tid()] = nullptr;
		if (old != to) check_released(old);
	}
	Com* make(int id, Slots* s, int from, bool mv)
	{
		sim::Lib l;
		Com* c = new Com(id, from < 0 ? ComPtr<Com>() : mv ? ComPtr<Com>(std::move(s->p[from])) : ComPtr<Com>(s->p[from]));
		sim::Har h; objs[id].at = c; return c;
	}
	void one_op(Slots& s)
	{
		current[sim::tid()] = &s; struct Out { ~Out() { current[sim::tid()] = nullptr; } } out;
		int a = sim::choose(4), b = sim::choose(4);
		switch (sim::pick({ 4, 6, 4, 3, 5, 4, 4, 3, 2, 3, 3, 3, 3 }))
		{
		case 0: step(s.m[a], -1, "reset", [&] { s.p[a] = nullptr; }); break;
		case 1: if (a == b) sim::probe("self_assignment"); step(s.m[a], s.m[b], "copy-assign", [&] { s.p[a] = s.p[b]; }); break;
		case 2:
			if (a == b) { int v = s.m[a]; step(s.m[a], v, "self-move", [&] { auto& r = s.p[b]; s.p[a] = std::move(r); }); }
			else { int v = s.m[b]; s.m[b] = -1; step(s.m[a], v, "move-assign", [&] { s.p[a] = std::move(s.p[b]); }); }
			break;
		case 3: { int v = s.m[b], d = v; step(d, v, "temporaries", [&] { ComPtr<Com> t(s.p[b]); ComPtr<Com> u(std::move(t)); ComPtr<Com> w = u; w = t; if (w) sim::fail("wrong-result", "a moved-from pointer is not empty"); }); } break;
		case 4: // take over a new interface
			{
				objs.push_back({ nullptr, -1, 0 }); int id = (int)objs.size() - 1;
				bool link = s.m[b] >= 0 && sim::chance(1, 2), mv = link && a != b && sim::chance(1, 2);
				if (link) { objs[id].next = s.m[b]; if (mv) s.m[b] = -1; }
				Com* c = make(id, &s, link ? b : -1, mv);
				switch (sim::choose(3))
				{
				case 0: step(s.m[a], id, "assign raw", [&] { s.p[a] = c; }); break;
				case 1: step(s.m[a], id, "assign new", [&] { s.p[a] = ComPtr<Com>(c); }); break;
				case 2: step(s.m[a], id, "construct raw", [&] { s.p[a].~ComPtr<Com>(); new(&s.p[a]) ComPtr<Com>(c); }); break;
				}
			} break;
		case 5: if (s.m[a] >= 0) { sim::probe("assign_from_own_member"); int v = objs[s.m[a]].next; step(s.m[a], v, "advance", [&] { s.p[a] = s.p[a]->next; }); } break;
		case 6: if (a != b) { int v = s.m[b]; if (sim::chance(1, 2)) step(s.m[a], v, "copy-construct", [&] { s.p[a].~ComPtr<Com>(); new(&s.p[a]) ComPtr<Com>(s.p[b]); }); else { s.m[b] = -1; step(s.m[a], v, "move-construct", [&] { s.p[a].~ComPtr<Com>(); new(&s.p[a]) ComPtr<Com>(std::move(s.p[b])); }); } } break;
		case 7: { bool eq = LIB(return s.p[a] == s.p[b]); SIM_CHECK(eq == (s.m[a] == s.m[b]), "wrong-result", "equality of %d and %d", s.m[a], s.m[b]); bool er = LIB(return s.p[a] == s.p[b].Obj()); SIM_CHECK(er == eq, "wrong-result", "raw equality of %d and %d", s.m[a], s.m[b]); } break;
		case 8: step(s.m[a], -1, "assign null raw", [&] { s.p[a] = (Com*)nullptr; }); break;
		case 9: if (!boxbusy && sim::thread_count() > 1) { boxbusy = true; sim::sync_acquire(1); int v = s.m[a]; step(mbox, v, "put", [&] { *box = s.p[a]; }); sim::sync_release(1); boxbusy = false; } break;
		case 10: if (!boxbusy && sim::thread_count() > 1) { boxbusy = true; sim::sync_acquire(1); sim::probe("hand_over"); int v = mbox; mbox = -1; step(s.m[a], v, "take", [&] { s.p[a] = std::move(*box); }); sim::sync_release(1); boxbusy = false; } break;
		case 12: // an interface that counts its own references is taken over several times
			{
				int refs = 1; bool gone = false; Counted* c = LIB(return new Counted(&refs, &gone)); int n = 1 + (int)sim::choose(4); bool dead = false; sim::log("take over the same interface %d times", n + 1); sim::probe("taken_over_again");
				ComPtr<Counted>* p = sim::make<ComPtr<Counted>>(); ComPtr<Counted>* q = sim::make<ComPtr<Counted>>();
				LIB(*p = c);
				for (int i = 0; i < n && !dead; i++)
				{
					int k = (int)sim::choose(3); LIB(c->AddRef());
					switch (k) { case 0: LIB(*p = c); break; case 1: LIB(*p = ComPtr<Counted>(c)); break; case 2: LIB(*q = c); break; }
					Counted* x = LIB(return p->Obj()); Counted* y = LIB(return q->Obj()); int held = (x != nullptr) + (y != nullptr);
					SIM_CHECK(x == c && !gone && refs == held, gone ? "released-while-owned" : "never-released", "the interface has %d references, but %d owner(s) took it over", refs, held);
				}
				LIB(*p = nullptr; *q = nullptr); SIM_CHECK(gone && refs == 0, "never-released", "the interface keeps %d references", refs);
				LIB(p->~ComPtr<Counted>(); q->~ComPtr<Counted>()); sim::heap_free(p); sim::heap_free(q);
			} break;
		case 11: // taking over runs out of memory
			{
				objs.push_back({ nullptr, -1, 0 }); int id = (int)objs.size() - 1; Com* c = make(id, &s, -1, false);
				sim::fail_alloc_after(0); bool threw = false; int old = s.m[a];
				bool assign = sim::chance(1, 2);
				// a failed assignment may keep or drop the previous interface, but must stay consistent
				releasing[sim::tid()] = old; s.m[a] = -1;
				sim::log("%s raw without memory: %d", assign ? "assign" : "construct", old);
				try { sim::Lib l; if (assign) s.p[a] = c; else { s.p[a] = nullptr; ComPtr<Com> t(c); } } catch (const std::bad_alloc&) { threw = true; }
				releasing[sim::tid()] = -1;
				uint64_t fired = sim::clear_alloc_faults();
				if (!fired) { if (assign) s.m[a] = id; check_released(old); if (!assign) check_released(id); break; }
				SIM_CHECK(threw, "swallowed-out-of-memory", "taking over reports success although its allocation failed");
				SIM_CHECK(!objs[id].released, "released-while-owned", "the interface was released although it was never taken over");
				Com* now = LIB(return s.p[a].Obj());
				if (now) { SIM_CHECK(old >= 0 && now == objs[old].at && !objs[old].released, "wrong-pointer", "after a failed assignment the pointer holds neither its old interface nor nothing"); s.m[a] = old; }
				else check_released(old);
				LIB(c->Release());
			} break;
		}
		verify_all(s);
	}
	void drop_all(Slots& s) { for (int i = 0; i < 4; i++) step(s.m[i], -1, "final drop", [&] { s.p[i] = nullptr; }); }
}
void sim_scenario()
{
	objs.clear(); all.clear(); mbox = -1; boxbusy = false; for (int& r : releasing) r = -1; for (int t = 0; t < 8; t++) peeking[t] = current[t] = nullptr;
	box = sim::make<ComPtr<Com>>();
	int threads = (int)sim::pick({ 2, 4, 4, 2 });
	Slots* pins = sim::make<Slots>(); all.push_back(pins);
	int roots = 1 + sim::choose(3);
	for (int i = 0; i < roots; i++)
	{
		objs.push_back({ nullptr, -1, 0 }); int id = (int)objs.size() - 1;
		bool link = i > 0 && sim::chance(1, 2); if (link) objs[id].next = pins->m[0];
		Com* c = make(id, pins, link ? 0 : -1, false);
		step(pins->m[i], id, "root", [&] { pins->p[i] = c; });
	}
	std::vector<Slots*> mine;
	for (int t = 0; t < threads; t++)
	{
		Slots* s = sim::make<Slots>(); all.push_back(s); mine.push_back(s);
		for (int i = 0; i < 2; i++) { int r = sim::choose(3); step(s->m[i], pins->m[r], "hand to thread", [&] { s->p[i] = pins->p[r]; }); }
	}
	if (sim::chance(1, 2)) drop_all(*pins);
	if (threads == 0) { if (sim::ops(60, 25, [&] { one_op(*pins); }) > 2) sim::nontrivial(); }
	else
	{
		if (threads > 1) sim::nontrivial();
		for (auto* s : mine) sim::spawn([s] { sim::ops(12, 5, [&] { one_op(*s); }); if (sim::chance(2, 3)) drop_all(*s); });
		sim::join_all();
	}
	for (auto* s : all) { verify_all(*s); drop_all(*s); }
	step(mbox, -1, "empty mailbox", [&] { *box = nullptr; });
	for (size_t i = 0; i < objs.size(); i++) SIM_CHECK(objs[i].released == 1, "never-released", "interface %zu was released %d times", i, objs[i].released);
	sim::check_no_leaks("end of run");
}

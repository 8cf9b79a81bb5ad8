// C08: events whose handlers attach, detach, trigger, throw and drop references while being called.
#include "common.h"
#include "Source/Primitives/Event.h"
using namespace vl;
using namespace common;
COMMON_STATE
const char* const sim_property = "C08";

namespace
{
	typedef Event<void(vint, Elem)> E;
	typedef Event<void(const Elem&)> X;
	struct Boom { int h; };
	typedef Event<void(Elem)> Y;
	const int SLOTS = 310;
	struct Slots { E e[2]; X x; Y y; Ptr<EventHandler> handle[SLOTS]; };
	HARNESS Slots* s;
	template<class F> auto on(int ev, F f) { return ev == 2 ? f(s->x) : ev == 3 ? f(s->y) : f(s->e[ev]); }
	struct H { int ev; bool attached, made; int caps; int running; };	// attached, handed out, live captured states, running calls
	HARNESS std::vector<H> hs;
	struct Frame { int ev; std::vector<int> start; std::set<int> called; vint a; int v; int fncalls, fnstart; };
	HARNESS std::vector<Frame*> frames;
	HARNESS int fn_attached[2][2]; HARNESS int total_ops; HARNESS bool calm; HARNESS int copies;
	struct FnH { Ptr<EventHandler> p; };
	HARNESS std::vector<int> held;	// handle slot of handler h, -1 = dropped

	struct Cap
	{
		int h; Elem e;
		Cap(int _h) : h(_h), e(_h * 100) { sim::Har x; hs[h].caps++; }
		Cap(const Cap& c) : h(c.h), e(c.e) { sim::Har x; hs[h].caps++; }
		Cap(Cap&& c) noexcept : h(c.h), e(c.h * 100) { sim::Har x; hs[h].caps++; }
		~Cap()
		{
			sim::Har x; sim::touch_read(this, sizeof(*this)); SIM_CHECK(h >= 0 && h < (int)hs.size() && hs[h].caps > 0, "lifetime", "captured state of a handler destroyed too often");
			hs[h].caps--; SIM_CHECK(hs[h].caps > 0 || hs[h].running == 0, "destroyed-while-running", "handler %d is destroyed while it is running", h);
			SIM_CHECK(hs[h].caps > 0 || !hs[h].attached, "destroyed-while-attached", "handler %d is destroyed while it is attached", h);
		}
	};
	void op(int depth);
	void handler(Cap& c, vint a, Elem& e, bool own)
	{
		sim::touch_read(&c, sizeof(c)); c.e.rd(); int h = c.h;
		SIM_CHECK(!frames.empty(), "wrong-call", "handler %d is called although nothing is triggered", h);
		Frame& f = *frames.back(); e.rd();
		sim::log("%*shandler %d called", (int)frames.size() * 2, "", h);
		SIM_CHECK(hs[h].ev == f.ev, "wrong-call", "handler %d of event %d is called by event %d", h, hs[h].ev, f.ev);
		SIM_CHECK(hs[h].attached, "wrong-call", "handler %d is called although it is detached", h);
		SIM_CHECK(std::find(f.start.begin(), f.start.end(), h) != f.start.end(), "wrong-call", "handler %d was attached while the trigger was running but is called by it", h);
		SIM_CHECK(f.called.insert(h).second, "wrong-call", "handler %d is called twice by one trigger", h);
		SIM_CHECK((f.ev >= 2 || a == f.a) && e.value == f.v, "wrong-arguments", "handler %d receives (%lld,%d), the event was triggered with (%lld,%d)", h, (long long)a, e.value, (long long)f.a, f.v);
		hs[h].running++;
		struct Out { int h; ~Out() { hs[h].running--; } } out{ h };
		if (own && sim::chance(1, 3)) { sim::probe("argument_consumed"); LIB(Elem taken(std::move(e)); (void)taken); }
		if (sim::chance(1, 2)) { sim::Span sp; op((int)frames.size()); }
		if (sim::chance(1, 4)) { sim::Span sp; op((int)frames.size()); }
		sim::touch_read(&c, sizeof(c)); c.e.rd(); SIM_CHECK(c.h == h && c.e.value == h * 100, "lifetime", "captured state of handler %d changed while it was running", h);
		if (!calm && sim::chance(1, 10)) { sim::fault("handler_throws"); sim::log("handler %d throws", h); throw Boom{ h }; }
	}
	struct LE { Cap c; void operator()(vint a, Elem e) { sim::Har x; handler(c, a, e, true); } };
	struct LX { Cap c; void operator()(const Elem& e) { sim::Har x; handler(c, 0, const_cast<Elem&>(e), false); } };
	struct LY { Cap c; void operator()(Elem e) { sim::Har x; handler(c, 0, e, true); } };
	// handlers that are functions and methods: identical ones are told apart only by their number
	void fncall(int i, vint a, Elem& e) { sim::Har x; SIM_CHECK(!frames.empty(), "wrong-call", "a function handler is called although nothing is triggered"); Frame& f = *frames.back(); e.rd(); SIM_CHECK(f.ev < 2 && a == f.a && e.value == f.v, "wrong-arguments", "a function handler receives (%lld,%d), the event was triggered with (%lld,%d)", (long long)a, e.value, (long long)f.a, f.v); f.fncalls++; }
	void fn(vint a, Elem e) { fncall(0, a, e); }
	struct Obj { int tag; void m(vint a, Elem e) { { sim::Har h; SIM_CHECK(tag == 77, "wrong-call", "a method handler is called on another object"); } fncall(1, a, e); } };
	HARNESS Obj* obj;
	struct FnSlots { Ptr<EventHandler> p[4]; Func<void(vint, Elem)> shared; }; HARNESS FnSlots* fns; HARNESS int fnev[4]; HARNESS bool fnatt[4];

	int free_slot() { for (int i = 0; i < SLOTS; i++) { bool used = false; for (int x : held) used |= x == i; if (!used) return i; } return -1; }
	void verify()
	{
		for (size_t h = 0; h < hs.size(); h++)
			if (held[h] >= 0) { bool a = LIB(return s->handle[held[h]]->IsAttached()); SIM_CHECK(a == hs[h].attached, "wrong-result", "handler %zu says attached=%d", h, a); }
		if (frames.empty()) for (size_t h = 0; h < hs.size(); h++) if (hs[h].made) { bool want = hs[h].attached || held[h] >= 0; SIM_CHECK((hs[h].caps > 0) == want, "lifetime", "captured state of handler %zu is %s although it is %sattached and its reference is %s", h, hs[h].caps ? "alive" : "gone", hs[h].attached ? "" : "not ", held[h] >= 0 ? "held" : "dropped"); }
	}
	void attach(int to = -1)
	{
		int slot = free_slot(); if (slot < 0 || hs.size() > 340) return;
		int ev = to >= 0 ? to : (int)sim::pick({ 5, 2, 2, 2 }); int h = (int)hs.size(); hs.push_back({ ev, false, false, 0, 0 }); held.push_back(-1);
		bool faulty = sim::chance(1, 5); uint64_t n = faulty ? sim::choose(5) : 0; bool failed = false;
		sim::log("attach handler %d to event %d%s", h, ev, faulty ? " (allocation may fail)" : ""); if (faulty) sim::fail_alloc_after(n);
		try { sim::Lib l; if (ev < 2) { if (sim::chance(1, 2)) s->handle[slot] = s->e[ev].Add(LE{ Cap(h) }); else { Func<void(vint, Elem)> f = LE{ Cap(h) }; s->handle[slot] = s->e[ev].Add(f); } } else if (ev == 2) s->handle[slot] = s->x.Add(LX{ Cap(h) }); else s->handle[slot] = s->y.Add(LY{ Cap(h) }); }
		catch (const std::bad_alloc&) { failed = true; }
		if (faulty) { bool fired = sim::clear_alloc_faults() > 0; SIM_CHECK(fired || !failed, "wrong-result", "attach reports out of memory although nothing failed"); }
		if (failed) { SIM_CHECK(hs[h].caps == 0, "lifetime", "a handler that could not be attached was not destroyed"); }
		else { hs[h].made = hs[h].attached = true; held[h] = slot; bool some = LIB(return (bool)s->handle[slot]); SIM_CHECK(some, "wrong-result", "attach returns nothing"); }
	}
	void detach(int depth)
	{
		std::vector<int> c; for (size_t h = 0; h < hs.size(); h++) if (held[h] >= 0) c.push_back((int)h);
		if (c.empty()) return; int h = c[sim::choose((uint32_t)c.size())];
		if (depth && sim::chance(1, 2)) for (int x : c) if (hs[x].running) { h = x; break; }
		int ev = sim::chance(1, 6) ? (int)sim::choose(4) : hs[h].ev; bool want = hs[h].attached && ev == hs[h].ev;
		if (want && frames.size()) sim::probe("detach_while_triggering");
		sim::log("detach handler %d from event %d", h, ev); if (want) hs[h].attached = false;
		bool r = LIB(return on(ev, [&](auto& e) { return e.Remove(s->handle[held[h]]); }));
		SIM_CHECK(r == want, "wrong-result", "detaching %s handler %d from event %d returns %d", hs[h].attached || want ? "attached" : "detached", h, ev, r);
		if (sim::chance(1, 3)) { sim::log("drop handler %d", h); int x = held[h]; held[h] = -1; LIB(s->handle[x] = nullptr); }
	}
	void trigger()
	{
		if (frames.size() >= 3) return;
		Frame f; f.ev = (int)sim::pick({ 5, 2, 2, 2 }); f.a = sim::choose(100); f.v = (int)sim::choose(100); f.fncalls = 0; f.fnstart = 0;
		for (size_t h = 0; h < hs.size(); h++) if (hs[h].attached && hs[h].ev == f.ev) f.start.push_back((int)h);
		int fn_at_start[4] = {}; for (int i = 0; i < 4; i++) if (fnatt[i] && fnev[i] == f.ev) { f.fnstart++; fn_at_start[i] = 1; }
		int fault = frames.empty() ? (int)sim::pick({ 10, 1, 1 }) : 0; uint64_t n = fault ? sim::choose(6) : 0; bool lv = sim::chance(1, 2);
		if (frames.size()) sim::probe("nested_trigger");
		sim::log("trigger event %d (%lld,%d)%s", f.ev, (long long)f.a, f.v, fault == 1 ? " (allocation may fail)" : fault == 2 ? " (argument copy may throw)" : "");
		frames.push_back(&f); size_t depth = frames.size(); bool threw = false;
		if (fault == 1) sim::fail_alloc_after(n); else if (fault == 2) elem_copy_fail() = (long)n;
		try { sim::Lib l; Elem e(f.v); if (f.ev == 2) s->x(e); else if (f.ev == 3) { if (lv) s->y(e); else s->y(std::move(e)); } else if (lv) { vint a = f.a; s->e[f.ev](a, e); } else s->e[f.ev](f.a, std::move(e)); }
		catch (const Boom&) { threw = true; } catch (const ElemThrow&) { threw = true; } catch (const std::bad_alloc&) { threw = true; SIM_CHECK(fault == 1 || depth > 1, "wrong-result", "trigger reports out of memory although nothing failed"); }
		if (fault == 1) sim::clear_alloc_faults(); if (fault == 2) elem_copy_fail() = -1;
		SIM_CHECK(frames.size() == depth, "wrong-call", "trigger nesting"); frames.pop_back();
		sim::log("trigger of event %d %s", f.ev, threw ? "ends by an exception" : "ends");
		if (!threw)
		{
			for (int h : f.start) SIM_CHECK(f.called.count(h) || !hs[h].attached, "wrong-call", "handler %d was attached all along but was not called", h);
			int fnend = 0; for (int i = 0; i < 4; i++) if (fn_at_start[i] && fnatt[i] && fnev[i] == f.ev) fnend++;
			SIM_CHECK(f.fncalls <= f.fnstart && f.fncalls >= (frames.empty() ? fnend : 0), "wrong-call", "%d function handlers were attached, %d calls were made", f.fnstart, f.fncalls);
		}
	}
	void fn_op()
	{
		if (!frames.empty()) return; int i = sim::choose(4);
		if (fnatt[i]) { sim::log("detach function handler %d", i); bool r = LIB(return s->e[fnev[i]].Remove(fns->p[i])); SIM_CHECK(r, "wrong-result", "detaching a function handler is refused"); fnatt[i] = false; bool again = LIB(return s->e[fnev[i]].Remove(fns->p[i])); SIM_CHECK(!again, "wrong-result", "a function handler is detached twice"); }
		else { fnev[i] = sim::choose(2); sim::log("attach function handler %d to event %d", i, fnev[i]); LIB(if (i >= 2) fns->p[i] = s->e[fnev[i]].Add(fns->shared); else if (i & 1) fns->p[i] = s->e[fnev[i]].Add(obj, &Obj::m); else fns->p[i] = s->e[fnev[i]].Add(&fn)); fnatt[i] = true; }
	}
	void op(int depth)
	{
		if (++total_ops > 120) return;
		switch (sim::pick({ 6, 5, 5, 3, 2, 2, 1 }))
		{
		case 0: attach(); break;
		case 1: detach(depth); break;
		case 2: trigger(); break;
		case 3: { std::vector<int> c; for (size_t h = 0; h < hs.size(); h++) if (held[h] >= 0) c.push_back((int)h); if (c.size()) { int h = c[sim::choose((uint32_t)c.size())]; sim::log("drop handler %d", h); int x = held[h]; held[h] = -1; LIB(s->handle[x] = nullptr); } } break;
		case 4: fn_op(); break;
		case 5: { sim::log("detach nothing"); int ev = sim::choose(4); bool r = LIB(return on(ev, [&](auto& e) { return e.Remove(nullptr); })); SIM_CHECK(!r, "wrong-result", "detaching nothing succeeds"); } break;
		case 6: // arguments passed by reference: all handlers share the caller's object
			if (frames.empty())
			{
				int n = 1 + (int)sim::choose(3), v = (int)sim::choose(50); bool move = sim::chance(1, 2); sim::log("an event with a %s argument and %d handlers", move ? "consumable" : "shared", n); int calls = 0, seen[3]; const void* at[3]; Elem* e = LIB(return sim::make<Elem>(v));
#ifdef SIM_PLAIN
				move = false;
#else
				if (move) { LIB(Event<void(Elem&&)> ev; for (int i = 0; i < n; i++) ev.Add([&](Elem&& a) { sim::Har h; a.rd(); seen[calls] = a.value; at[calls++] = &a; }); ev(std::move(*e))); }
#endif
				if (!move) { LIB(Event<void(Elem&)> ev; for (int i = 0; i < n; i++) ev.Add([&](Elem& a) { sim::Har h; a.rd(); seen[calls] = a.value; at[calls++] = &a; a.value++; }); ev(*e)); }
				SIM_CHECK(calls == n, "wrong-call", "%d handlers of a reference were called, %d are attached", calls, n); for (int i = 0; i < n; i++) SIM_CHECK(at[i] == e && seen[i] == (move ? v : v + i), "wrong-arguments", "handler %d of a reference receives %d", i, seen[i]);
				LIB(sim::unmake(e));
			} break;
		}
		verify();
	}
}
namespace
{
	// a very large crowd that only counts its calls
	void crowd()
	{
		int n = std::min(large_size(), 1400); Bulk r; sim::log("%d counting handlers", n); sim::probe("thousands"); typedef Event<void(vint)> C; struct All { C c; collections::List<Ptr<EventHandler>> h; };
		static HARNESS std::vector<int> calls, want; static HARNESS std::vector<char> att; calls.assign(n, 0); want.assign(n, 0); att.assign(n, 1); All* a = LIB(return sim::make<All>());
		for (int i = 0; i < n; i++) LIB(a->h.Add(a->c.Add(Func<void(vint)>([i](vint x) { sim::Har h; if (x == 5) calls[i]++; }))));
		for (int k = 0; k < 4; k++)
		{
			LIB(a->c(5)); for (int i = 0; i < n; i++) if (att[i]) want[i]++; for (int i = 0; i < n; i++) SIM_CHECK(calls[i] == want[i], "wrong-call", "handler %d of %d was called %d times, should be %d", i, n, calls[i], want[i]);
			for (int i = 0; i < n / 4; i++) { int h = (int)r(n); bool b = LIB(return a->c.Remove(a->h[h])), is = LIB(return a->h[h]->IsAttached()); SIM_CHECK(b == (bool)att[h] && !is, "wrong-result", "detaching handler %d of %d yields %d, attached: %d", h, n, b, is); att[h] = 0; }
		}
		LIB(sim::unmake(a)); sim::nontrivial(); sim::check_no_leaks("end of run");
	}
}
void sim_scenario()
{
	common::reset(); if (sim::chance(1, 1500)) { crowd(); return; } hs.clear(); held.clear(); frames.clear(); total_ops = 0; calm = sim::chance(1, 3); for (int i = 0; i < 4; i++) fnatt[i] = false;
	s = LIB(return sim::make<Slots>()); obj = sim::make<Obj>(); obj->tag = 77; fns = LIB(return sim::make<FnSlots>()); LIB(fns->shared = &fn);
	if (sim::chance(1, 8)) { int n = sim::chance(1, 16) ? 100 + (int)sim::choose(200) : 10 + (int)sim::choose(50), ev = (int)sim::choose(4); sim::log("a crowd of %d handlers", n); sim::probe("crowd"); for (int i = 0; i < n; i++) attach(ev); }
	if (sim::ops(30, 12, [] { op(0); }) > 2) sim::nontrivial();
	// the end: references first or events first
	if (sim::chance(1, 2)) { LIB(for (auto& p : s->handle) p = nullptr); }
	for (auto& h : hs) h.attached = false;
	LIB(s->~Slots(); fns->~FnSlots());
	for (size_t h = 0; h < hs.size(); h++) SIM_CHECK(hs[h].caps == 0, "lifetime", "captured state of handler %zu was never destroyed", h);
	SIM_CHECK(ledger.alive == 0, "lifetime", "%ld arguments or captured elements were never destroyed", ledger.alive);
	sim::check_no_leaks("end of run");
}

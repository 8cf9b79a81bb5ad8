// C01: shared pointers (vl::Ptr) under every interleaving, history and failing allocation.
#include "common.h"
#include <cstring>
#include "Source/Primitives/Pointer.h"
using namespace vl;
using namespace common;
COMMON_STATE
const char* const sim_property = "C01";

// objects that carry their own counter, the documented way to supply another strategy
namespace intr { struct Counted { atomic_vint rc; Counted() : rc(0) {} virtual ~Counted(); }; HARNESS int deaths, strategy; }
namespace vl
{
	template<class T> struct ReferenceCounterOperator<T, std::enable_if_t<std::is_base_of_v<intr::Counted, T>>>
	{
		static atomic_vint* CreateCounter(T* reference) { return &reference->rc; }
		static void DeleteReference(atomic_vint* counter, void* reference) { { sim::Har h; intr::strategy++; } if (counter && counter != &((T*)reference)->rc) sim::fail("wrong-pointer", "the strategy is handed another object's counter"); delete (T*)reference; }
	};
}
intr::Counted::~Counted() { sim::Har h; deaths++; }

namespace
{
	struct Info { int type; const void* node; const void* side; const void* both; int next; bool dead; int deaths; bool detached; };
	HARNESS std::vector<Info> objs;							// the ledger of objects
	HARNESS int detached_counters;
	HARNESS int releasing[8];								// object whose ownership thread t is giving up right now (-1 none)

	struct Node : public Object
	{
		int			oid; vint payload; Ptr<Node> next;
		Node(int id, Ptr<Node>&& n) : oid(id), payload(id * 1000 + 7), next(std::move(n)) {}
		~Node();
		// never called: a deletion through the wrong sub-object lands here
		virtual void trap1() { sim::fail("wrong-pointer", "an object is deleted through a pointer to another of its parts"); } virtual void trap2() { trap1(); } virtual void trap3() { trap1(); } virtual void trap4() { trap1(); }
	};
	struct Side { vint magic; int sid; Side(int id) : magic(id * 77), sid(id) {} virtual int pad1() { return 1; } virtual int pad2() { return 2; } virtual ~Side() { sim::Har h; } };
	struct Plain : public Node { vint extra; Plain(int id, Ptr<Node>&& n) : Node(id, std::move(n)), extra(5) {} };
	struct Both : public Side, public Node { vint tail; Both(int id, Ptr<Node>&& n) : Side(id), Node(id, std::move(n)), tail(9) {} };
	struct Other : public Object { vint x; };		// never a base of the others

	struct Slots
	{
		Ptr<Node> n[3]; Ptr<Both> b[2]; Ptr<Side> s[2];
		int mn[3], mb[2], ms[2];					// model: object id or -1 (read in harness mode only)
		Slots() { for (int& x : mn) x = -1; for (int& x : mb) x = -1; for (int& x : ms) x = -1; }
	};
	HARNESS std::vector<Slots*> all;						// one per thread, [0] = main's pins
	HARNESS Slots* current[8];								// operating on
	HARNESS Slots* peeking[8];								// pointers a destructor may look at
	HARNESS Ptr<Node>* box; HARNESS int mbox; HARNESS bool boxbusy;			// a lock-protected mailbox

	int owners(int id)
	{
		int c = 0;
		for (auto* s : all) { for (int x : s->mn) c += x == id; for (int x : s->mb) c += x == id; for (int x : s->ms) c += x == id; }
		if (mbox == id) c++;
		for (auto& o : objs) if (!o.dead && o.next == id) c++;
		return c;
	}
	Node::~Node()
	{
		sim::Har h;
		sim::touch_write(this, sizeof(*this));
		SIM_CHECK(oid >= 0 && oid < (int)objs.size(), "garbage-object", "destructor of something that is not a known object");
		Info& i = objs[oid];
		sim::log("object %d destroyed", oid);
		SIM_CHECK(!i.dead, "deleted-twice", "object %d is deleted twice", oid);
		int w = owners(oid);
		SIM_CHECK(w == 0 || i.detached, "deleted-while-owned", "object %d is deleted while %d owner(s) still hold it", oid, w);
		i.dead = true; i.deaths++; i.next = -1;
		// what the object's destructor finds in the pointers of its thread, all of which live on
		if (Slots* s = peeking[sim::tid()])
		{
			sim::probe("destructor_uses_pointers");
			for (int k = 0; k < 3; k++) { const void* q = LIB(return s->n[k].Obj()); bool ok = !q; for (auto& o : objs) ok |= !o.dead && q == o.node; SIM_CHECK(ok, "deleted-while-owned", "while object %d is destroyed a pointer still yields a destroyed object", oid); }
			for (int k = 0; k < 2; k++) { const void* q = LIB(return s->b[k].Obj()); bool ok = !q; for (auto& o : objs) ok |= !o.dead && q == o.both; SIM_CHECK(ok, "deleted-while-owned", "while object %d is destroyed a pointer still yields a destroyed object", oid); }
		}
	}

	void check_alive(int id) { SIM_CHECK(!objs[id].dead, "deleted-while-owned", "object %d is gone although an owner exists", id); }
	void verify(Ptr<Node>& p, int m) { const Node* q = LIB(return p.Obj()); SIM_CHECK(q == (m < 0 ? nullptr : objs[m].node), "wrong-pointer", "pointer to base should hold object %d", m); bool bo = LIB(return (bool)p); SIM_CHECK(bo == (m >= 0), "wrong-pointer", "bool test of a pointer holding %d", m); if (m >= 0) { check_alive(m); vint v = LIB(return p->payload); SIM_CHECK(v == m * 1000 + 7, "wrong-contents", "object %d reads %lld", m, (long long)v); } }
	void verify(Ptr<Both>& p, int m) { const Both* q = LIB(return p.Obj()); SIM_CHECK(q == (m < 0 ? nullptr : objs[m].both), "wrong-pointer", "pointer to derived should hold object %d", m); if (m >= 0) { check_alive(m); vint v = LIB(return p->tail); SIM_CHECK(v == 9, "wrong-contents", "object %d reads %lld", m, (long long)v); } }
	void verify(Ptr<Side>& p, int m) { const Side* q = LIB(return p.Obj()); SIM_CHECK(q == (m < 0 ? nullptr : objs[m].side), "wrong-pointer", "pointer to second base should hold object %d", m); if (m >= 0) { check_alive(m); vint v = LIB(return p->magic); SIM_CHECK(v == m * 77, "wrong-contents", "object %d reads %lld", m, (long long)v); } }
	void verify_all(Slots& s) { for (int i = 0; i < 3; i++) verify(s.n[i], s.mn[i]); for (int i = 0; i < 2; i++) { verify(s.b[i], s.mb[i]); verify(s.s[i], s.ms[i]); } }

	// an object without owners must be dead unless someone is in the middle of giving it up
	void check_released(int id)
	{
		if (id < 0 || objs[id].dead || objs[id].detached) return;
		// another thread in the middle of an operation may be tearing down an ancestor of it
		for (int t = 0; t < 8; t++) if (t != sim::tid() && (releasing[t] >= 0 || current[t])) return;
		SIM_CHECK(owners(id) > 0, "never-deleted", "object %d has no owner left but was not deleted", id);
	}
	int add_object(int type) { Info i; i.type = type; i.node = i.side = i.both = nullptr; i.next = -1; i.dead = false; i.deaths = 0; i.detached = false; objs.push_back(i); return (int)objs.size() - 1; }

	// one step: the model slot `m` will hold `to` instead of its current value while `f` runs
	template<class F> void step(int& m, int to, const char* what, F f)
	{
		int old = m; Slots* cur = current[sim::tid()];
		sim::log("%s: %d -> %d", what, old, to);
		m = to; releasing[sim::tid()] = old;
		bool look = cur && !strstr(what, "construct") && sim::chance(1, 2); if (look) peeking[sim::tid()] = cur;
		{ sim::Lib l; f(); }
		releasing[sim::tid()] = -1; peeking[sim::tid()] = nullptr;
		if (old != to) check_released(old);
	}

	void one_op(Slots& S)
	{
		auto& s = S; current[sim::tid()] = &s; struct Out { ~Out() { current[sim::tid()] = nullptr; } } out;
		int a = sim::choose(3), b = sim::choose(3), c = sim::choose(2), d = sim::choose(2);
		switch (sim::pick({ 4, 6, 4, 3, 4, 4, 5, 4, 3, 5, 3, 2, 3, 3, 3, 4 }))
		{
		case 0:	// reset
			step(s.mn[a], -1, "reset", [&] { s.n[a] = nullptr; }); break;
		case 1:	// copy assignment (possibly self)
			if (a == b) sim::probe("self_assignment");
			step(s.mn[a], s.mn[b], "copy-assign", [&] { auto& r = (s.n[a] = s.n[b]); if (&r != &s.n[a]) sim::fail("wrong-result", "assignment returns something else"); }); break;
		case 2:	// move assignment (possibly self)
			if (a == b) { int v = s.mn[a]; step(s.mn[a], v, "self-move", [&] { auto& r = s.n[b]; s.n[a] = std::move(r); }); }
			else { int v = s.mn[b]; s.mn[b] = -1; step(s.mn[a], v, "move-assign", [&] { s.n[a] = std::move(s.n[b]); }); }
			break;
		case 3: // temporaries by value
			{
				int v = s.mn[b]; int dummy = v;
				step(dummy, v, "temporary copies", [&] { Ptr<Node> t(s.n[b]); Ptr<Node> u(std::move(t)); Ptr<Node> w = u; w = t; if (w) sim::fail("wrong-result", "a moved-from pointer is not empty"); });
			} break;
		case 4:	// new object
			{
				int type = sim::choose(2); int nx = s.mn[b]; bool withnext = sim::chance(1, 2) && nx >= 0;
				bool mv = withnext && sim::chance(1, 3) && a != b;
				int id = add_object(type);
				if (withnext) { objs[id].next = nx; if (mv) s.mn[b] = -1; }
				if (type == 0) step(s.mn[a], id, "new plain", [&] { auto* p = new Plain(id, withnext ? (mv ? Ptr<Node>(std::move(s.n[b])) : Ptr<Node>(s.n[b])) : Ptr<Node>()); { sim::Har h; objs[id].node = static_cast<Node*>(p); } s.n[a] = Ptr(p); });
				else if (sim::chance(1, 4))	// first known through a pointer to one of its bases, which need not be its first part
				{
					sim::probe("created_through_base"); bool side = sim::chance(1, 2);
					auto build = [&]() -> Both* { auto* p = new Both(id, withnext ? (mv ? Ptr<Node>(std::move(s.n[b])) : Ptr<Node>(s.n[b])) : Ptr<Node>()); { sim::Har h; objs[id].node = static_cast<Node*>(p); objs[id].side = static_cast<Side*>(p); objs[id].both = p; } return p; };
					if (side) step(s.ms[c], id, "new both through its first base", [&] { s.s[c] = Ptr<Side>(build()); }); else step(s.mn[a], id, "new both through its second base", [&] { s.n[a] = Ptr<Node>(build()); });
				}
				else step(s.mb[c], id, "new both", [&] { auto* p = new Both(id, withnext ? (mv ? Ptr<Node>(std::move(s.n[b])) : Ptr<Node>(s.n[b])) : Ptr<Node>()); { sim::Har h; objs[id].node = static_cast<Node*>(p); objs[id].side = static_cast<Side*>(p); objs[id].both = p; } s.b[c] = Ptr<Both>(p); });
			} break;
		case 5:	// converting assignment (copy or move)
			{
				int v = s.mb[c]; bool mv = sim::chance(1, 2);
				if (mv) s.mb[c] = -1;
				if (sim::chance(1, 2)) step(s.mn[a], v, mv ? "move up" : "copy up", [&] { if (mv) s.n[a] = std::move(s.b[c]); else s.n[a] = s.b[c]; });
				else step(s.ms[d], v, mv ? "move to second base" : "copy to second base", [&] { if (mv) s.s[d] = std::move(s.b[c]); else s.s[d] = s.b[c]; });
			} break;
		case 6:	// casts
			{
				int k = sim::choose(4);
				if (k == 0) { int v = s.mn[b]; int to = v >= 0 && objs[v].type == 1 ? v : -1; if (v >= 0 && to < 0) sim::probe("failed_cast"); step(s.mb[c], to, "cast down", [&] { s.b[c] = s.n[b].Cast<Both>(); }); }
				else if (k == 1) { int v = s.mn[b]; int to = v >= 0 && objs[v].type == 1 ? v : -1; step(s.ms[c], to, "cross cast", [&] { s.s[c] = s.n[b].Cast<Side>(); }); }
				else if (k == 2) { int v = s.ms[c]; step(s.mn[a], v, "cross cast back", [&] { s.n[a] = s.s[c].Cast<Node>(); }); }
				else { int v = s.mn[b]; int dummy = v; step(dummy, v, "failing cast", [&] { auto p = s.n[b].Cast<Other>(); if (p) sim::fail("wrong-result", "a failed cast yields a pointer"); Ptr<Other> q = p; }); }
			} break;
		case 7:	// p = p->next
			if (s.mn[a] >= 0) { int v = objs[s.mn[a]].next; sim::probe("assign_from_own_member"); step(s.mn[a], v, "advance to next", [&] { s.n[a] = s.n[a]->next; }); }
			break;
		case 8: // copy some next
			if (s.mn[b] >= 0 && a != b) { int v = objs[s.mn[b]].next; step(s.mn[a], v, "copy next", [&] { s.n[a] = s.n[b]->next; }); }
			break;
		case 9:	// re-construct in place
			{
				int v = s.mn[b]; if (a == b) break;
				if (sim::chance(1, 2)) step(s.mn[a], v, "copy-construct", [&] { s.n[a].~Ptr<Node>(); new(&s.n[a]) Ptr<Node>(s.n[b]); });
				else { s.mn[b] = -1; step(s.mn[a], v, "move-construct", [&] { s.n[a].~Ptr<Node>(); new(&s.n[a]) Ptr<Node>(std::move(s.n[b])); }); }
			} break;
		case 10: // converting construction
			{
				int v = s.mb[c];
				if (sim::chance(1, 2)) step(s.mn[a], v, "converting copy-construct", [&] { s.n[a].~Ptr<Node>(); new(&s.n[a]) Ptr<Node>(s.b[c]); });
				else { s.mb[c] = -1; step(s.mn[a], v, "converting move-construct", [&] { s.n[a].~Ptr<Node>(); new(&s.n[a]) Ptr<Node>(std::move(s.b[c])); }); }
			} break;
		case 11: // detach
			{
				int v = s.mn[a]; if (v < 0) { Node* r = LIB(return s.n[a].Detach()); SIM_CHECK(!r, "wrong-result", "detaching an empty pointer gives an object"); break; }
				int w = owners(v); bool mine = false;
				for (int i = 0; i < 3; i++) if (i != a && s.mn[i] == v) mine = true;
				for (auto& x : all[0]->mn) if (all[0] != &s && x == v) mine = true;
				bool inflight = false; for (int t = 0; t < 8; t++) if (t != sim::tid() && releasing[t] >= 0) inflight = true;
				if (w > 1 && mine)
				{
					sim::probe("detach_shared");
					step(s.mn[a], -1, "detach shared", [&] { Node* r = s.n[a].Detach(); if (r != objs[v].node) sim::fail("wrong-result", "detach returns another object"); if (s.n[a]) sim::fail("wrong-result", "a detached pointer still holds the object"); });
				}
				else if (w == 1 && !inflight)
				{
					sim::probe("detach_sole");
					size_t before = sim::live_blocks(); (void)before;
					objs[v].detached = true;
					Node* raw = nullptr;
					step(s.mn[a], -1, "detach sole", [&] { raw = s.n[a].Detach(); });
					SIM_CHECK(raw == objs[v].node, "wrong-result", "detach returns another object");
					SIM_CHECK(!objs[v].dead, "deleted-while-owned", "detaching the sole owner deleted the object");
					vint val = LIB(return raw->payload); SIM_CHECK(val == v * 1000 + 7, "wrong-contents", "detached object reads %lld", (long long)val);
					bool e = LIB(return (bool)s.n[a]); SIM_CHECK(!e, "wrong-result", "a detached pointer still holds the object");
					LIB(delete raw);
					SIM_CHECK(objs[v].deaths == 1, "deleted-twice", "detached object deleted %d times", objs[v].deaths);
					detached_counters++;
				}
			} break;
		case 12: // comparisons
			{
				int x = s.mn[a], y = s.mn[b];
				bool eq = LIB(return s.n[a] == s.n[b]); SIM_CHECK(eq == (x == y), "wrong-result", "pointer equality of %d and %d", x, y);
				bool lt = LIB(return (s.n[a] <=> s.n[b]) < 0); SIM_CHECK(lt == ((x < 0 ? 0 : (size_t)objs[x].node) < (y < 0 ? 0 : (size_t)objs[y].node)), "wrong-result", "pointer ordering of %d and %d", x, y);
				bool er = LIB(return s.n[a] == s.n[b].Obj()); SIM_CHECK(er == (x == y), "wrong-result", "raw equality of %d and %d", x, y);
			} break;
		case 13: // the bookkeeping allocation fails
			{
				int id = add_object(0);
				Node* raw = LIB(return (Node*)new Plain(id, Ptr<Node>()));
				objs[id].node = raw;
				size_t before = sim::live_blocks();
				sim::fail_alloc_after(0, 1);
				bool threw = false; int v = s.mn[a];
				try { step(s.mn[a], v, "construct without memory", [&] { Ptr<Node> p(raw); }); } catch (const std::bad_alloc&) { threw = true; releasing[sim::tid()] = -1; }
				uint64_t fired = sim::clear_alloc_faults();
				if (fired && threw)
				{
					SIM_CHECK(objs[id].dead, "leak", "the object handed to a pointer that could not be made has no owner but was not deleted");
					// other threads may allocate concurrently, so only a quiet system can be compared exactly
					if (sim::thread_count() == 1) SIM_CHECK(sim::live_blocks() < before, "leak", "failed construction leaks");
				}
				else if (!fired) { SIM_CHECK(objs[id].dead, "never-deleted", "temporary owner did not delete its object"); }
				else sim::fail("swallowed-out-of-memory", "construction reports success although its allocation failed");
			} break;
		case 14: // mailbox put
			if (!boxbusy && sim::thread_count() > 1)
			{
				boxbusy = true; sim::sync_acquire(1);
				int v = s.mn[a]; step(mbox, v, "put in mailbox", [&] { *box = s.n[a]; });
				sim::sync_release(1); boxbusy = false;
			} break;
		case 15: // mailbox take
			if (!boxbusy && sim::thread_count() > 1)
			{
				boxbusy = true; sim::sync_acquire(1);
				int v = mbox; mbox = -1; sim::probe("hand_over");
				step(s.mn[a], v, "take from mailbox", [&] { s.n[a] = std::move(*box); });
				sim::sync_release(1); boxbusy = false;
			} break;
		}
		verify_all(s);
	}
	// objects with two parts of the same type, and a virtual base: which part a pointer holds matters
	struct Top { int oid; Top(int i) : oid(i) {} virtual ~Top() { sim::Har h; } };
	struct Part { vint label; Part(vint l) : label(l) {} virtual ~Part() { sim::Har h; } };
	struct PL : public virtual Top, public Part { PL(int i) : Top(i), Part(i * 10 + 1) {} virtual int padl() { return 1; } };
	struct PR : public virtual Top, public Part { vint gap; PR(int i) : Top(i), Part(i * 10 + 2), gap(3) {} virtual int padr() { return 2; } };
	HARNESS int part_deaths[4];
	struct Dia : public PL, public PR { Dia(int i) : Top(i), PL(i), PR(i) {} ~Dia() { sim::Har h; part_deaths[oid]++; } };
	struct PM { int o; int side; bool operator==(const PM&) const = default; };					// object, 0 = left part, 1 = right part
	void parts()
	{
		struct PS { Ptr<Part> p[3]; Ptr<const Part> c[2]; Ptr<Dia> d[2]; Ptr<PL> l[2]; Ptr<PR> r[2]; Ptr<Top> t[2]; };
		PS* S = sim::make<PS>(); Dia* raw[4] = {}; int made = 0; for (int& x : part_deaths) x = 0;
		PM mp[3], mc[2]; int md[2], ml[2], mr[2], mt[2];
		for (auto& x : mp) x = { -1, 0 }; for (auto& x : mc) x = { -1, 0 }; for (int i = 0; i < 2; i++) md[i] = ml[i] = mr[i] = mt[i] = -1;
		auto part = [&](PM m) -> Part* { return m.o < 0 ? nullptr : m.side ? static_cast<Part*>(static_cast<PR*>(raw[m.o])) : static_cast<Part*>(static_cast<PL*>(raw[m.o])); };
		auto own = [&](int o) { int n = 0; for (auto& x : mp) n += x.o == o; for (auto& x : mc) n += x.o == o; for (int i = 0; i < 2; i++) n += (md[i] == o) + (ml[i] == o) + (mr[i] == o) + (mt[i] == o); return n; };
		auto verify_parts = [&](const char* w)
		{
			for (int i = 0; i < 3; i++) { Part* q = LIB(return S->p[i].Obj()); SIM_CHECK(q == part(mp[i]), "wrong-pointer", "after %s pointer %d does not hold part %d of object %d", w, i, mp[i].side, mp[i].o); if (q) { vint v = LIB(return S->p[i]->label); SIM_CHECK(v == mp[i].o * 10 + 1 + mp[i].side, "wrong-contents", "after %s the part reads %lld", w, (long long)v); } }
			for (int i = 0; i < 2; i++)
			{
				const Part* q = LIB(return S->c[i].Obj()); SIM_CHECK(q == part(mc[i]), "wrong-pointer", "after %s const pointer %d does not hold part %d of object %d", w, i, mc[i].side, mc[i].o);
				void* a = LIB(return (void*)S->d[i].Obj()); SIM_CHECK(a == (md[i] < 0 ? nullptr : (void*)raw[md[i]]), "wrong-pointer", "after %s the whole is another object", w);
				void* b = LIB(return (void*)S->l[i].Obj()); SIM_CHECK(b == (ml[i] < 0 ? nullptr : (void*)static_cast<PL*>(raw[ml[i]])), "wrong-pointer", "after %s the left half is another object", w);
				void* c = LIB(return (void*)S->r[i].Obj()); SIM_CHECK(c == (mr[i] < 0 ? nullptr : (void*)static_cast<PR*>(raw[mr[i]])), "wrong-pointer", "after %s the right half is another object", w);
				void* t = LIB(return (void*)S->t[i].Obj()); SIM_CHECK(t == (mt[i] < 0 ? nullptr : (void*)static_cast<Top*>(raw[mt[i]])), "wrong-pointer", "after %s the shared base is another object", w);
			}
			for (int o = 0; o < made; o++) { int n = own(o); SIM_CHECK(n ? part_deaths[o] == 0 : part_deaths[o] == 1, n ? "deleted-while-owned" : "never-deleted", "after %s object %d has %d owner(s) and was deleted %d time(s)", w, o, n, part_deaths[o]); }
		};
		sim::probe("two_parts_of_one_type");
		int n = sim::ops(40, 20, [&]
		{
			int a = sim::choose(3), b = sim::choose(3), i = sim::choose(2), j = sim::choose(2); bool mv = sim::chance(1, 2); const char* w = "?";
			switch (sim::pick({ 5, 5, 5, 5, 4, 4, 4, 4, 3, 3, 4, 3, 3, 4 }))
			{
			case 0: w = "new"; if (made < 4) { int o = made++; md[i] = o; LIB(S->d[i] = Ptr(raw[o] = new Dia(o))); } break;
			case 1: w = "halves"; if (sim::chance(1, 2)) { ml[j] = md[i]; LIB(S->l[j] = S->d[i]); } else { mr[j] = md[i]; LIB(S->r[j] = S->d[i]); } break;
			case 2: w = "left part"; mp[a] = { ml[i], 0 }; if (mv) { ml[i] = -1; LIB(S->p[a] = std::move(S->l[i])); } else LIB(S->p[a] = S->l[i]); break;
			case 3: w = "right part"; mp[a] = { mr[i], 1 }; if (mv) { mr[i] = -1; LIB(S->p[a] = std::move(S->r[i])); } else LIB(S->p[a] = S->r[i]); break;
			case 4: w = "copy"; mp[a] = mp[b]; LIB(S->p[a] = S->p[b]); break;
			case 5: w = "move"; if (a != b) { mp[a] = mp[b]; mp[b] = { -1, 0 }; LIB(S->p[a] = std::move(S->p[b])); } break;
			case 6: w = "to const"; mc[i] = mp[a]; if (mv) { mp[a] = { -1, 0 }; LIB(S->c[i] = std::move(S->p[a])); } else LIB(S->c[i] = S->p[a]); break;
			case 7: w = "cast to whole"; md[i] = mp[a].o; LIB(S->d[i] = S->p[a].Cast<Dia>()); break;
			case 8: w = "cast across"; if (mv) { mr[i] = mp[a].o; LIB(S->r[i] = S->p[a].Cast<PR>()); } else { ml[i] = mr[j]; LIB(S->l[i] = S->r[j].Cast<PL>()); } break;
			case 9: w = "swap"; if (a != b) { std::swap(mp[a], mp[b]); LIB(Ptr<Part> t(std::move(S->p[a])); S->p[a] = S->p[b]; S->p[b] = t); } break;
			case 10: w = "shared base"; { int k = sim::choose(3); mt[i] = k == 0 ? md[j] : k == 1 ? ml[j] : mr[j]; if (k == 0) LIB(S->t[i] = S->d[j]); else if (k == 1) LIB(S->t[i] = S->l[j]); else LIB(S->t[i] = S->r[j]); } break;
			case 11: w = "down from the shared base"; mp[a] = { mt[i], 0 }; LIB(S->p[a] = S->t[i].Cast<PL>()); break;
			case 12: w = "drop"; if (sim::chance(1, 2)) { md[i] = -1; LIB(S->d[i] = nullptr); } else { ml[i] = -1; mr[j] = -1; LIB(S->l[i] = nullptr; S->r[j] = nullptr); } break;
			case 13: w = "comparison";
				{
					bool eq = LIB(return S->p[a] == S->p[b]); SIM_CHECK(eq == (part(mp[a]) == part(mp[b])), "wrong-result", "equality of parts %d.%d and %d.%d", mp[a].o, mp[a].side, mp[b].o, mp[b].side);
					auto o = LIB(return S->p[a] <=> S->p[b]); SIM_CHECK(o == ((size_t)part(mp[a]) <=> (size_t)part(mp[b])), "wrong-result", "order of parts %d.%d and %d.%d", mp[a].o, mp[a].side, mp[b].o, mp[b].side);
				} break;
			}
			verify_parts(w);
		});
		if (n > 3) sim::nontrivial();
		LIB(sim::unmake(S));
		for (int o = 0; o < made; o++) SIM_CHECK(part_deaths[o] == 1, "never-deleted", "object %d was deleted %d times", o, part_deaths[o]);
		sim::check_no_leaks("after the parts");
	}

	// a user-supplied counting strategy: the same raw pointer may be turned into a shared pointer again and again
	struct Num : public intr::Counted { vint v; Num(vint x) : v(x) {} };
	struct NumEx : public Top, public Num { NumEx(vint x) : Top((int)x), Num(x) {} };
	void intrusive()
	{
		struct IS { Ptr<Num> n[4]; }; IS* S = sim::make<IS>(); intr::deaths = intr::strategy = 0; sim::probe("user_supplied_counter");
		std::vector<Num*> raw; std::vector<int> dead; int m[4] = { -1, -1, -1, -1 };
		auto own = [&](int o) { int c = 0; for (int x : m) c += x == o; return c; };
		int n = sim::ops(30, 15, [&]
		{
			int a = sim::choose(4), b = sim::choose(4); int old = m[a]; int expect = intr::deaths;
			switch (sim::pick({ 4, 4, 4, 3, 3, 2 }))
			{
			case 0: { int o = (int)raw.size(); raw.push_back(nullptr); dead.push_back(0); m[a] = o; if (sim::chance(1, 2)) LIB(auto* p = new Num(o); { sim::Har h; raw[o] = p; } S->n[a] = Ptr(p)); else LIB(auto* p = new NumEx(o); { sim::Har h; raw[o] = p; } S->n[a] = Ptr<NumEx>(p)); } break;
			case 1: m[a] = m[b]; if (m[b] >= 0) { sim::probe("raw_again"); LIB(S->n[a] = Ptr<Num>(raw[m[b]])); } else LIB(S->n[a] = Ptr<Num>((Num*)nullptr)); break;
			case 2: m[a] = m[b]; LIB(S->n[a] = S->n[b]); break;
			case 3: if (a != b) { m[a] = m[b]; m[b] = -1; LIB(S->n[a] = std::move(S->n[b])); } break;
			case 4: m[a] = -1; LIB(S->n[a] = nullptr); break;
			case 5: if (m[a] >= 0) { int o = m[a]; m[a] = -1; Num* r = LIB(return S->n[a].Detach()); SIM_CHECK(r == raw[o], "wrong-result", "detach returns another object"); SIM_CHECK(intr::deaths == expect, "deleted-while-owned", "detach deleted the object"); m[a] = o; LIB(S->n[a] = Ptr<Num>(r)); } break;
			}
			if (old >= 0 && own(old) == 0) { dead[old] = 1; expect++; }
			SIM_CHECK(intr::deaths == expect, intr::deaths > expect ? "deleted-while-owned" : "never-deleted", "%d objects with their own counter deleted, expected %d", intr::deaths, expect);
			SIM_CHECK(intr::strategy == expect, "wrong-result", "the strategy was asked %d times, expected %d", intr::strategy, expect);
			for (int i = 0; i < 4; i++) { Num* q = LIB(return S->n[i].Obj()); SIM_CHECK(q == (m[i] < 0 ? nullptr : raw[m[i]]), "wrong-pointer", "pointer %d should hold object %d", i, m[i]); if (q) { vint v = LIB(return S->n[i]->v); SIM_CHECK(v == m[i], "wrong-contents", "object %d reads %lld", m[i], (long long)v); } }
		});
		if (n > 3) sim::nontrivial();
		LIB(sim::unmake(S));
		SIM_CHECK(intr::deaths == (int)raw.size(), "never-deleted", "%d of %zu objects deleted", intr::deaths, raw.size());
		sim::check_no_leaks("after the objects with their own counter");
	}
	void drop_all(Slots& s)
	{
		for (int i = 0; i < 3; i++) step(s.mn[i], -1, "final drop", [&] { s.n[i] = nullptr; });
		for (int i = 0; i < 2; i++) { step(s.mb[i], -1, "final drop", [&] { s.b[i] = nullptr; }); step(s.ms[i], -1, "final drop", [&] { s.s[i] = nullptr; }); }
	}
}

void sim_scenario()
{
	objs.clear(); all.clear(); mbox = -1; boxbusy = false; detached_counters = 0;
	for (int& r : releasing) r = -1; for (int t = 0; t < 8; t++) peeking[t] = current[t] = nullptr;
	if (sim::chance(1, 8)) { parts(); return; }
	if (sim::chance(1, 10)) { intrusive(); return; }
	box = sim::make<Ptr<Node>>();
	int threads = (int)sim::pick({ 2, 5, 3, 2 });			// 0..3 extra threads
	Slots* pins = sim::make<Slots>(); all.push_back(pins);
	// roots, made by main
	int roots = 1 + sim::choose(3);
	for (int i = 0; i < roots; i++)
	{
		int id = add_object(1);
		int nx = i > 0 && sim::chance(1, 2) ? pins->mn[0] : -1;
		objs[id].next = nx;
		step(pins->mb[i % 2], id, "root", [&] { auto* p = new Both(id, nx >= 0 ? Ptr<Node>(pins->n[0]) : Ptr<Node>()); { sim::Har h; objs[id].node = static_cast<Node*>(p); objs[id].side = static_cast<Side*>(p); objs[id].both = p; } pins->b[i % 2] = Ptr(p); });
		int v = id; step(pins->mn[i], v, "root up", [&] { pins->n[i] = pins->b[i % 2]; });
	}
	verify_all(*pins);
	std::vector<Slots*> mine;
	for (int t = 0; t < threads; t++)
	{
		Slots* s = sim::make<Slots>(); all.push_back(s); mine.push_back(s);
		for (int i = 0; i < 2; i++) { int r = sim::choose(3); int v = pins->mn[r]; step(s->mn[i], v, "hand to thread", [&] { s->n[i] = pins->n[r]; }); }
	}
	bool keep = sim::chance(1, 2);
	if (!keep) drop_all(*pins);
	if (threads == 0)
	{
		int n = sim::ops(60, 25, [&] { one_op(*pins); });
		if (n > 2) sim::nontrivial();
	}
	else
	{
		if (threads >= 2) sim::nontrivial();
		for (int t = 0; t < threads; t++) { Slots* s = mine[t]; sim::spawn([s] { sim::ops(12, 5, [&] { one_op(*s); }); if (sim::chance(2, 3)) drop_all(*s); }); }
		sim::join_all();
	}
	for (auto* s : all) { verify_all(*s); drop_all(*s); }
	step(mbox, -1, "empty mailbox", [&] { *box = nullptr; });
	for (size_t i = 0; i < objs.size(); i++) SIM_CHECK(objs[i].dead && objs[i].deaths == 1, "never-deleted", "object %zu was deleted %d times", i, objs[i].deaths);
	size_t left = sim::live_blocks();
	if (left)
	{
		if (detached_counters && left <= (size_t)detached_counters) sim::known("detach-leaks-counter", "%zu reference counter(s) of detached objects never freed", left);
		else sim::check_no_leaks("end of run");
	}
	sim::mix(objs.size());
}

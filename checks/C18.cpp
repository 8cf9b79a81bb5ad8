// C18: collection references are kept, returned and told exactly once, through moves, sharing, nesting and failures.
#include "common.h"
#include "Source/Collections/List.h"
#include "Source/Collections/Dictionary.h"
#include "Source/Collections/Operation.h"
#include <memory>
using namespace vl;
using namespace vl::collections;
using namespace common;
COMMON_STATE
const char* const sim_property = "C18";

namespace
{
	struct Slot; HARNESS std::vector<Slot*>* doomed;
	// the reference object: counts its notifications; told so by a collection it may destroy further collections
	class Ref : public Object, public virtual ICollectionReference
	{
	public:
		int id; Elem life; atomic_vint told; int tid; Slot* victim = nullptr;
		Ref(int _id) : id(_id), life(_id), told(0) {}
		void OnDisposed() override;
	};
	class Other : public Object, public virtual ICollectionReference { public: Elem life; Other() : life(-1) {} void OnDisposed() override { sim::Har h; life.rd(); } };

	enum Kind { KArray, KList, KSorted, KDict, KGroup, KLazy, KMax };
	const char* const kinds[] = { "array", "list", "sorted list", "dictionary", "group", "lazy query" };
	struct Slot	// one collection with the model of its reference
	{
		Kind kind; void* mem = nullptr; int ref = -1; bool other = false; int* alive; bool busy = false; std::multiset<int> contents;
	};
	typedef Dictionary<vint, Elem> D; typedef Group<vint, Elem> G;
	template<class F> auto with(Slot* s, F f)
	{
		switch (s->kind) { case KArray: return f((Array<Elem>*)s->mem); case KList: return f((List<Elem>*)s->mem); case KSorted: return f((SortedList<vint>*)s->mem); case KDict: return f((D*)s->mem); case KGroup: return f((G*)s->mem); default: return f((LazyList<Elem>*)s->mem); }
	}
	struct Refs { std::vector<Ptr<Ref>*> held; std::vector<Ref*> raw; std::vector<long> expect; };
	HARNESS std::map<int, long>* expect[16]; HARNESS std::map<int, long>* told_[16]; HARNESS int ids[16];

	void Ref::OnDisposed()
	{
		Slot* v;
		{ sim::Har h; life.rd(); (*told_[sim::tid()])[id]++; sim::log("reference %d is told", id); v = victim; }
		INCRC(&told);
		if (v) { { sim::Har h; victim = nullptr; } extern void kill_slot(Slot*); sim::Har h; void destroy(Slot*); destroy(v); }
	}
	void destroy(Slot* s)	// harness mode
	{
		if (!s->mem) return; if (s->busy) return; s->busy = true;
		sim::log("destroy a %s%s", kinds[s->kind], s->ref >= 0 ? " with a reference" : ""); if (s->ref >= 0) (*expect[sim::tid()])[s->ref]++; int ref = s->ref; s->ref = -1; (void)ref; void* m = s->mem; s->mem = nullptr;
		Slot t = *s; t.mem = m; with(&t, [&](auto* c) { using C = std::remove_pointer_t<decltype(c)>; sim::Lib l; c->~C(); return 0; }); sim::heap_free(m); s->busy = false; s->other = false;
	}
	void create(Slot* s, Kind k)
	{
		s->kind = k; s->ref = -1; s->other = false; int n = sim::choose(4); sim::log("create a %s of %d", kinds[k], n);
		switch (k)
		{
		case KArray: { auto m = sim::heap_alloc(sizeof(Array<Elem>)); LIB(new(m) Array<Elem>(n)); s->mem = m; } break;
		case KList: { auto m = sim::heap_alloc(sizeof(List<Elem>)); auto c = LIB(return new(m) List<Elem>()); for (int i = 0; i < n; i++) LIB(c->Add(Elem(i))); s->mem = m; } break;
		case KSorted: { auto m = sim::heap_alloc(sizeof(SortedList<vint>)); auto c = LIB(return new(m) SortedList<vint>()); for (int i = 0; i < n; i++) LIB(c->Add(i)); s->mem = m; } break;
		case KDict: { auto m = sim::heap_alloc(sizeof(D)); auto c = LIB(return new(m) D()); for (int i = 0; i < n; i++) LIB(c->Add(i, Elem(i))); s->mem = m; } break;
		case KGroup: { auto m = sim::heap_alloc(sizeof(G)); auto c = LIB(return new(m) G()); for (int i = 0; i < n; i++) LIB(c->Add(i % 2, Elem(i))); s->mem = m; } break;
		default: { auto m = sim::heap_alloc(sizeof(LazyList<Elem>)); LIB(auto src = Ptr(new List<Elem>()); for (int i = 0; i < n; i++) src->Add(Elem(i)); new(m) LazyList<Elem>(LazyList<Elem>(src).Where([](const Elem& e) { return e.value % 2 == 0; }))); s->mem = m; } break;
		}
	}
	struct Local { Slot s[5]; Ptr<Ref> held[3]; int refid[3] = { -1, -1, -1 }; };	// per thread
	struct Quit {};
	void check_ref(Slot* s)
	{
		if (!s->mem || s->busy) return;
		with(s, [&](auto* c)
		{
			Ptr<ICollectionReference> r = LIB(return c->GetCollectionReference()); SIM_CHECK((bool)r == (s->ref >= 0 || s->other), "wrong-reference", "a %s %s", kinds[s->kind], r ? "has a reference nobody attached" : "has lost its reference");
			const Object* o = LIB(return c->GetCollectionObject()); SIM_CHECK(o == (const Object*)c, "wrong-reference", "a %s is not its own collection object", kinds[s->kind]);
			bool err = false; int got = -1; try { sim::Lib l; auto t = c->template TryGetCollectionReference<Ref>(); if (t) got = t->id; } catch (const Error&) { err = true; }
			SIM_CHECK(err == s->other && got == s->ref, "wrong-reference", "a %s has reference %d, should have %d", kinds[s->kind], got, s->ref);
			LIB(r = nullptr); return 0;
		});
	}
	void step(Local* L, bool faults)
	{
		Slot* s = L->s + sim::choose(5);
		switch (sim::pick({ 4, 6, 4, 3, 3, 2, 2, 2, 2 }))
		{
		case 0: if (!s->mem) create(s, (Kind)sim::choose(KMax)); break;
		case 1: if (s->mem) // attach
			{
				int h = sim::choose(3); if (!LIB(return (bool)L->held[h])) break; bool err = false, oth = sim::chance(1, 8); int id = L->refid[h]; sim::log("attach reference %d", oth ? -1 : id);
				with(s, [&](auto* c) { try { sim::Lib l; if (oth) c->SetCollectionReference(Ptr<ICollectionReference>(Ptr(new Other()))); else c->SetCollectionReference(L->held[h]); } catch (const Error&) { err = true; } return 0; });
				SIM_CHECK(err == (s->ref >= 0 || s->other), "wrong-reference", "attaching a %s reference %s", err ? "first" : "second", err ? "is refused" : "is accepted");
				if (!err) { if (oth) s->other = true; else s->ref = id; }
			} break;
		case 2: destroy(s); break;
		case 3: // drop or make a reference
			{
				int h = sim::choose(3); if (sim::chance(1, 3)) { LIB(L->held[h] = nullptr); L->refid[h] = -1; }
				else { int t = sim::tid(), id = t * 1000 + ids[t]++; LIB(L->held[h] = Ptr(new Ref(id))); L->refid[h] = id; if (sim::chance(1, 3)) { Slot* v = L->s + sim::choose(5); LIB(L->held[h]->victim = v); } }
			} break;
		case 4: if (s->mem) // move away: the reference stays with the collection object
			{
				sim::log("move a %s", kinds[s->kind]); sim::probe("moved");
				bool assign = sim::chance(1, 2);
				with(s, [&](auto* c) { using C = std::remove_pointer_t<decltype(c)>; sim::Lib l; if constexpr (!std::is_same_v<C, LazyList<Elem>>) { if (assign) { C d; d = std::move(*c); } else { C d(std::move(*c)); } } else { C d(std::move(*c)); C e((const C&)d); C f; f = e; f = std::move(e); } return 0; });
			} break;
		case 5: if (s->mem) // a query over it, enumerated and copied
			{
				bool thr = faults && sim::chance(1, 3); sim::log("query a %s", kinds[s->kind]);
				try { with(s, [&](auto* c) { sim::Lib l; using E = typename std::remove_pointer_t<decltype(c)>::ElementType; LazyList<E> q = From(*c); auto r = q.GetCollectionReference(); { sim::Har h; SIM_CHECK(!r, "wrong-reference", "a query over a collection carries a reference of its own"); } LazyList<E> p(q); for (auto&& x : p) { (void)x; if (thr) { { sim::Har h; sim::fault("body_throws"); } throw Quit(); } } return 0; }); } catch (const Quit&) {}
			} break;
		case 6: // destroyed in the middle of an exception
			{
				int h = sim::choose(3); if (!LIB(return (bool)L->held[h])) break; int id = L->refid[h]; bool v = LIB(return L->held[h]->victim != nullptr); if (v) break; sim::log("a list with reference %d is destroyed by an exception", id);
				try { sim::Lib l; List<Elem> a; a.SetCollectionReference(L->held[h]); Dictionary<vint, vint> b; b.SetCollectionReference(L->held[h]); { sim::Har hh; (*expect[sim::tid()])[id] += 2; sim::fault("exception_during_use"); } throw Quit(); } catch (const Quit&) {}
			} break;
		case 7: if (s->mem) // empty and refill
			{
				sim::log("empty a %s", kinds[s->kind]);
				with(s, [&](auto* c) { using C = std::remove_pointer_t<decltype(c)>; sim::Lib l; if constexpr (std::is_same_v<C, Array<Elem>>) c->Resize(0); else if constexpr (!std::is_same_v<C, LazyList<Elem>>) c->Clear(); if constexpr (std::is_same_v<C, List<Elem>>) { c->Add(Elem(5)); } return 0; });
			} break;
		case 8: if (s->mem && s->kind != KLazy && faults) // a failing mutation
			{
				sim::fail_alloc_after(0); try { with(s, [&](auto* c) { using C = std::remove_pointer_t<decltype(c)>; sim::Lib l; if constexpr (std::is_same_v<C, List<Elem>>) for (int i = 0; i < 20; i++) c->Add(Elem(i)); return 0; }); } catch (const std::bad_alloc&) {} sim::clear_alloc_faults();
			} break;
		}
		for (auto& x : L->s) check_ref(&x);
		SIM_CHECK(*told_[sim::tid()] == *expect[sim::tid()], "wrong-notification", "a reference was told %s", [] { for (auto& e : *expect[sim::tid()]) if ((*told_[sim::tid()])[e.first] < e.second) return "too rarely"; return "too often"; }());
	}
	void finish(Local* L) { for (auto& x : L->s) destroy(&x); for (auto& h : L->held) LIB(h = nullptr); SIM_CHECK(*told_[sim::tid()] == *expect[sim::tid()], "wrong-notification", "a reference was not told once for each of its collections"); }
}
void sim_scenario()
{
	common::reset(); for (int i = 0; i < 16; i++) { if (!expect[i]) { expect[i] = new std::map<int, long>; told_[i] = new std::map<int, long>; } expect[i]->clear(); told_[i]->clear(); ids[i] = 1; }
	Local* L[3]; for (auto& l : L) l = LIB(return sim::make<Local>());
	int threads = sim::chance(1, 2) ? 0 : 1 + (int)sim::choose(2);
	int n = sim::ops(30, 12, [&] { step(L[0], true); });
	// hand references over to the threads, which attach them to their own collections
	for (int t = 1; t <= threads; t++) for (int h = 0; h < 3; h++) { bool v = LIB(return (bool)L[0]->held[h] && !L[0]->held[h]->victim); if (v) { LIB(L[t]->held[h] = L[0]->held[h]); L[t]->refid[h] = L[0]->refid[h]; } }
	for (int t = 1; t <= threads; t++) sim::spawn([=] { sim::ops(12, 6, [=] { step(L[t], false); }); finish(L[t]); });
	if (threads) { sim::ops(12, 6, [&] { step(L[0], false); }); sim::join_all(); }
	finish(L[0]);
	for (auto& l : L) { LIB(l->~Local()); }
	if (n > 2 || threads) sim::nontrivial();
	SIM_CHECK(ledger.alive == 0, "lifetime", "%ld objects were never destroyed", ledger.alive);
	sim::check_no_leaks("end of run");
}

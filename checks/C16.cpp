// C16: Nullable and Variant through histories in which copies of contained values throw.
#include "common.h"
#include "Source/Strings/String.h"
#include "Source/Primitives/Pointer.h"
#include "Source/Primitives/Nullable.h"
#include "Source/Primitives/Variant.h"
using namespace vl;
using namespace common;
COMMON_STATE
const char* const sim_property = "C16";

namespace
{
	struct Fixed { const int tag; Elem e; Fixed(int v) : tag(4711), e(v) {} Fixed(const Fixed&) = default; Fixed(Fixed&&) = default; bool operator==(const Fixed& o) const { return e == o.e; } auto operator<=>(const Fixed& o) const { return e <=> o.e; } };	// cannot be assigned
	struct Wide	// three parts, its copy may throw between them; its assignment has no effect when it throws
	{
		Elem a; int v; Elem b; Wide(int x) : a(x), v(x), b(x) {} Wide(const Wide&) = default; Wide(Wide&&) = default;
		Wide& operator=(const Wide& o) { Wide t(o); return *this = std::move(t); } Wide& operator=(Wide&& o) { a = std::move(o.a); v = o.v; b = std::move(o.b); return *this; }
		bool operator==(const Wide& o) const { return a == o.a; } auto operator<=>(const Wide& o) const { return a <=> o.a; }
	};
	struct Pinned { Elem e; Pinned(int v) : e(v) {} Pinned(const Pinned&) = delete; Pinned& operator=(const Pinned&) = delete; Pinned& operator=(int v) { e = Elem(v); return *this; } };
	const int MOVED = Elem::MOVED;
	int val(const Elem& e) { sim::Har h; e.rd(); return e.value; }
	int val(const Fixed& f) { sim::Har h; f.e.rd(); SIM_CHECK(f.tag == 4711, "wrong-value", "a value is half constructed"); return f.e.value; }
	int val(const Wide& w) { sim::Har h; w.a.rd(); w.b.rd(); SIM_CHECK(w.a.value == w.b.value && (w.a.value == MOVED || w.a.value == w.v), "wrong-value", "a value is half constructed"); return w.a.value; }

	struct Box; typedef Variant<Elem, Wide, vint, WString, Ptr<Box>> Var;
	struct Box { Elem e; Wide w; Var* inner; Box(int v); ~Box(); };
	Box::Box(int v) : e(v), w(v + 1), inner(new Var(Wide(v + 2))) {} Box::~Box() { delete inner; }
	struct SubBox : Box { using Box::Box; };
	struct MV { int type; int v; bool operator==(const MV& o) const { return type == o.type && v == o.v; } };

	const int N = 3;
	struct Slots { Nullable<Elem> e[N]; Nullable<Fixed> f[N]; Nullable<Wide> w[N]; Var v[N]; };
	HARNESS Slots* s; HARNESS MV me[N], mf[N], mw[N], mv[N];	// nullable: type 0 = empty, 1 = a value

	template<class T> MV read(const Nullable<T>& n) { bool b = LIB(return (bool)n); if (!b) { bool err = false; try { sim::Lib l; (void)n.Value(); } catch (const Error&) { err = true; } SIM_CHECK(err, "wrong-value", "an empty optional has a value"); return { 0, 0 }; } int v = LIB(return val(n.Value())); return { 1, v }; }
	MV read(const Var& x)
	{
		vint i = LIB(return x.Index()); SIM_CHECK(i >= 0 && i < 5, "wrong-value", "a variant holds alternative %lld", (long long)i); MV m{ (int)i, 0 };
		LIB(switch (i) { case 0: m.v = val(x.Get<Elem>()); break; case 1: m.v = val(x.Get<Wide>()); break; case 2: m.v = (int)x.Get<vint>(); break; case 3: { const WString& w = x.Get<WString>(); m.v = w.Length() ? w[0] - L'A' + (int)w.Length() * 100 : 0; } break; case 4: { auto p = x.Get<Ptr<Box>>(); m.v = p ? val(p->e) : MOVED; } break; });
		int seen = 0, by = -1; LIB(x.Apply(Overloading([&](const Elem&) { seen++; by = 0; }, [&](const Wide&) { seen++; by = 1; }, [&](const vint&) { seen++; by = 2; }, [&](const WString&) { seen++; by = 3; }, [&](const Ptr<Box>&) { seen++; by = 4; })));
		SIM_CHECK(seen == 1 && by == i, "wrong-value", "applying callbacks to a variant holding alternative %lld calls %d of them, last %d", (long long)i, seen, by);
		return m;
	}
	int parts(const MV& m) { return m.type == 0 ? 1 : m.type == 1 ? 2 : m.type == 4 && m.v != MOVED ? 5 : 0; }
	HARNESS long extra;
	void one(const MV& got, const MV& want, const char* kind, int i) { SIM_CHECK(got == want, "wrong-value", "%s %d holds %d:%d, should hold %d:%d", kind, i, got.type, got.v, want.type, want.v); }
	HARNESS std::map<int, int>* boxes;
	void verify()
	{
		long total = extra; std::set<int> bx;
		for (int i = 0; i < N; i++)
		{
			one(read(s->e[i]), me[i], "optional", i); one(read(s->f[i]), mf[i], "optional (not assignable)", i); one(read(s->w[i]), mw[i], "optional (wide)", i); one(read(s->v[i]), mv[i], "variant", i);
			total += me[i].type + mf[i].type + 2 * mw[i].type; if (mv[i].type == 4) { if (mv[i].v != MOVED && bx.insert(mv[i].v).second) total += 5; } else total += parts(mv[i]);
		}
		SIM_CHECK(ledger.alive == total, "lifetime", "%ld contained objects are alive, %ld should be", ledger.alive, total);
	}
	// f is library code; on success g updates the model, on an exception nothing may have changed
	template<class F, class G> void op(const char* what, F f, G g)
	{
		int fault = (int)sim::pick({ 4, 4, 1 }); uint64_t n = fault ? sim::choose(3) : 0; sim::log("%s%s", what, fault == 1 ? " (copy may throw)" : fault ? " (allocation may fail)" : "");
		if (fault == 1) elem_copy_fail() = (long)n; else if (fault == 2) sim::fail_alloc_after(n);
		bool threw = false; try { sim::Lib l; f(); } catch (const ElemThrow&) { threw = true; } catch (const std::bad_alloc&) { threw = true; }
		bool fired = fault == 1 ? elem_copy_fail() < 0 : fault == 2 ? sim::clear_alloc_faults() > 0 : false; elem_copy_fail() = -1;
		SIM_CHECK(threw == fired, "wrong-exception", "%s: %s", what, threw ? "an exception arrives although nothing failed" : "an exception was swallowed");
		if (!threw) g(); else sim::probe("failed_assignment");
		verify();
	}
	template<class T> void nullable_op(Nullable<T>* x, MV* m)
	{
		typedef Nullable<T> NT; int i = sim::choose(N), j = sim::choose(N); int k = sim::choose(9); NT& a = x[i]; NT& b = x[j];
		switch (sim::pick({ 4, 4, 4, 3, 2, 2, 2, 2, 2 }))
		{
		case 0: { T t = LIB(return T(k)); extra = std::is_same_v<T, Wide> ? 2 : 1; op("optional = value", [&] { a = (const T&)t; }, [&] { m[i] = { 1, k }; }); extra = 0; } break;
		case 1: op("optional = moved value", [&] { a = T(k); }, [&] { m[i] = { 1, k }; }); break;
		case 2: op(i == j ? "optional = itself" : "optional = optional", [&] { a = (const NT&)b; }, [&] { m[i] = m[j]; }); break;
		case 3: if (i != j) op("optional = moved optional", [&] { a = std::move(b); }, [&] { MV t = m[j]; m[j] = { 0, 0 }; m[i] = t; }); break;
		case 4: if (i != j) { NT* n = nullptr; void* mem = sim::heap_alloc(sizeof(NT)); op("optional(optional)", [&] { n = new(mem) NT((const NT&)b); n->~NT(); }, [&] {}); sim::heap_free(mem); } break;
		case 5: if (i != j) op("optional(moved optional)", [&] { a.~NT(); new(&a) NT(std::move(b)); }, [&] { MV t = m[j]; m[j] = { 0, 0 }; m[i] = t; }); break;
		case 6: op("optional reset", [&] { a.Reset(); }, [&] { m[i] = { 0, 0 }; }); break;
		case 7: if (m[j].type) op(i == j ? "optional = own value" : "optional = value of another", [&] { a = b.Value(); }, [&] { m[i] = m[j]; }); break;
		case 8: { bool eq = LIB(return a == b), lt = LIB(return (a <=> b) < 0); bool we = m[i] == m[j], wl = m[i].type < m[j].type || (m[i].type == m[j].type && m[i].v < m[j].v); SIM_CHECK(eq == we && lt == wl, "wrong-value", "comparing optionals: equal %d, less %d", eq, lt); } break;
		}
	}
	// values that own further optional values of their own type
	struct Link { Elem e; Ptr<Nullable<Link>> next; Ptr<Link> child; Link(int v) : e(v) {} Link(const Link&) = default; Link(Link&&) = default; Link& operator=(const Link& o) { Link t(o); return *this = std::move(t); } Link& operator=(Link&& o) { Link t(std::move(o)); e = std::move(t.e); next = std::move(t.next); child = std::move(t.child); return *this; } };
	struct FLink { const int tag; Elem e; Ptr<Nullable<FLink>> next; Ptr<FLink> child; FLink(int v) : tag(4711), e(v) {} FLink(const FLink&) = default; FLink(FLink&&) = default; };
	template<class T> void chain_op()
	{
		typedef Nullable<T> NT; int n = 1 + (int)sim::choose(4), k = (int)sim::choose(9); NT* h = (NT*)sim::heap_alloc(sizeof(NT)); long before = ledger.alive; sim::log("chain of %d optionals (%s)", n, std::is_copy_assignable_v<T> ? "assignable" : "not assignable"); sim::probe("chain");
		// level i holds k + i, its child k + i + 50, and in `next` level i + 1; the last `next` is an empty optional
		LIB(new(h) NT(); Ptr<NT> tail = Ptr(new NT()); for (int i = n - 1; i >= 0; i--) { T t(k + i); t.next = tail; t.child = Ptr(new T(k + i + 50)); if (i) tail = Ptr(new NT(std::move(t))); else *h = std::move(t); });
		int at = 0; bool child = false;
		auto look = [&](const char* when)
		{
			bool has = LIB(return (bool)*h); bool want = at < n; SIM_CHECK(has == want, "wrong-value", "%s: the optional is %s", when, has ? "not empty" : "empty"); if (!has) return;
			int v = LIB(return val(h->Value().e)), w = k + at + (child ? 50 : 0); SIM_CHECK(v == w, "wrong-value", "%s: the optional holds %d, should hold %d", when, v, w);
			bool nx = LIB(return (bool)h->Value().next); SIM_CHECK(nx == !child, "wrong-value", "%s: the rest of the chain is %s", when, nx ? "there" : "lost");
		};
		look("a new chain");
		for (int step = 0; step < 5 && at < n && !child; step++)
		{
			int how = (int)sim::choose(6), fault = sim::chance(1, 2) ? (int)sim::choose(3) : -1; NT* nx = LIB(return h->Value().next.Obj()); T* ch = LIB(return h->Value().child.Obj()); bool full = LIB(return (bool)*nx); if (how == 2 && !full) how = 0;
			sim::log("step %d, way %d", step, how); elem_copy_fail() = fault; bool threw = false;
			try
			{
				sim::Lib l;
				switch (how)
				{
				case 0: *h = std::move(*nx); break;
				case 1: *h = (const NT&)*nx; break;
				case 2: *h = nx->Value(); break;
				case 3: *h = std::move(*ch); break;
				case 4: *h = (const T&)*ch; break;
				case 5: *h = NT(std::move(*nx)); break;
				}
			}
			catch (const ElemThrow&) { threw = true; }
			bool fired = fault >= 0 && elem_copy_fail() < 0; elem_copy_fail() = -1; SIM_CHECK(threw == fired, "wrong-exception", "%s", threw ? "an exception arrives although nothing failed" : "an exception was swallowed");
			if (!threw) { if (how == 3 || how == 4) child = true; else at++; } else sim::probe("failed_assignment");
			look(threw ? "after a throwing copy" : "after assigning from inside the own value");
		}
		LIB(h->~NT()); sim::heap_free(h); SIM_CHECK(ledger.alive == before, "lifetime", "%ld contained objects of a chain were never destroyed", ledger.alive - before);
	}
	HARNESS int box_id;
	void variant_op()
	{
		int i = sim::choose(N), j = sim::choose(N), k = sim::choose(9); Var& a = s->v[i]; Var& b = s->v[j]; MV* m = mv;
		auto drop = [&](int x) { return m[x]; };
		(void)drop;
		auto moved = [&](int t, int v) { return t <= 1 || t == 4 ? MV{ t, MOVED } : t == 3 ? MV{ 3, 0 } : MV{ t, v }; };
		switch (sim::pick({ 3, 3, 3, 3, 4, 4, 3, 2, 2, 2, 3, 4, 4, 2, 3, 2, 3, 2, 2 }))
		{
		case 0: { Elem t(k); extra = 1; op("variant = value", [&] { a = (const Elem&)t; }, [&] { m[i] = { 0, k }; }); extra = 0; } break;
		case 1: { Wide t(k); extra = 2; op("variant = wide value", [&] { a = (const Wide&)t; }, [&] { m[i] = { 1, k }; }); extra = 0; } break;
		case 2: op("variant = moved value", [&] { if (k & 1) a = Elem(k); else a = Wide(k); }, [&] { m[i] = { k & 1 ? 0 : 1, k }; }); break;
		case 3: op("variant = number", [&] { a = (vint)k; }, [&] { m[i] = { 2, k }; }); break;
		case 4: op(i == j ? "variant = itself" : "variant = variant", [&] { a = (const Var&)b; }, [&] { m[i] = m[j]; }); break;
		case 5: if (i != j) op("variant = moved variant", [&] { a = std::move(b); }, [&] { MV t = m[j]; m[j] = moved(t.type, t.v); m[i] = t; }); break;
		case 6: { void* mem = sim::heap_alloc(sizeof(Var)); op("variant(variant)", [&] { Var* n = new(mem) Var((const Var&)b); n->~Var(); }, [&] {}); sim::heap_free(mem); } break;
		case 7: if (i != j) op("variant(moved variant)", [&] { a.~Var(); new(&a) Var(std::move(b)); }, [&] { MV t = m[j]; m[j] = moved(t.type, t.v); m[i] = t; }); break;
		case 8: op("variant = text", [&] { wchar_t t[3] = { wchar_t(L'A' + k), L'x', 0 }; a = (const wchar_t*)t; }, [&] { m[i] = { 3, k + 200 }; }); break;
		case 9: op("variant = string", [&] { wchar_t t[2] = { wchar_t(L'A' + k), 0 }; WString w(t); a = w; }, [&] { m[i] = { 3, k + 100 }; }); break;
		case 10: { int id = ++box_id * 20; op("variant = shared box", [&] { a = Ptr(new Box(id)); }, [&] { m[i] = { 4, id }; }); } break;
		case 11: // from inside the object the variant owns
			if (m[i].type == 4 && m[i].v != MOVED)
			{
				int id = m[i].v; sim::probe("assigned_from_inside");
				bool others = false; for (int x = 0; x < N; x++) if (x != i && m[x] == m[i]) others = true;
				switch (sim::choose(others ? 3 : 6))
				{
				case 0: op("variant = part of the owned object", [&] { a = (const Elem&)a.Get<Ptr<Box>>()->e; }, [&] { m[i] = { 0, id }; }); break;
				case 1: op("variant = wide part of the owned object", [&] { a = (const Wide&)a.Get<Ptr<Box>>()->w; }, [&] { m[i] = { 1, id + 1 }; }); break;
				case 2: op("variant = variant in the owned object", [&] { a = (const Var&)*a.Get<Ptr<Box>>()->inner; }, [&] { m[i] = { 1, id + 2 }; }); break;
				case 3: op("variant = moved part of the owned object", [&] { a = std::move(a.Get<Ptr<Box>>()->e); }, [&] { m[i] = { 0, id }; }); break;
				case 4: op("variant = moved variant in the owned object", [&] { a = std::move(*a.Get<Ptr<Box>>()->inner); }, [&] { m[i] = { 1, id + 2 }; }); break;
				case 5: op("variant set to part of the owned object", [&] { a.Set(VariantIndex<0>(), (const Elem&)a.Get<Ptr<Box>>()->e); }, [&] { m[i] = { 0, id }; }); break;
				}
			} break;
		case 12: { Elem t(k); Wide w(k); extra = 3; if (k & 1) op("variant set", [&] { a.Set(VariantIndex<0>(), (const Elem&)t); }, [&] { m[i] = { 0, k }; }); else op("variant set wide", [&] { a.Set(VariantIndex<1>(), (const Wide&)w); }, [&] { m[i] = { 1, k }; }); extra = 0; } break;
		case 13: { bool err = false; try { sim::Lib l; if (m[i].type == 0) { if (k == 0) (void)((const Var&)a).Get<Wide>(); else if (k == 1) (void)std::move(a).Get<Wide>(); else (void)a.Get<Wide>(); } else { if (k == 0) (void)((const Var&)a).Get<Elem>(); else if (k == 1) (void)std::move(a).Get<Elem>(); else (void)a.Get<Elem>(); } } catch (const Error&) { err = true; } SIM_CHECK(err, "wrong-value", "a variant yields an alternative it does not hold"); bool p = LIB(return (a.TryGet<Elem>() != nullptr)); SIM_CHECK(p == (m[i].type == 0), "wrong-value", "asking for an alternative yields %d", p); } break;
		case 14: { bool hit = LIB(return a.TryApply([](Wide&) {})); SIM_CHECK(hit == (m[i].type == 1), "wrong-value", "trying a callback yields %d", hit); { int t = (int)sim::choose(4), calls = 0; hit = LIB(return t == 0 ? a.TryApply([&](vint&) { calls++; }) : t == 1 ? a.TryApply([&](WString&) { calls++; }) : t == 2 ? a.TryApply([&](Ptr<Box>&) { calls++; }) : a.TryApply(Overloading([&](Elem&) { calls++; }, [&](vint&) { calls++; }))); bool wh = t == 3 ? m[i].type == 0 || m[i].type == 2 : m[i].type == t + 2; SIM_CHECK(hit == wh && calls == (wh ? 1 : 0), "wrong-value", "trying callbacks yields %d with %d calls", hit, calls); } int w = -1; hit = LIB(return ((const Var&)a).TryApply([&](const Elem& e) { w = val(e); })); SIM_CHECK(hit == (m[i].type == 0) && w == (hit ? m[i].v : -1), "wrong-value", "trying a callback on a read-only variant yields %d", hit); } break;
		case 17: // moving into a variant copies nothing
			{
				Elem t(k); Wide w(k); extra = 3; sim::log("variant(moved value)"); elem_copy_fail() = 0; bool threw = false; try { sim::Lib l; if (k & 1) { Var x(std::move(t)); a = std::move(x); } else if (k & 2) { Var x(std::move(w)); a = std::move(x); } else a = std::move(w); } catch (const ElemThrow&) { threw = true; } elem_copy_fail() = -1;
				SIM_CHECK(!threw, "wrong-exception", "moving a value into a variant copies it"); m[i] = { k & 1 ? 0 : 1, k }; int left = k & 1 ? val(t) : val(w); SIM_CHECK(left == MOVED, "wrong-value", "the source of a move still holds %d", left); verify(); extra = 0;
			} break;
		case 18: // from something that converts to one of the alternatives
			{
				typedef Variant<Elem, WString, Ptr<Box>> CV; int way = (int)sim::choose(4); CV* p = (CV*)sim::heap_alloc(sizeof(CV)); vint at = -1; bool good = false; sim::log("variant from a convertible value, %d", way);
				LIB(new(p) CV(L"abc"); at = p->Index(); good = at == 1 && p->Get<WString>() == L"abc"); SIM_CHECK(good, "wrong-value", "a variant made from a raw text holds alternative %lld", (long long)at);
				LIB(switch (way) { case 0: *p = 12; at = p->Index(); good = at == 0 && val(p->Get<Elem>()) == 12; break; case 1: *p = L"defg"; at = p->Index(); good = at == 1 && p->Get<WString>() == L"defg"; break; case 2: { Ptr<SubBox> b(new SubBox(3)); *p = b; at = p->Index(); good = at == 2 && p->Get<Ptr<Box>>().Obj() == b.Obj(); } break; default: p->~CV(); { Ptr<SubBox> b(new SubBox(4)); new(p) CV(b); at = p->Index(); good = at == 2 && p->Get<Ptr<Box>>().Obj() == b.Obj(); } break; });
				SIM_CHECK(good, "wrong-value", "a convertible value (%d) yields alternative %lld", way, (long long)at); LIB(p->~CV()); sim::heap_free(p); verify();
			} break;
		case 15: op("variant(value)", [&] { Elem t(k); Var x((const Elem&)t); Var y(VariantIndex<1>(), k); Var z{ Wide(k) }; Var u(y); a = (const Var&)z; }, [&] { m[i] = { 1, k }; }); break;
#ifndef SIM_PLAIN
		case 16: // an alternative that can be neither copied nor moved
			{
				typedef Variant<Pinned, Elem> PV; int mode = (int)sim::choose(4); sim::log("variant with a pinned alternative, %d", mode); PV* p = (PV*)sim::heap_alloc(sizeof(PV)); PV* q = (PV*)sim::heap_alloc(sizeof(PV)); int g = -1; vint at = -1; const int MV2 = k + 100;
				LIB(new(p) PV(VariantIndex<0>(), k); g = val(p->Get<Pinned>().e); at = p->Index()); SIM_CHECK(at == 0 && g == k, "wrong-value", "a pinned alternative holds %d", g);
				LIB(if (mode & 1) p->Set(VariantIndex<1>(), MV2); else *p = Elem(MV2); at = p->Index(); g = at == 1 ? val(p->Get<Elem>()) : -1); SIM_CHECK(at == 1 && g == MV2, "wrong-value", "replacing a pinned alternative yields %d:%d", (int)at, g);
				LIB(new(q) PV(std::move(*p)); at = q->Index(); g = at == 1 ? val(q->Get<Elem>()) : -1); SIM_CHECK(at == 1 && g == MV2, "wrong-value", "moving a variant with a pinned alternative yields %d:%d", (int)at, g);
				if (mode & 2) { LIB(*p = std::move(*q); at = p->Index(); g = at == 1 ? val(p->Get<Elem>()) : -1); SIM_CHECK(at == 1 && g == MV2, "wrong-value", "move-assigning a variant with a pinned alternative yields %d:%d", (int)at, g); }
				LIB(q->Set(VariantIndex<0>(), k + 1); at = q->Index(); g = at == 0 ? val(q->Get<Pinned>().e) : -1); SIM_CHECK(at == 0 && g == k + 1, "wrong-value", "setting a pinned alternative yields %d:%d", (int)at, g);
				LIB(p->~PV(); q->~PV()); sim::heap_free(p); sim::heap_free(q); verify();
			} break;
#endif
		}
	}
}
void sim_scenario()
{
	common::reset(); extra = 0; box_id = 0; for (int i = 0; i < N; i++) { me[i] = mf[i] = mw[i] = { 0, 0 }; mv[i] = { 0, 0 }; }
	s = LIB(return sim::make<Slots>()); verify();
	int n = sim::ops(40, 16, [] { switch (sim::pick({ 4, 4, 4, 12, 1, 1 })) { case 4: chain_op<Link>(); break; case 5: chain_op<FLink>(); break; case 0: nullable_op(s->e, me); break; case 1: nullable_op(s->f, mf); break; case 2: nullable_op(s->w, mw); break; case 3: variant_op(); break; } });
	if (n > 2) sim::nontrivial();
	LIB(s->~Slots());
	SIM_CHECK(ledger.alive == 0, "lifetime", "%ld contained objects were never destroyed", ledger.alive);
	sim::check_no_leaks("end of run");
}

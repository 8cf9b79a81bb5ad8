// C23: tuples and pairs: element-wise values through throwing copies, and consistent lexicographic comparison.
#include "common.h"
#include "Source/Primitives/Tuple.h"
#include "Source/Primitives/Nullable.h"
#include "Source/Collections/Pair.h"
#include <math.h>
using namespace vl;
using namespace vl::collections;
using namespace common;
COMMON_STATE
const char* const sim_property = "C23";

namespace
{
	// elements of three kinds; the model of a value is a flat vector of integers (NONE = an empty optional)
	const int NONE = -999999;
	typedef std::vector<int> M;
	typedef Nullable<Elem> O; typedef Pair<Elem, Elem> P; typedef Tuple<Elem, Elem, Elem> T3; typedef Tuple<P, O, Elem> TN; typedef Pair<T3, O> PN; typedef Tuple<Elem, Elem> T2; typedef Tuple<Elem> T1; typedef Tuple<Elem, Elem, O, Elem, P> T5;
	void rd(const Elem& e, M& m) { e.rd(); m.push_back(e.value); }
	void rd(const O& o, M& m) { bool b = LIB(return (bool)o); if (!b) m.push_back(NONE); else { const Elem* e = LIB(return &o.Value()); rd(*e, m); } }
	template<class... A> void rd(const Tuple<A...>& t, M& m);
	template<class A, class B> void rd(const Pair<A, B>& p, M& m) { rd(p.key, m); rd(p.value, m); }
	template<class T, size_t... I> void rdt(const T& t, M& m, std::index_sequence<I...>) { (rd(*LIB(return &t.template get<I>()), m), ...); }
	template<class... A> void rd(const Tuple<A...>& t, M& m) { rdt(t, m, std::make_index_sequence<sizeof...(A)>()); }
	template<class T> M read(const T& t) { M m; rd(t, m); return m; }
	int gv() { return (int)sim::choose(4); }
	void gen(Elem* at) { int v = gv(); LIB(new(at) Elem(v)); }
	template<class T> struct Gen;
	template<> struct Gen<Elem> { static Elem make() { int v = gv(); return LIB(return Elem(v)); } };
	template<> struct Gen<O> { static O make() { int v = gv(); bool b = sim::chance(3, 4); return LIB(return b ? O(Elem(v)) : O()); } };
	template<class A, class B> struct Gen<Pair<A, B>> { static Pair<A, B> make() { A a = Gen<A>::make(); B b = Gen<B>::make(); return LIB(return Pair<A, B>(std::move(a), std::move(b))); } };
	template<> struct Gen<T1> { static T1 make() { int v = gv(); return LIB(return T1(Elem(v))); } };
	template<> struct Gen<T2> { static T2 make() { int a = gv(), b = gv(); return LIB(return T2(Elem(a), Elem(b))); } };
	template<> struct Gen<T3> { static T3 make() { int a = gv(), b = gv(), c = gv(); return LIB(return T3(Elem(a), Elem(b), Elem(c))); } };
	template<> struct Gen<T5> { static T5 make() { int a = gv(), b = gv(), c = gv(); O o = Gen<O>::make(); P p = Gen<P>::make(); return LIB(return T5(Elem(a), Elem(b), std::move(o), Elem(c), std::move(p))); } };
	template<> struct Gen<TN> { static TN make() { P p = Gen<P>::make(); O o = Gen<O>::make(); int v = gv(); return LIB(return TN(std::move(p), std::move(o), Elem(v))); } };

	// runs f; returns whether it threw; checks that it threw exactly when a fault fired
	template<class F> bool guarded(F f)
	{
		bool faulty = sim::chance(1, 2), threw = false; if (faulty) elem_copy_fail() = (long)sim::choose(5);
		try { sim::Lib l; f(); } catch (const ElemThrow&) { threw = true; } bool fired = faulty && elem_copy_fail() < 0; elem_copy_fail() = -1;
		SIM_CHECK(threw == fired, "wrong-exception", "%s", threw ? "an exception arrives although nothing failed" : "an exception was swallowed"); return threw;
	}
	// moving never copies an element
	template<class F> void moving(const char* what, F f) { elem_copy_fail() = 0; bool copied = false; try { sim::Lib l; f(); } catch (const ElemThrow&) { copied = true; } elem_copy_fail() = -1; SIM_CHECK(!copied, "wrong-value", "%s copies an element", what); }
	std::weak_ordering lex(const M& a, const M& b) { return a < b ? std::weak_ordering::less : a == b ? std::weak_ordering::equivalent : std::weak_ordering::greater; }	// NONE is below every value, as an empty optional
	template<class T> void compare(const T& a, const M& ma, const T& b, const M& mb)
	{
		auto c = LIB(return a <=> b); auto r = LIB(return b <=> a); bool eq = LIB(return a == b), ne = LIB(return a != b), lt = LIB(return a < b), gt = LIB(return a > b), le = LIB(return a <= b), ge = LIB(return a >= b); auto w = lex(ma, mb);
		SIM_CHECK((c < 0) == (w < 0) && (c > 0) == (w > 0) && (r < 0) == (w > 0) && (r > 0) == (w < 0), "wrong-comparison", "%s compares with %s as %d", show(ma).c_str(), show(mb).c_str(), c < 0 ? -1 : c > 0);
		SIM_CHECK(eq == (w == 0) && ne == !eq && lt == (w < 0) && gt == (w > 0) && le == (w <= 0) && ge == (w >= 0), "wrong-comparison", "the comparisons of %s and %s contradict each other", show(ma).c_str(), show(mb).c_str());
	}
	template<class T> struct Bank
	{
		static const int N = 3; T* s[N]; M m[N];
		Bank() { for (int i = 0; i < N; i++) { s[i] = (T*)sim::heap_alloc(sizeof(T)); T t = Gen<T>::make(); LIB(new(s[i]) T(std::move(t))); m[i] = read(*s[i]); } }
		void check(const char* what) { for (int i = 0; i < N; i++) { M r = read(*s[i]); SIM_CHECK(r == m[i], "wrong-value", "%s: value %d is %s, should be %s", what, i, show(r).c_str(), show(m[i]).c_str()); } }
		// an assignment that threw: every element is the old or the new one, in order of assignment or not
		void mixed(int d, const M& from, const char* what) { M r = read(*s[d]); SIM_CHECK(r.size() == m[d].size(), "wrong-value", "%s: lost elements", what); for (size_t i = 0; i < r.size(); i++) SIM_CHECK(r[i] == m[d][i] || r[i] == from[i], "wrong-value", "%s: element %zu is neither old nor new", what, i); m[d] = r; }
		void op()
		{
			int a = (int)sim::choose(N), b = (int)sim::choose(N);
			switch (sim::pick({ 3, 4, 2, 4, 3, 4 }))
			{
			case 0: { sim::log("replace by a fresh value"); T t = Gen<T>::make(); M w = read(t); LIB(*s[a] = std::move(t)); m[a] = w; check("fresh value"); } break;
			case 1: // copy construction
				{ sim::log("copy construct %d", a); T* p = (T*)sim::heap_alloc(sizeof(T)); if (!guarded([&] { new(p) T((const T&)*s[a]); })) { M r = read(*p); SIM_CHECK(r == m[a], "wrong-value", "a copy of %s is %s", show(m[a]).c_str(), show(r).c_str()); LIB(p->~T()); } sim::heap_free(p); check("copy construction"); } break;
			case 2: // move out and back
				{ sim::log("move %d out and back", a); T* p = (T*)sim::heap_alloc(sizeof(T)); moving("moving", [&] { new(p) T(std::move(*s[a])); }); M r = read(*p); SIM_CHECK(r == m[a], "wrong-value", "moving %s yields %s", show(m[a]).c_str(), show(r).c_str()); moving("move assignment", [&] { *s[a] = std::move(*p); }); LIB(p->~T()); sim::heap_free(p); check("move"); } break;
			case 3: { sim::log("assign %d = %d", a, b); if (guarded([&] { *s[a] = (const T&)*s[b]; })) mixed(a, m[b], "a throwing assignment"); else m[a] = m[b]; check("assignment"); } break;
			case 4: if (a != b) { sim::log("move assign %d = %d", a, b); moving("move assignment", [&] { *s[a] = std::move(*s[b]); }); m[a] = m[b]; m[b] = read(*s[b]); T t = Gen<T>::make(); LIB(*s[b] = std::move(t)); m[b] = read(*s[b]); check("move assignment"); } break;
			case 5: compare(*s[a], m[a], *s[b], m[b]); break;
			}
		}
		~Bank() { for (auto x : s) { LIB(x->~T()); sim::heap_free(x); } }
	};
	// conversions between element types, reference tuples and structured bindings
	void convert_op()
	{
		int v[3] = { gv(), gv(), gv() };
		switch (sim::choose(10))
		{
		case 0: { sim::log("tuple from a tuple of numbers"); Tuple<int, int, int> t(v[0], v[1], v[2]); T3* p = (T3*)sim::heap_alloc(sizeof(T3)); LIB(new(p) T3((const Tuple<int, int, int>&)t)); M r = read(*p); SIM_CHECK(r == M(v, v + 3), "wrong-value", "converting yields %s", show(r).c_str()); Tuple<int, int, int> u(v[2] + 20, v[0] + 20, v[1] + 20); bool mv = sim::chance(1, 2); LIB(if (mv) *p = std::move(u); else *p = (const Tuple<int, int, int>&)u); r = read(*p); SIM_CHECK(r == (M{ v[2] + 20, v[0] + 20, v[1] + 20 }), "wrong-value", "converting yields %s", show(r).c_str()); LIB(p->~T3()); sim::heap_free(p); } break;
		case 1: // references: bind, read through, rebind
			{
				sim::log("tuple of references"); Elem* e[4]; for (int i = 0; i < 4; i++) { e[i] = (Elem*)sim::heap_alloc(sizeof(Elem)); int x = i < 3 ? v[i] : 9; LIB(new(e[i]) Elem(x)); } typedef Tuple<const Elem&, const Elem&> TR; TR* r = (TR*)sim::heap_alloc(sizeof(TR)); LIB(new(r) TR(*e[0], *e[1]));
				bool ok = LIB(return &r->get<0>() == e[0] && &r->get<1>() == e[1]); SIM_CHECK(ok, "wrong-value", "a tuple of references refers to something else");
				T2* c = (T2*)sim::heap_alloc(sizeof(T2)); if (!guarded([&] { new(c) T2((const TR&)*r); })) { M m = read(*c); SIM_CHECK(m == M(v, v + 2), "wrong-value", "copying what references refer to yields %s", show(m).c_str()); LIB(c->~T2()); } sim::heap_free(c);
				TR* q = (TR*)sim::heap_alloc(sizeof(TR)); LIB(new(q) TR(*e[3], *e[2])); LIB(*q = (const TR&)*r); ok = LIB(return &q->get<0>() == e[0] && &q->get<1>() == e[1]); SIM_CHECK(ok, "wrong-value", "assigning a tuple of references does not rebind it"); if (sim::chance(1, 2)) { typedef Tuple<Elem&, Elem&> TW; bool mv = sim::chance(1, 2); LIB(TW w(*e[2], *e[3]); if (mv) *q = std::move(w); else *q = (const TW&)w); ok = LIB(return &q->get<0>() == e[2] && &q->get<1>() == e[3]); SIM_CHECK(ok, "wrong-value", "assigning a tuple of other references does not rebind it"); LIB(*q = (const TR&)*r); } bool eq = LIB(return *q == *r && !(*q < *r) && !(*r < *q)); SIM_CHECK(eq, "wrong-comparison", "tuples of the same references differ");
				M vals; for (auto x : e) rd(*x, vals); SIM_CHECK(vals == (M{ v[0], v[1], v[2], 9 }), "wrong-value", "assigning a tuple of references changed what they refer to"); LIB(q->~TR(); r->~TR()); sim::heap_free(q); sim::heap_free(r); for (auto x : e) { LIB(x->~Elem()); sim::heap_free(x); }
			} break;
		case 2: { sim::log("pair from a pair of numbers"); Pair<int, int> t(v[0], v[1]); P* p = (P*)sim::heap_alloc(sizeof(P)); LIB(new(p) P((const Pair<int, int>&)t)); M r = read(*p); SIM_CHECK(r == M(v, v + 2), "wrong-value", "converting yields %s", show(r).c_str()); bool b = LIB(auto&& [k, w] = *p; return &k == &p->key && &w == &p->value && &p->get<0>() == &p->key && &p->get<1>() == &p->value); SIM_CHECK(b, "wrong-value", "a structured binding of a pair names something else"); LIB(p->~P()); sim::heap_free(p); const Pair<int, long long> c(v[0], v[1] + (1ll << 40)); bool cb = LIB(auto&& [k, w] = c; return (const void*)&k == &c.key && (const void*)&w == &c.value && k == c.key && w == c.value && c.get<0>() == c.key && c.get<1>() == c.value && (const void*)&c.get<1>() == &c.value); SIM_CHECK(cb, "wrong-value", "a structured binding of a read-only pair names something else"); } break;
		case 3: { sim::log("pair of references"); Elem* e[2]; for (int i = 0; i < 2; i++) { e[i] = (Elem*)sim::heap_alloc(sizeof(Elem)); int x = v[i]; LIB(new(e[i]) Elem(x)); } P* c = (P*)sim::heap_alloc(sizeof(P)); bool mv = sim::chance(1, 2); if (!guarded([&] { Pair<const Elem&, const Elem&> r(*e[0], *e[1]); if (mv) new(c) P(std::move(r)); else new(c) P((const Pair<const Elem&, const Elem&>&)r); })) { M m = read(*c); SIM_CHECK(m == M(v, v + 2), "wrong-value", "copying what references refer to yields %s", show(m).c_str()); LIB(c->~P()); } sim::heap_free(c); M vals; for (auto x : e) { rd(*x, vals); LIB(x->~Elem()); sim::heap_free(x); } SIM_CHECK(vals == M(v, v + 2), "wrong-value", "a pair of read-only references changed what they refer to"); } break;
		case 4: // numbers that cannot be compared
			{
				static const double ds[] = { 0, 1, -1, NAN, INFINITY, -0.0 }; double a[3], b[3]; for (int i = 0; i < 3; i++) { a[i] = ds[sim::choose(6)]; b[i] = sim::chance(1, 2) ? a[i] : ds[sim::choose(6)]; } sim::log("compare (%g,%g,%g) with (%g,%g,%g)", a[0], a[1], a[2], b[0], b[1], b[2]);
				std::partial_ordering w = std::partial_ordering::equivalent; bool we = true; for (int i = 0; i < 3; i++) { if (w == 0) w = a[i] <=> b[i]; we = we && a[i] == b[i]; } typedef Tuple<double, double, double> D; D x(a[0], a[1], a[2]), y(b[0], b[1], b[2]);
				auto c = LIB(return x <=> y); bool e = LIB(return x == y); SIM_CHECK(c == w && e == we, "wrong-comparison", "tuples of numbers compare wrongly");
				w = std::partial_ordering::equivalent; we = true; for (int i = 0; i < 2; i++) { if (w == 0) w = a[i] <=> b[i]; we = we && a[i] == b[i]; } Pair<double, double> p(a[0], a[1]), q(b[0], b[1]); auto d = LIB(return p <=> q); e = LIB(return p == q); SIM_CHECK(d == w && e == we, "wrong-comparison", "pairs of numbers compare wrongly");
				Tuple<double, int> m1(a[0], v[0]), m2(b[0], v[1]); auto f = LIB(return m1 <=> m2); std::partial_ordering g = a[0] <=> b[0]; if (g == 0) g = v[0] <=> v[1]; SIM_CHECK(f == g, "wrong-comparison", "a tuple of a real and an integer compares wrongly"); Nullable<double> o1(a[1]), o2(b[1]); auto h = LIB(return o1 <=> o2); bool oe = LIB(return o1 == o2); SIM_CHECK(h == (a[1] <=> b[1]) && oe == (a[1] == b[1]), "wrong-comparison", "optional numbers compare wrongly");
			} break;
		case 5: { sim::log("tuple binding"); T3* p = (T3*)sim::heap_alloc(sizeof(T3)); LIB(new(p) T3(Elem(v[0]), Elem(v[1]), Elem(v[2]))); LIB(auto&& [a, b, c] = *p; std::swap(a.value, c.value); b.value = 77); M r = read(*p); SIM_CHECK(r == (M{ v[2], 77, v[0] }), "wrong-value", "writing through a structured binding yields %s", show(r).c_str()); LIB(p->~T3()); sim::heap_free(p); } break;
		case 6: // construction from elements one of which throws
			{ sim::log("tuple from elements"); Elem* e[3]; for (int i = 0; i < 3; i++) { e[i] = (Elem*)sim::heap_alloc(sizeof(Elem)); int x = v[i]; LIB(new(e[i]) Elem(x)); } T3* p = (T3*)sim::heap_alloc(sizeof(T3)); if (!guarded([&] { new(p) T3((const Elem&)*e[0], (const Elem&)*e[1], *e[2]); })) { M r = read(*p); SIM_CHECK(r == M(v, v + 3), "wrong-value", "a tuple of elements is %s", show(r).c_str()); LIB(p->~T3()); } sim::heap_free(p); M vals; for (auto x : e) { rd(*x, vals); LIB(x->~Elem()); sim::heap_free(x); } SIM_CHECK(vals == M(v, v + 3), "wrong-value", "building a tuple changed the elements it was given"); } break;
		case 8: { sim::log("move a pair into a pair of optionals"); typedef Pair<O, O> PO; PO* p = (PO*)sim::heap_alloc(sizeof(PO)); P* q = (P*)sim::heap_alloc(sizeof(P)); LIB(new(q) P(Elem(v[0]), Elem(v[1]))); bool mv = sim::chance(1, 2); bool made = true; if (mv) moving("a converting move of a pair", [&] { new(p) PO(std::move(*q)); }); else made = !guarded([&] { new(p) PO((const P&)*q); }); if (made) { M r = read(*p); SIM_CHECK(r == M(v, v + 2), "wrong-value", "converting yields %s", show(r).c_str()); LIB(p->~PO()); } if (!mv) { M r = read(*q); SIM_CHECK(r == M(v, v + 2), "wrong-value", "converting changed the original to %s", show(r).c_str()); } sim::heap_free(p); LIB(q->~P()); sim::heap_free(q); } break;
		case 9: { sim::log("move a tuple into a tuple of optionals"); typedef Tuple<O, Elem, O> TO; TO* p = (TO*)sim::heap_alloc(sizeof(TO)); T3* q = (T3*)sim::heap_alloc(sizeof(T3)); LIB(new(q) T3(Elem(v[0]), Elem(v[1]), Elem(v[2]))); bool mv = sim::chance(1, 2); bool made = true; if (mv) moving("a converting move of a tuple", [&] { new(p) TO(std::move(*q)); }); else made = !guarded([&] { new(p) TO((const T3&)*q); }); if (made) { M r = read(*p); SIM_CHECK(r == M(v, v + 3), "wrong-value", "converting yields %s", show(r).c_str()); if (sim::chance(2, 3)) { int w[3] = { gv(), gv(), gv() }; T3* u = (T3*)sim::heap_alloc(sizeof(T3)); LIB(new(u) T3(Elem(w[0]), Elem(w[1]), Elem(w[2]))); bool am = sim::chance(1, 2), ok = true; if (am) moving("a converting move assignment of a tuple", [&] { *p = std::move(*u); }); else ok = !guarded([&] { *p = (const T3&)*u; }); if (ok) { r = read(*p); SIM_CHECK(r == M(w, w + 3), "wrong-value", "converting yields %s", show(r).c_str()); } if (!am) { r = read(*u); SIM_CHECK(r == M(w, w + 3), "wrong-value", "converting changed the original to %s", show(r).c_str()); } LIB(u->~T3()); sim::heap_free(u); } LIB(p->~TO()); } if (!mv) { M r = read(*q); SIM_CHECK(r == M(v, v + 3), "wrong-value", "converting changed the original to %s", show(r).c_str()); } sim::heap_free(p); LIB(q->~T3()); sim::heap_free(q); } break;
		case 7: { sim::log("tuples of different types"); Tuple<int, int> a(v[0], v[1]); Tuple<int64_t, int64_t> b(v[2], v[0]); auto c = LIB(return a <=> b); bool e = LIB(return a == b); auto w = std::pair<int, int>(v[0], v[1]) <=> std::pair<int, int>(v[2], v[0]); SIM_CHECK(c == w && e == (w == 0), "wrong-comparison", "tuples of different types compare wrongly"); Pair<int, int> p(v[0], v[1]); Pair<int64_t, int64_t> q(v[2], v[0]); auto d = LIB(return p <=> q); e = LIB(return p == q); SIM_CHECK(d == w && e == (w == 0), "wrong-comparison", "pairs of different types compare wrongly"); } break;
		}
	}
}
void sim_scenario()
{
	common::reset(); int n;
	{
		Bank<T3> t3; Bank<TN> tn; Bank<P> p; Bank<PN> pn; Bank<T2> t2; Bank<T5> t5;
		n = sim::ops(24, 10, [&] { switch (sim::pick({ 3, 4, 3, 3, 2, 4, 3 })) { case 6: t5.op(); break; case 0: t3.op(); break; case 1: tn.op(); break; case 2: p.op(); break; case 3: pn.op(); break; case 4: t2.op(); break; case 5: convert_op(); break; } });
	}
	SIM_CHECK(ledger.alive == 0, "lifetime", "%ld elements were never destroyed", ledger.alive);
	if (n > 2) sim::nontrivial();
	sim::check_no_leaks("end of run");
}

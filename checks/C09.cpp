// C09: lazy queries built, enumerated, cloned and restarted in any interleaving, with throwing callbacks and failing allocations.
#include "common.h"
#include "pool.h"
#include "Source/Collections/Dictionary.h"
#include "Source/Collections/Operation.h"
using namespace vl;
using namespace vl::collections;
using namespace common;
COMMON_STATE
const char* const sim_property = "C09";

namespace
{
	typedef LazyList<Elem> Q; typedef IEnumerator<Elem> En; typedef std::vector<int> V;
	struct CallbackThrow {};
	HARNESS long cb_fail_[16]; long& cb_fail() { return cb_fail_[sim::tid()]; }
	HARNESS long cb_calls; HARNESS bool longer;
	void cb(const Elem& e) { sim::Har h; e.rd(); cb_calls++; long& f = cb_fail(); if (f < 0) return; if (f-- == 0) { f = -1; sim::fault("callback_throws"); sim::log("!! callback throws"); throw CallbackThrow(); } }
	// callbacks with captured state whose copies are tracked
	struct Fun { Elem cap; int k; Fun(int _k) : cap(_k), k(_k) {} int c() const { sim::Har h; cap.rd(); return cap.value; } };
	struct Add : Fun { using Fun::Fun; Elem operator()(const Elem& e) const { cb(e); int v = c(); return Elem(e.value + v); } };
	struct Mod : Fun { using Fun::Fun; bool operator()(const Elem& e) const { cb(e); return e.value % 3 != c() % 3; } };
	struct Key : Fun { using Fun::Fun; Elem operator()(const Elem& e) const { cb(e); return Elem(e.value % (c() + 2)); } };
	struct Cmp : Fun { using Fun::Fun; std::strong_ordering operator()(const Elem& a, const Elem& b) const { cb(a); return c() & 1 ? b <=> a : a <=> b; } };
	struct Many : Fun { using Fun::Fun; Q operator()(const Elem& e) const { cb(e); int n = (e.value + c()) % 3, v = e.value; return Range<vint>(0, n).Select([v](vint i) { return Elem(v * 10 + (int)i); }); } };
	struct PairUp { Elem operator()(const Pair<Elem, Elem>& p) const { cb(p.key); return Elem(p.key.value * 10 + p.value.value); } };
	struct GroupUp { Elem operator()(const Pair<Elem, Q>& p) const { cb(p.key); vint n = p.value.Count(); return Elem(p.key.value * 100 + (int)n); } };

	struct Base : Object { Elem e; Base(int v) : e(v) {} }; struct Derived : Base { using Base::Base; };
	struct Sum : Fun { using Fun::Fun; Elem operator()(const Elem& a, const Elem& b) const { cb(b); return Elem((a.value * 3 + b.value + c()) % 10007); } };

	HARNESS long pulls;		// elements asked of a counting source
	struct Pull { Elem operator()(const Elem& e) const { cb(e); { sim::Har h; pulls++; } return e; } };
	// enumerate with a clone taken after `at` elements, which is read at once, and which may finish before or after the original; library mode
	template<class T, class F> void walk(const LazyList<T>& x, int at, bool first, V& orig, V& clone, F f)
	{
		Ptr<IEnumerator<T>> e(x.CreateEnumerator()), c; bool more = true; bool ev = e->Evaluated(); auto next = [&](Ptr<IEnumerator<T>>& y) { long before; { sim::Har h; before = cb_calls; } bool r = y->Next(); sim::Har h; SIM_CHECK(!ev || sim::thread_count() > 1 || cb_calls == before, "wrong-sequence", "an evaluated enumeration computes its next element"); return r; }; for (int i = 0; i < at && more; i++) { more = next(e); if (more) { int v = f(e->Current()); sim::Har h; orig.push_back(v); } }
		{ sim::Har h; clone = orig; } c = Ptr(e->Clone()); if (more && at > 0) { int v = f(c->Current()); sim::Har h; clone.back() = v; }
		for (int k = 0; k < 2; k++) { bool o = (k == 0) == first; auto& w = o ? e : c; while (next(w)) { int v = f(w->Current()); sim::Har h; (o ? orig : clone).push_back(v); } }
	}

	const int NQ = 5;
	struct Slots { List<Elem> l[2]; Array<Elem> a; SortedList<Elem> so; Ptr<List<Elem>> p; Elem raw[4]; Q q[NQ]; };
	HARNESS Slots* s; HARNESS V ml[2], ma, mso, mp, mraw, mq[NQ];
	struct State { En* e; int q; size_t pos; bool broken, ended; };
	struct Own { std::vector<State> es; };

	V distinct(const V& v) { V r; for (int x : v) if (std::find(r.begin(), r.end(), x) == r.end()) r.push_back(x); return r; }
	bool in(const V& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }

	struct Made { std::function<Q()> f; V m; std::string name; };
	Made source()
	{
		switch (sim::pick({ 4, 2, 2, 2, 2, 2, 1, 4 }))
		{
		case 0: { int i = sim::choose(2); return { [=] { return From(s->l[i]); }, ml[i], "list" }; }
		case 1: return { [=] { return From(s->a); }, ma, "array" };
		case 2: return { [=] { return From(s->so); }, mso, "sorted" };
		case 3: return { [=] { return Q(s->p); }, mp, "shared list" };
		case 4: return { [=] { return From(&s->raw[0], &s->raw[4]); }, mraw, "memory" };
		case 5: { int a = sim::choose(5), n = sim::choose(5); V m; for (int i = 0; i < n; i++) m.push_back(a + i); return { [=] { return Range<vint>(a, n).Select([](vint v) { return Elem((int)v); }); }, m, "range" }; }
		case 6: return { [=] { return Q(); }, {}, "empty" };
		default: { int i = sim::choose(NQ); return { [=] { return s->q[i]; }, mq[i], "query" + std::to_string(i) }; }
		}
	}
	int count() { return (int)sim::choose(4) - (sim::chance(1, 5) ? (int)sim::choose(4) : 0) + (sim::chance(1, 20) ? 1000000000 : 0); }
	Made build(int depth)
	{
		Made x = source(); auto f = x.f; V m = x.m; int k = sim::choose(4);
		if (depth > 0 && sim::chance(1, 4)) return x;
		while (true)
		{
			Made y = depth < 1 ? build(depth + 1) : source(); auto g = y.f; V n = y.m; V r; const char* nm = "";
			switch (sim::pick({ 5, 5, 4, 4, 4, 3, 4, 3, 3, 3, 3, 2, 2, 2, 2, 3, 2, 2 }))
			{
			case 0: nm = "select"; for (int v : m) r.push_back(v + k); x.f = [=] { return f().Select(Add(k)); }; break;
			case 1: nm = "where"; for (int v : m) if (v % 3 != k % 3) r.push_back(v); x.f = [=] { return f().Where(Mod(k)); }; break;
			case 2: nm = "concat"; r = m; r.insert(r.end(), n.begin(), n.end()); x.f = [=] { return f().Concat(g()); }; x.name += "+" + y.name; break;
			case 3: nm = "take"; k = count(); r.assign(m.begin(), m.begin() + std::min<size_t>(std::max(k, 0), m.size())); x.f = [=] { return f().Take(k); }; break;
			case 4: nm = "skip"; k = count(); r.assign(m.begin() + std::min<size_t>(std::max(k, 0), m.size()), m.end()); x.f = [=] { return f().Skip(k); }; break;
			case 5: nm = "repeat"; k = count(); if (k > 3) k = 3; for (int i = 0; i < k; i++) r.insert(r.end(), m.begin(), m.end()); x.f = [=] { return f().Repeat(k); }; break;
			case 6: nm = "distinct"; r = distinct(m); x.f = [=] { return f().Distinct(); }; break;
			case 7: nm = "reverse"; r.assign(m.rbegin(), m.rend()); x.f = [=] { return f().Reverse(); }; break;
			case 8: nm = "pairwise"; for (size_t i = 0; i < m.size() && i < n.size(); i++) r.push_back(m[i] * 10 + n[i]); x.f = [=] { return f().Pairwise(g()).Select(PairUp()); }; x.name += "*" + y.name; break;
			case 9: nm = "intersect"; for (int v : distinct(m)) if (in(n, v)) r.push_back(v); x.f = [=] { return f().Intersect(g()); }; x.name += "&" + y.name; break;
			case 10: nm = "except"; for (int v : distinct(m)) if (!in(n, v)) r.push_back(v); x.f = [=] { return f().Except(g()); }; x.name += "-" + y.name; break;
			case 11: nm = "union"; r = m; r.insert(r.end(), n.begin(), n.end()); r = distinct(r); x.f = [=] { return f().Union(g()); }; x.name += "|" + y.name; break;
			case 12: nm = "evaluate"; r = m; x.f = [=] { return f().Evaluate(k & 1); }; break;
			case 13: nm = "orderby self"; r = m; std::sort(r.begin(), r.end()); x.f = [=] { return f().OrderBySelf(); }; break;
			case 14: nm = "orderby"; r = m; std::sort(r.begin(), r.end()); if (k & 1) std::reverse(r.begin(), r.end()); x.f = [=] { return f().OrderBy(Cmp(k)); }; break;
			case 15: nm = "selectmany"; for (int v : m) for (int i = 0; i < (v + k) % 3; i++) r.push_back(v * 10 + i); x.f = [=] { return f().SelectMany(Many(k)); }; break;
			case 16: { nm = "groupby"; V ks; for (int v : m) ks.push_back(v % (k + 2)); for (int g2 : distinct(ks)) r.push_back(g2 * 100 + (int)std::count(ks.begin(), ks.end(), g2)); x.f = [=] { return f().GroupBy(Key(k)).Select(GroupUp()); }; } break;
			case 17: nm = "orderby key"; r = m; std::sort(r.begin(), r.end()); x.f = [=] { return f().OrderByKey([](const Elem& e) { cb(e); return e.value; }); }; break;
			}
			for (int& v : r) v %= 100000;
			if (r.size() > (longer ? 100u : 24u)) return { x.f, r, "" };	// too long: the caller drops it
			x.m = r; x.name = std::string(nm) + "(" + x.name + ")"; break;
		}
		return x;
	}
	struct Faults
	{
		int kind; bool threads;
		Faults(bool _threads, uint32_t w) : threads(_threads)
		{
			kind = (int)sim::pick({ w, 1, 1, 1 }); if (threads && kind == 1) kind = 2; uint64_t n = kind ? sim::choose(12) : 0;
			if (kind == 1) sim::fail_alloc_after(n); else if (kind == 2) cb_fail() = (long)n; else if (kind == 3) elem_copy_fail() = (long)n;
			if (kind) sim::log("(%s may fail)", kind == 1 ? "allocation" : kind == 2 ? "callback" : "element copy");
		}
		bool done() { bool fired = kind == 1 ? sim::clear_alloc_faults() > 0 : kind == 2 ? cb_fail() < 0 : kind == 3 ? elem_copy_fail() < 0 : false; cb_fail() = -1; elem_copy_fail() = -1; return fired; }
	};
	template<class F> bool attempt(Faults& ft, const char* what, F f)
	{
		int got = 0;
		try { sim::Lib l; f(); } catch (const std::bad_alloc&) { got = 1; } catch (const CallbackThrow&) { got = 2; } catch (const ElemThrow&) { got = 3; }
		bool fired = ft.done();
		SIM_CHECK(got == 0 || (fired && got == ft.kind), "wrong-exception", "%s: exception %d arrives, fault %d was injected", what, got, fired ? ft.kind : 0);
		SIM_CHECK(got || !fired || ft.kind == 1, "wrong-exception", "%s: an exception was swallowed", what);
		if (got) sim::probe("failed_operation");
		return got == 0;
	}
	void position(State& t, const char* what)
	{
		vint i = LIB(return t.e->Index()); V& m = mq[t.q];
		if (t.ended) return;
		SIM_CHECK(i == (vint)t.pos - 1, "wrong-position", "%s: position %lld is reported for element %zu of query %d", what, (long long)i, t.pos, t.q);
		if (t.pos > 0) { int v = LIB(auto& c = t.e->Current(); sim::Har h; c.rd(); return int(c.value)); SIM_CHECK(v == m[t.pos - 1], "wrong-sequence", "%s: element %zu of query %d is %d, should be %d", what, t.pos - 1, t.q, v, m[t.pos - 1]); }
	}
	void enum_op(Own& o, bool threads)
	{
		int c = (int)sim::pick({ 4, 14, 3, 2, 3 });
		if (c != 0 && o.es.empty()) c = 0;
		if (c == 0)
		{
			if (o.es.size() > 5) return; int q = sim::choose(NQ); State t{ nullptr, q, 0, false, false }; sim::log("enumerate query %d", q); Faults ft(threads, 10); size_t b = sim::live_blocks(); long a = ledger.alive;
			if (attempt(ft, "enumerate", [&] { t.e = s->q[q].CreateEnumerator(); })) { o.es.push_back(t); position(o.es.back(), "before the start"); }
			else if (!threads) SIM_CHECK(sim::live_blocks() == b && ledger.alive == a, "leak", "a failed start of an enumeration leaks %zu blocks and %ld elements", sim::live_blocks() - b, ledger.alive - a);
			return;
		}
		uint32_t i = sim::choose((uint32_t)o.es.size()); State& t = o.es[i]; V& m = mq[t.q];
		switch (c)
		{
		case 1:
			if (t.broken) { sim::log("restart %u after a failure", i); LIB(t.e->Reset()); t.broken = false; t.ended = false; t.pos = 0; position(t, "after restart"); return; }
			{
				bool r = false; sim::log("advance %u (query %d)", i, t.q); Faults ft(threads, 14); bool ev = LIB(return t.e->Evaluated()); long cbs = cb_calls;
				if (!attempt(ft, "advance", [&] { r = t.e->Next(); })) { t.broken = true; t.ended = true; return; }
				if (ev && !threads) SIM_CHECK(cb_calls == cbs, "wrong-sequence", "an evaluated enumeration of query %d computes its next element", t.q);
				SIM_CHECK(r == (!t.ended && t.pos < m.size()), "wrong-sequence", "query %d %s after %zu of %zu elements", t.q, r ? "continues" : "ends", t.pos, m.size());
				if (r) { t.pos++; position(t, "advance"); } else t.ended = true;
			} break;
		case 2:
			{
				if (o.es.size() > 5 || t.broken) return; State n = t; sim::log("clone %u", i); Faults ft(threads, 8); size_t b = sim::live_blocks(); long a = ledger.alive;
				if (attempt(ft, "clone", [&] { n.e = t.e->Clone(); })) { position(n, "a clone"); o.es.push_back(n); }
				else { if (!threads) SIM_CHECK(sim::live_blocks() == b && ledger.alive == a, "leak", "a failed clone leaks %zu blocks and %ld elements", sim::live_blocks() - b, ledger.alive - a); position(t, "after a failed clone"); }
			} break;
		case 3: sim::log("restart %u", i); LIB(t.e->Reset()); t.pos = 0; t.ended = t.broken = false; position(t, "after restart"); break;
		case 4: sim::log("drop %u", i); LIB(delete t.e); o.es.erase(o.es.begin() + i); break;
		}
	}
	void whole_op(bool threads)
	{
		int q = sim::choose(NQ); V m = mq[q]; int c = (int)sim::choose(19); int q2 = (int)sim::choose(NQ); sim::log("whole query %d, %d", q, c);
		Faults ft(threads, 5); size_t b = sim::live_blocks(); long al = ledger.alive; V got; vint n = -1; std::strong_ordering ord = std::strong_ordering::equal; long seen = 0; bool e = false; bool err = false; int v = 0; int k = 1; bool k2 = sim::chance(1, 2); V got2; long pulled = -1, built = -1; int lazy = (int)sim::choose(12), nl = (int)sim::choose(7), tk = (int)sim::choose(5); if (threads && c == 18) c = 0;
		bool ok = attempt(ft, "whole query", [&]
		{
			Q& x = s->q[q]; auto rec = [&](const Elem& e) { sim::Har h; e.rd(); got.push_back(e.value); };
			switch (c)
			{
			case 0: if (q & 1) { for (auto& y : x) rec(y); } else { auto z = end(x); for (auto it = begin(x); z != it; ++it) { if (it == z || z == it || !(it != z)) break; rec(*it); } } break;
			case 1: if (q & 1) { auto w = indexed(x); auto z = end(w); for (auto it = begin(w); z != it; ++it) { if (it == z || z == it || !(it != z)) break; auto [y, i] = *it; rec(y); sim::Har h; SIM_CHECK(i == (vint)got.size() - 1, "wrong-position", "indexed loop reports %lld", (long long)i); } } else for (auto [y, i] : indexed(x)) { rec(y); sim::Har h; SIM_CHECK(i == (vint)got.size() - 1, "wrong-position", "indexed loop reports %lld", (long long)i); } break;
			case 2: n = x.Count(); break;
			case 3: e = x.IsEmpty(); break;
			case 4: try { Elem y = x.First(); v = y.value; } catch (const Error&) { err = true; } break;
			case 5: try { Elem y = x.Last(); v = y.value; } catch (const Error&) { err = true; } break;
			case 6: e = x.All(Mod(k)); break;
			case 7: e = x.Any(Mod(k)); break;
			case 8: { List<Elem> l; CopyFrom(l, x); for (vint i = 0; i < l.Count(); i++) rec(l[i]); } break;
			case 9: try { Elem y = x.Max(); Elem z = x.Min(); v = y.value; n = z.value; } catch (const Error&) { err = true; } break;
			case 10: try { Elem y = x.Aggregate(Sum(k)); v = y.value; } catch (const Error&) { err = true; } break;
			case 11: { Elem y = x.Aggregate(Elem(5), Sum(k)); v = y.value; } break;
			case 12: { Elem y = x.First(Elem(-5)); Elem z = x.Last(Elem(-6)); v = y.value; n = z.value; } break;
			case 13: ord = CompareEnumerable(x, s->q[q2]); break;
			case 14: // casts of shared pointers: every second one succeeds
				{
					List<Ptr<Base>> l; for (int i = 0; i < 4; i++) { Ptr<Base> b; if (i & 1) b = Ptr(new Derived(i)); else b = Ptr(new Base(i)); l.Add(b); } l.Add(Ptr<Base>());
					auto c = From(l).Cast<Derived>(); auto f = From(l).FindType<Derived>(); for (int r = 0; r < 2; r++) { for (auto& y : c) { sim::Har h; got.push_back(y ? y->e.value : -1); } for (auto& y : f) { sim::Har h; got.push_back(y->e.value); } }
				} break;
			case 16: walk(x.Pairwise(s->q[q2]), tk, k2, got, got2, [](const Pair<Elem, Elem>& p) { sim::Har h; p.key.rd(); p.value.rd(); return p.key.value * 10 + p.value.value; }); break;
			case 17: walk(x.GroupBy(Key(k)), tk, k2, got, got2, [](const Pair<Elem, Q>& p) { vint n = p.value.Count(); return p.key.value * 100 + (int)n; }); break;
			case 18: // elements are computed when they are asked for, and no more of them than that
				{
					List<Elem> l; for (int i = 0; i < nl; i++) l.Add(Elem(i)); { sim::Har h; pulls = 0; } Q p = From(l).Select(Pull()), y;
					switch (lazy)
					{
					case 0: y = p; break; case 1: y = p.Where([](const Elem& e) { return e.value >= 2; }); break; case 2: y = p.Concat(p); break; case 3: y = p.Take(tk); break; case 4: y = p.Skip(tk); break; case 5: y = p.Repeat(2); break; case 6: y = p.Distinct(); break; case 7: y = p.Select(Add(k)); break;
					case 8: y = p.Skip(1).Take(2); break; case 9: y = p.GroupBy(Key(k)).Select(GroupUp()); break; case 10: y = p.Union(p); break; case 11: y = p.Pairwise(p).Select(PairUp()); break;
					}
					{ sim::Har h; built = pulls; }
					if (lazy == 3) { for (auto& z : y) rec(z); } else if (lazy == 0) e = y.IsEmpty(); else if (nl && (lazy == 1 || lazy == 2 || lazy == 4 || lazy == 6 || lazy == 7)) { Elem z = y.First(Elem(-5)); v = z.value; }
					{ sim::Har h; pulled = pulls; }
				} break;
			case 15: // an evaluated query needs neither its source nor its callbacks any more
				{
					Q y; { List<Elem> l; for (int i = 0; i < 4; i++) l.Add(Elem(i)); y = k2 ? From(l).Concat(x).Evaluate(true) : From(l).Select(Add(k)).Concat(x).Evaluate(true); }
					{ sim::Har h; seen = cb_calls; }
					for (int r = 0; r < 2; r++) for (auto& z : y) rec(z);
					{ sim::Har h; seen = cb_calls - seen; }
				} break;
			}
		});
		auto all = [&] { for (int y : m) if (y % 3 == k % 3) return false; return true; }; auto any = [&] { for (int y : m) if (y % 3 != k % 3) return true; return false; };
		if (ok) switch (c)
		{
		case 0: case 1: case 8: SIM_CHECK(got == m, "wrong-sequence", "query %d yields %s, should yield %s", q, show(got).c_str(), show(m).c_str()); break;
		case 2: SIM_CHECK(n == (vint)m.size(), "wrong-sequence", "query %d counts %lld of %zu", q, (long long)n, m.size()); break;
		case 3: SIM_CHECK(e == m.empty(), "wrong-sequence", "query %d empty: %d", q, e); break;
		case 4: SIM_CHECK(m.empty() ? err : !err && v == m[0], "wrong-sequence", "query %d first: %d", q, v); break;
		case 5: SIM_CHECK(m.empty() ? err : !err && v == m.back(), "wrong-sequence", "query %d last: %d", q, v); break;
		case 6: SIM_CHECK(e == all(), "wrong-sequence", "query %d all: %d", q, e); break;
		case 7: SIM_CHECK(e == any(), "wrong-sequence", "query %d any: %d", q, e); break;
		case 10: { int w = m.empty() ? 0 : m[0]; for (size_t i = 1; i < m.size(); i++) w = (w * 3 + m[i] + k) % 10007; SIM_CHECK(m.empty() ? err : !err && v == w, "wrong-sequence", "query %d aggregates to %d, should be %d", q, v, w); } break;
		case 11: { int w = 5; for (int y : m) w = (w * 3 + y + k) % 10007; SIM_CHECK(v == w, "wrong-sequence", "query %d aggregates to %d, should be %d", q, v, w); } break;
		case 12: SIM_CHECK(m.empty() ? v == -5 && n == -6 : v == m[0] && n == m.back(), "wrong-sequence", "query %d first %d last %lld with defaults", q, v, (long long)n); break;
		case 13: SIM_CHECK(ord == (m <=> mq[q2]), "wrong-sequence", "query %d compares wrongly with query %d", q, q2); break;
		case 16: { V w; for (size_t i = 0; i < m.size() && i < mq[q2].size(); i++) w.push_back(m[i] * 10 + mq[q2][i]); SIM_CHECK(got == w && got2 == w, "wrong-sequence", "pairing query %d with query %d yields %s, a clone %s, should yield %s", q, q2, show(got).c_str(), show(got2).c_str(), show(w).c_str()); } break;
		case 17: { V w, ks; for (int y : m) ks.push_back(y % (k + 2)); for (int y : distinct(ks)) w.push_back(y * 100 + (int)std::count(ks.begin(), ks.end(), y)); SIM_CHECK(got == w && got2 == w, "wrong-sequence", "grouping query %d yields %s, a clone %s, should yield %s", q, show(got).c_str(), show(got2).c_str(), show(w).c_str()); } break;
		case 18:
			{
				SIM_CHECK(built == 0, "not-lazy", "building query kind %d computes %ld elements", lazy, built); long need = 0;
				switch (lazy) { case 3: need = std::min(tk, nl); break; case 0: case 2: case 6: case 7: need = nl ? 1 : 0; break; case 1: need = std::min(nl, 3); break; case 4: need = nl ? std::min(nl, tk + 1) : 0; break; }
				SIM_CHECK(pulled <= need, "not-lazy", "query kind %d over %d elements computes %ld elements, needs %ld", lazy, nl, pulled, need);
			} break;
		case 14: SIM_CHECK(got == (V{ -1, 1, -1, 3, -1, 1, 3, -1, 1, -1, 3, -1, 1, 3 }), "wrong-sequence", "casting shared pointers yields %s", show(got).c_str()); break;
		case 15: { V w{ k, 1 + k, 2 + k, 3 + k }; if (k2) w = { 0, 1, 2, 3 }; w.insert(w.end(), m.begin(), m.end()); V z = w; z.insert(z.end(), w.begin(), w.end()); SIM_CHECK(got == z, "wrong-sequence", "the evaluated query %d yields %s twice", q, show(got).c_str()); SIM_CHECK(seen == 0 || threads, "wrong-sequence", "enumerating an evaluated query calls its callbacks again"); } break;
		case 9: SIM_CHECK(m.empty() ? err : !err && v == *std::max_element(m.begin(), m.end()) && n == *std::min_element(m.begin(), m.end()), "wrong-sequence", "query %d max %d min %lld", q, v, (long long)n); break;
		}
		if (!threads) SIM_CHECK(sim::live_blocks() == b && ledger.alive == al, "leak", "a %s use of query %d leaks %zu blocks and %ld elements", ok ? "complete" : "failed", q, sim::live_blocks() - b, ledger.alive - al);
	}
	// the same operators over elements of other types: shared pointers (looked up by raw pointer), texts, numbers of several widths
	using pool::Item;
	template<class T> struct Ty { static T mk(int v) { return (T)v; } static int num(const T& t) { return (int)t; } };
	template<> struct Ty<Ptr<Item>> { static Ptr<Item> mk(int v) { return pool::pointer(v); } static int num(const Ptr<Item>& p) { return pool::number(p); } };
	template<> struct Ty<WString> { static WString mk(int v) { return pool::text(v); } static int num(const WString& p) { return pool::number(p); } };
	void touch_cb() { sim::Har h; long& f = cb_fail(); if (f < 0) return; if (f-- == 0) { f = -1; sim::fault("callback_throws"); sim::log("!! callback throws"); throw CallbackThrow(); } }
	template<class T> void typed(const char* name)
	{
		V a, b, w, got; int na = (int)sim::choose(7), nb = (int)sim::choose(6), k = (int)sim::choose(4), src = (int)sim::choose(4); for (int i = 0; i < na; i++) a.push_back((int)sim::choose(7)); for (int i = 0; i < nb; i++) b.push_back((int)sim::choose(7));
		std::vector<int> ops; int no = 1 + (int)sim::choose(3); for (int i = 0; i < no; i++) ops.push_back((int)sim::choose(15)); std::string chain; if (src == 2) std::sort(a.begin(), a.end()); if (src == 3) while (a.size() < 4) a.push_back((int)sim::choose(7)); if (src == 3) a.resize(4);
		V cur = a;
		for (int& o : ops)
		{
			V r; switch (o)
			{
			case 0: r = distinct(cur); break; case 1: for (int v : distinct(cur)) if (in(b, v)) r.push_back(v); break; case 2: for (int v : distinct(cur)) if (!in(b, v)) r.push_back(v); break; case 3: r = cur; r.insert(r.end(), b.begin(), b.end()); r = distinct(r); break;
			case 4: case 5: case 14: r = cur; std::sort(r.begin(), r.end()); if (o == 5) std::reverse(r.begin(), r.end()); break; case 6: r = cur; r.insert(r.end(), b.begin(), b.end()); break; case 7: r.assign(cur.begin(), cur.begin() + std::min<size_t>(k, cur.size())); break; case 8: r.assign(cur.begin() + std::min<size_t>(k, cur.size()), cur.end()); break;
			case 9: for (int v : cur) if (v % 3 != k % 3) r.push_back(v); break; case 10: r.assign(cur.rbegin(), cur.rend()); break; case 11: { V ks; for (int v : cur) ks.push_back(v % (k + 1)); for (int g : distinct(ks)) for (int v : cur) if (v % (k + 1) == g) r.push_back(v); } break; case 12: for (size_t i = 0; i < cur.size() && i < b.size(); i++) r.push_back(std::max(cur[i], b[i])); break; case 13: for (int v : cur) r.push_back(v + k); break;
			}
			cur = r; chain += " " + std::to_string(o);
		}
		sim::log("operators%s over %s (%s and %s)", chain.c_str(), name, show(a).c_str(), show(b).c_str()); sim::probe("other_element_types"); Faults ft(false, 4); size_t blocks = sim::live_blocks(); long held = pool::held(); int first = -1, last = -1, mx = -1, mn = -1, cnt = -1; bool rest = sim::chance(1, 3), keep = sim::chance(1, 2);
		bool ok = attempt(ft, "typed query", [&]
		{
			LazyList<T> x; List<T> y;
			{
				List<T> l; Array<T> ar; SortedList<T> so; T raw[4]; LazyList<T> z; for (int v : b) y.Add(Ty<T>::mk(v));
				switch (src) { case 0: for (int v : a) l.Add(Ty<T>::mk(v)); z = From(l); break; case 1: ar.Resize((vint)a.size()); for (size_t i = 0; i < a.size(); i++) ar.Set((vint)i, Ty<T>::mk(a[i])); z = From(ar); break; case 2: for (int v : a) so.Add(Ty<T>::mk(v)); z = From(so); break; default: for (int i = 0; i < 4; i++) raw[i] = Ty<T>::mk(a[i]); if (keep) z = From(raw); else z = From((const T*)raw, (const T*)raw + 4); break; }
				for (int o : ops) switch (o)
				{
				case 0: z = z.Distinct(); break; case 1: z = z.Intersect(y); break; case 2: z = z.Except(y); break; case 3: z = z.Union(y); break; case 4: z = z.OrderBySelf(); break; case 5: z = z.OrderBy([](const T& p, const T& q) { touch_cb(); return q <=> p; }); break; case 14: z = z.OrderByKey([](const T& p) { touch_cb(); return (double)Ty<T>::num(p); }); break;
				case 6: z = z.Concat(y); break; case 7: z = z.Take(k); break; case 8: z = z.Skip(k); break; case 9: z = z.Where([k](const T& p) { touch_cb(); return Ty<T>::num(p) % 3 != k % 3; }); break; case 10: z = z.Reverse(); break;
				case 11: z = z.GroupBy([k](const T& p) { touch_cb(); return (vint)Ty<T>::num(p) % (k + 1); }).SelectMany([](const Pair<vint, LazyList<T>>& p) { return p.value; }); break; case 12: z = z.Pairwise(y).Select([](const Pair<T, T>& p) { touch_cb(); return p.key < p.value ? p.value : p.key; }); break; case 13: z = z.Select([k](const T& p) { touch_cb(); return Ty<T>::mk(Ty<T>::num(p) + k); }); break;
				}
				x = z.Evaluate(true);	// what follows must not need the containers any more
				int round = 0; for (auto& e : z) { int v = Ty<T>::num(e); sim::Har h; round++; got.push_back(v); } cnt = (int)z.Count();
				if (rest && round) { first = Ty<T>::num(z.First()); last = Ty<T>::num(z.Last()); mx = Ty<T>::num(z.Max()); mn = Ty<T>::num(z.Min()); }
			}
			for (auto& e : x) { int v = Ty<T>::num(e); sim::Har h; w.push_back(v); }
		});
		if (ok)
		{
			SIM_CHECK(got == cur, "wrong-sequence", "operators%s over %s %s yield %s, should yield %s", chain.c_str(), name, show(a).c_str(), show(got).c_str(), show(cur).c_str()); SIM_CHECK(w == cur && cnt == (int)cur.size(), "wrong-sequence", "the evaluated operators%s over %s yield %s (count %d), should yield %s", chain.c_str(), name, show(w).c_str(), cnt, show(cur).c_str());
			if (rest && cur.size()) SIM_CHECK(first == cur[0] && last == cur.back() && mx == *std::max_element(cur.begin(), cur.end()) && mn == *std::min_element(cur.begin(), cur.end()), "wrong-sequence", "first %d, last %d, max %d, min %d of %s over %s", first, last, mx, mn, show(cur).c_str(), name);
		}
		SIM_CHECK(sim::live_blocks() == blocks && pool::held() == held, "leak", "a %s query over %s leaks %zu blocks and %ld references", ok ? "complete" : "failed", name, sim::live_blocks() - blocks, pool::held() - held);
	}
	void typed_op() { switch (sim::choose(6)) { case 0: case 1: typed<Ptr<Item>>("pointers"); break; case 2: typed<WString>("texts"); break; case 3: typed<vint>("numbers"); break; case 4: typed<vuint8_t>("bytes"); break; case 5: typed<wchar_t>("characters"); break; } }
	void build_op(Own& o)
	{
		int i = sim::choose(NQ); for (auto& t : o.es) if (t.q == i) return;	// enumerations are compared with the query's model
		Made x = build(0); if (x.m.size() > (longer ? 100u : 24u) || x.name.empty()) return;
		sim::log("query %d = %s = %s", i, x.name.c_str(), show(x.m).c_str());
		bool ok = false; { Faults ft(false, 4); size_t b = sim::live_blocks(); long a = ledger.alive; Q* made = nullptr; void* mem = sim::heap_alloc(sizeof(Q));
		ok = attempt(ft, "build", [&] { made = new(mem) Q(x.f()); });
		if (!ok) SIM_CHECK(sim::live_blocks() == b && ledger.alive == a, "leak", "a failed construction of %s leaks %zu blocks and %ld elements", x.name.c_str(), sim::live_blocks() - b, ledger.alive - a);
		if (ok) { LIB(if (sim::chance(1, 2)) s->q[i] = *made; else s->q[i] = std::move(*made)); LIB(made->~Q()); mq[i] = x.m; }
		sim::heap_free(mem); }
	}
	void drop(Own& o) { for (auto& t : o.es) LIB(delete t.e); o.es.clear(); }
}
namespace
{
	// long sequences, each operator against the model, twice
	void long_query()
	{
		bool vast = sim::chance(1, 12); int n = vast ? vast_size() : large_size(), range = sim::chance(1, 3) ? 7 : sim::chance(1, 2) ? 300 : 100000, k = (int)sim::choose(n + 10); Bulk r; V a, b, w; sim::log("%d elements", n); sim::probe("thousands"); typedef LazyList<vint> L;
		for (int i = 0; i < n; i++) a.push_back((int)r(range)); for (int i = (int)r(n); i > 0; i--) b.push_back((int)r(range)); struct Two { List<vint> a, b; L q; }; Two* t = LIB(return sim::make<Two>()); LIB(for (int v : a) t->a.Add(v); for (int v : b) t->b.Add(v));
		std::set<int> sb(b.begin(), b.end()), seen; auto once = [&](const V& v) { seen.clear(); V x; for (int e : v) if (seen.insert(e).second) x.push_back(e); return x; }; const char* nm = "";
		static const int linear[] = { 0, 1, 3, 4, 5, 6, 10, 11, 14 }; const int times = vast ? 2 : 1 + k % 5;
		switch (vast ? linear[sim::choose(9)] : (int)sim::choose(15))
		{
		case 0: nm = "where"; for (int v : a) if (v % 3) w.push_back(v); LIB(t->q = From(t->a).Where([](vint v) { return v % 3 != 0; })); break;
		case 1: nm = "select"; for (int v : a) w.push_back(v + 1); LIB(t->q = From(t->a).Select([](vint v) { return v + 1; })); break;
		case 2: nm = "distinct"; w = once(a); LIB(t->q = From(t->a).Distinct()); break;
		case 3: nm = "reverse"; w.assign(a.rbegin(), a.rend()); LIB(t->q = From(t->a).Reverse()); break;
		case 4: nm = "take"; w.assign(a.begin(), a.begin() + std::min(k, n)); LIB(t->q = From(t->a).Take(k)); break;
		case 5: nm = "skip"; w.assign(a.begin() + std::min(k, n), a.end()); LIB(t->q = From(t->a).Skip(k)); break;
		case 6: nm = "concat"; w = a; w.insert(w.end(), b.begin(), b.end()); LIB(t->q = From(t->a).Concat(t->b)); break;
		case 7: nm = "intersect"; for (int v : a) if (sb.count(v)) w.push_back(v); w = once(w); LIB(t->q = From(t->a).Intersect(t->b)); break;
		case 8: nm = "except"; for (int v : a) if (!sb.count(v)) w.push_back(v); w = once(w); LIB(t->q = From(t->a).Except(t->b)); break;
		case 9: nm = "union"; w = a; w.insert(w.end(), b.begin(), b.end()); w = once(w); LIB(t->q = From(t->a).Union(t->b)); break;
		case 10: nm = "repeat"; for (int i = 0; i < times; i++) w.insert(w.end(), a.begin(), a.end()); LIB(t->q = From(t->a).Repeat(times)); break;
		case 11: nm = "pairwise"; for (size_t i = 0; i < b.size(); i++) w.push_back(a[i] * 3 + b[i]); LIB(t->q = From(t->a).Pairwise(t->b).Select([](Pair<vint, vint> p) { return p.key * 3 + p.value; })); break;
		case 12: nm = "order"; w = a; std::sort(w.begin(), w.end()); LIB(t->q = From(t->a).OrderBySelf()); break;
		case 13: { nm = "groupby"; std::map<int, int> c; V ks; for (int v : a) { if (!c[v % 17]++) ks.push_back(v % 17); } for (int x : ks) w.push_back(x * 100000 + c[x]); LIB(t->q = From(t->a).GroupBy([](vint v) { return v % 17; }).Select([](Pair<vint, LazyList<vint>> p) { return p.key * 100000 + p.value.Count(); })); } break;
		case 14: nm = "evaluate"; w = a; LIB(t->q = From(t->a).Where([](vint) { return true; }).Evaluate(true)); break;
		}
		for (int i = vast ? 1 : 0; i < 2; i++) { V g; Ptr<IEnumerator<vint>> e = LIB(return Ptr(t->q.CreateEnumerator())); while (LIB(return e->Next())) { vint v = LIB(return e->Current()), at = LIB(return e->Index()); SIM_CHECK(at == (vint)g.size(), "wrong-index", "%s of %d elements: element %zu says it is number %lld", nm, n, g.size(), (long long)at); g.push_back((int)v); SIM_CHECK(g.size() <= w.size(), "wrong-sequence", "%s of %d elements yields more than %zu", nm, n, w.size()); if (g.size() == w.size() / 2) LIB(e = Ptr(e->Clone())); } LIB(e = nullptr); SIM_CHECK(g == w, "wrong-sequence", "%s of %d elements yields %zu elements, should yield %zu, or others", nm, n, g.size(), w.size()); }
		{ size_t at = 0; bool ok = true; LIB(for (auto [x, i] : indexed(t->q)) { sim::Har h; ok = ok && i == (vint)at && at < w.size() && x == w[at]; at++; }); SIM_CHECK(ok && at == w.size(), "wrong-index", "a numbered loop over %s of %d elements goes wrong", nm, n); }
		vint c = LIB(return t->q.Count()); SIM_CHECK(c == (vint)w.size(), "wrong-sequence", "%s of %d elements counts %lld", nm, n, (long long)c); if (w.size()) { vint f, l, mx, mi; LIB(f = t->q.First()); LIB(l = t->q.Last()); LIB(mx = t->q.Max()); LIB(mi = t->q.Min()); SIM_CHECK(f == w.front() && l == w.back() && mx == *std::max_element(w.begin(), w.end()) && mi == *std::min_element(w.begin(), w.end()), "wrong-result", "first, last, largest or smallest of %s of %d elements is wrong", nm, n); }
		LIB(sim::unmake(t)); sim::nontrivial(); sim::check_no_leaks("end of run");
	}
}
void sim_scenario()
{
	common::reset(); if (sim::chance(1, 400)) { long_query(); return; } for (long& f : cb_fail_) f = -1;
	pool::fill(); s = LIB(return sim::make<Slots>()); longer = sim::chance(1, 8); auto fill = [](V& m, int n) { if (longer && n > 1) n *= 5; m.clear(); for (int i = 0; i < n; i++) m.push_back(sim::choose(7)); };
	for (int i = 0; i < 2; i++) { fill(ml[i], sim::choose(6)); LIB(for (int v : ml[i]) s->l[i].Add(Elem(v))); }
	fill(ma, sim::choose(5)); LIB(s->a.Resize((vint)ma.size()); for (size_t i = 0; i < ma.size(); i++) s->a[i] = Elem(ma[i]));
	fill(mso, sim::choose(5)); LIB(for (int v : mso) s->so.Add(Elem(v))); std::sort(mso.begin(), mso.end());
	fill(mp, sim::choose(5)); LIB(s->p = Ptr(new List<Elem>); for (int v : mp) s->p->Add(Elem(v)));
	fill(mraw, 1); for (int i = 0; i < 3; i++) mraw.push_back(sim::choose(7)); LIB(for (int i = 0; i < 4; i++) s->raw[i] = Elem(mraw[i]));
	for (auto& m : mq) m.clear();
	Own o; int n = sim::ops(40, 18, [&] { switch (sim::pick({ 8, 16, 4, 1 })) { case 3: typed_op(); break; case 0: build_op(o); break; case 1: enum_op(o, false); break; case 2: whole_op(false); break; } });
	int threads = (int)sim::pick({ 6, 0, 2, 1 });
	if (threads)
	{
		sim::probe("threads");
		for (int t = 0; t < threads; t++) sim::spawn([] { Own w; sim::ops(12, 6, [&] { if (sim::chance(1, 4)) whole_op(true); else enum_op(w, true); }); drop(w); });
		sim::join_all();
	}
	if (n > 2 || threads) sim::nontrivial();
	drop(o); LIB(s->~Slots());
	SIM_CHECK(ledger.alive == 0, "lifetime", "%ld elements were never destroyed", ledger.alive);
	sim::check_no_leaks("end of run");
}

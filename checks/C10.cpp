// C10: several threads only read the same collections, queries and strings.
#include "common.h"
#include "strings.h"
#include "Source/Collections/Dictionary.h"
#include "Source/Collections/Operation.h"
#include "Source/Primitives/Tuple.h"
#include "Source/Primitives/Nullable.h"
#include "Source/Primitives/Variant.h"
#include "Source/Strings/Conversion.h"
using namespace vl;
using namespace vl::collections;
using namespace common;
COMMON_STATE
const char* const sim_property = "C10";

namespace
{
	typedef std::wstring M; typedef std::vector<M> V;
	struct N { Elem e; N(int v) : e(v) {} int get() const { sim::Har h; e.rd(); return e.value; } };
	const int NQ = 3;
	struct Shared { List<WString> l; Array<Ptr<N>> a; SortedList<WString> s; Dictionary<WString, Ptr<N>> d; Group<vint, WString> g; LazyList<WString> q[NQ]; WString w, slice, twin; Ptr<List<WString>> p; Func<bool(WString)> f; Tuple<WString, Ptr<List<WString>>, WString> t; Nullable<WString> n; Variant<vint, WString> v; };
	HARNESS Shared* sh; HARNESS V ml, ms, mq[NQ], mp; HARNESS std::vector<int> ma; HARNESS std::map<M, int> md; HARNESS std::map<int, V> mg; HARNESS M mw, msl; HARNESS bool bulk;

	std::string n(const M& m) { return strs::show<wchar_t>(m); }
	M gen(int max = 4) { return strs::gen_text<wchar_t>(bulk ? max * 5 : max); }
	WString str(const M& m) { return WString::CopyFrom(m.c_str(), (vint)m.size()); }
	M back(const WString& s) { M m; for (vint i = 0; i < s.Length(); i++) m.push_back(s[i]); return m; }
	void same(const M& g, const M& w, const char* what) { SIM_CHECK(g == w, "wrong-contents", "%s yields %s, should yield %s", what, n(g).c_str(), n(w).c_str()); }
	void same(const V& g, const V& w, const char* what) { SIM_CHECK(g.size() == w.size(), "wrong-contents", "%s yields %zu of %zu elements", what, g.size(), w.size()); for (size_t i = 0; i < w.size(); i++) same(g[i], w[i], what); }
	template<class X> V all(const X& x) { V r; for (auto& e : x) { M m = back(e); sim::Har h; r.push_back(m); } return r; }	// library mode

	bool has(const V& v, const M& m) { return std::find(v.begin(), v.end(), m) != v.end(); }
	void read_op()
	{
		int c = (int)sim::choose(35); sim::log("reader op %d", c); M key = ml.size() && sim::chance(1, 2) ? ml[sim::choose((uint32_t)ml.size())] : gen(2);
		switch (c)
		{
		case 0: { V g = LIB(return all(sh->l)); same(g, ml, "list loop"); } break;
		case 1: if (ml.size()) { int i = sim::choose((uint32_t)ml.size()); M g = LIB(WString x = sh->l[i]; return back(x)); same(g, ml[i], "list index"); } break;
		case 2: { vint g = LIB(return sh->l.IndexOf(str(key))); auto it = std::find(ml.begin(), ml.end(), key); SIM_CHECK(g == (it == ml.end() ? -1 : it - ml.begin()), "wrong-contents", "list search yields %lld", (long long)g); } break;
		case 3: { vint g = LIB(return sh->s.IndexOf(str(key))); bool in = std::find(ms.begin(), ms.end(), key) != ms.end(); SIM_CHECK((g >= 0) == in && (!in || ms[g] == key), "wrong-contents", "sorted search yields %lld", (long long)g); } break;
		case 4: { V g = LIB(return all(sh->s)); same(g, ms, "sorted loop"); } break;
		case 5: if (ma.size()) { int i = sim::choose((uint32_t)ma.size()); int g = LIB(Ptr<N> x = sh->a[i]; Ptr<N> y = x; x = nullptr; return y->get()); SIM_CHECK(g == ma[i], "wrong-contents", "shared object reads %d", g); } break;
		case 6: { bool in = md.count(key); vint at = LIB(return sh->d.Keys().IndexOf(str(key))); SIM_CHECK((at >= 0) == in, "wrong-contents", "dictionary search yields %lld", (long long)at); if (in) { int g = LIB(return sh->d[str(key)]->get()); SIM_CHECK(g == md[key], "wrong-contents", "dictionary value reads %d", g); } } break;
		case 7: { std::vector<std::pair<M, int>> g; LIB(for (auto& [k, v] : sh->d) { M m = back(k); int x = v->get(); sim::Har h; g.push_back({ m, x }); }); SIM_CHECK(g.size() == md.size() && std::equal(g.begin(), g.end(), md.begin(), [](auto& a, auto& b) { return a.first == b.first && a.second == b.second; }), "wrong-contents", "dictionary loop is wrong"); } break;
		case 8: { V g; LIB(for (auto p : sh->g) { M m = back(p.value); sim::Har h; g.push_back(m); }); V w; for (auto& x : mg) for (auto& y : x.second) w.push_back(y); same(g, w, "group loop"); } break;
		case 9: { vint k = sim::choose(3); bool in = LIB(return sh->g.Contains(k)); SIM_CHECK(in == (mg.count(k) > 0), "wrong-contents", "group search"); if (in) { V g = LIB(return all(sh->g[k])); same(g, mg[k], "group values"); } } break;
		case 10: { int i = sim::choose(NQ); V g = LIB(return all(sh->q[i])); same(g, mq[i], "query loop"); } break;
		case 11: { int i = sim::choose(NQ); vint g = LIB(return sh->q[i].Count()); SIM_CHECK(g == (vint)mq[i].size(), "wrong-contents", "query count %lld", (long long)g); } break;
		case 12: { int i = sim::choose(NQ); V g = LIB(auto x = sh->q[i].Where([](const WString& s) { return s.Length() != 1; }).Reverse().Evaluate(); return all(x)); V w; for (auto& m : mq[i]) if (m.size() != 1) w.push_back(m); std::reverse(w.begin(), w.end()); same(g, w, "query on a query"); } break;
		case 13: { int i = sim::choose(NQ); V g = LIB(LazyList<WString> x = sh->q[i]; LazyList<WString> y; y = x; List<WString> l; CopyFrom(l, y); return all(l)); same(g, mq[i], "copy of a query"); } break;
		case 14: { V g = LIB(return all(From(sh->l).Concat(sh->s).Distinct())); V w; for (auto* v : { &ml, &ms }) for (auto& m : *v) if (std::find(w.begin(), w.end(), m) == w.end()) w.push_back(m); same(g, w, "query over two collections"); } break;
		case 15: { M g = LIB(WString x = sh->w; return back(x)); same(g, mw, "string copy"); g = LIB(return M(sh->w.Buffer())); same(g, mw.c_str(), "string buffer"); } break;
		case 16: { vint a = sim::choose((uint32_t)mw.size() + 1), k = sim::choose((uint32_t)(mw.size() - a) + 1); M g = LIB(WString x = sh->w.Sub(a, k); return back(x)); same(g, mw.substr(a, k), "slice"); } break;
		case 17: { M g = LIB(WString x = sh->slice + sh->w; return back(x)); same(g, msl + mw, "concatenation"); g = LIB(WString x = sh->slice; return M(x.Buffer())); same(g, msl, "buffer of an own copy of a slice"); } break;
		case 18: { bool e = LIB(return sh->w == sh->slice), l = LIB(return sh->w < sh->slice); SIM_CHECK(e == (mw == msl) && l == (mw < msl), "wrong-contents", "comparison of shared strings: %d %d", e, l); e = LIB(return sh->w == sh->twin && (sh->twin <=> sh->w) == 0); SIM_CHECK(e, "wrong-contents", "equal shared strings are not equal"); { M g = LIB(return M(sh->twin.Buffer())); same(g, mw.c_str(), "buffer of an equal string"); } wchar_t ch = L'a' + sim::choose(3); vint g = LIB(return sh->slice.IndexOf(ch)); size_t w = msl.find(ch); SIM_CHECK(g == (w == M::npos ? -1 : (vint)w), "wrong-contents", "search in a shared string: %lld", (long long)g); } break;
		case 19: { V g = LIB(LazyList<WString> x = sh->p; return all(x)); same(g, mp, "shared list"); } break;
		case 20: { bool g = LIB(return sh->f(sh->w)), w = mw.size() % 2; SIM_CHECK(g == w, "wrong-contents", "shared callable yields %d", g); } break;
		case 22: { V g = LIB(return all(From(sh->l).OrderBySelf())); same(g, ms, "ordered query"); } break;
		case 23: { int i = sim::choose(NQ); M g = LIB(WString x = sh->q[i].First(sh->w); WString y = sh->q[i].Last(sh->slice); return back(x) + L"|" + back(y)); same(g, (mq[i].size() ? mq[i].front() : mw) + L"|" + (mq[i].size() ? mq[i].back() : msl), "first and last"); } break;
		case 24: { std::map<int, V> g; LIB(for (vint i = 0; i < sh->g.Count(); i++) { vint k = sh->g.Keys()[i]; V v = all(sh->g.GetByIndex(i)); sim::Har h; g[(int)k] = v; }); SIM_CHECK(g == mg, "wrong-contents", "the group read by number is wrong"); bool in = LIB(return sh->g.Contains(1, str(key))), w = mg.count(1) && std::find(mg[1].begin(), mg[1].end(), key) != mg[1].end(); SIM_CHECK(in == w, "wrong-contents", "a group says it holds a value: %d", in); } break;
		case 25: { V g; bool ok = true; LIB(for (auto [x, i] : indexed(sh->l)) { M m = back(x); sim::Har h; ok = ok && i == (vint)g.size(); g.push_back(m); }); same(g, ml, "indexed loop"); SIM_CHECK(ok, "wrong-contents", "positions in an indexed loop are wrong"); } break;
		case 26: { M g = LIB(return back(From(sh->l).Aggregate(WString(), [](const WString& a, const WString& b) { return a + b; }))); M w; for (auto& m : ml) w += m; same(g, w, "aggregate"); if (ml.size()) { g = LIB(return back(From(sh->l).Max())); same(g, *std::max_element(ml.begin(), ml.end()), "largest"); } } break;
		case 27: { wchar_t ch = L"abcxyz"[sim::choose(6)]; vint g = LIB(return sh->w.IndexOf(ch)); size_t w = mw.find(ch); SIM_CHECK(g == (w == M::npos ? -1 : (vint)w), "wrong-contents", "searching a shared string yields %lld", (long long)g); g = LIB(return sh->slice.IndexOf(ch)); w = msl.find(ch); SIM_CHECK(g == (w == M::npos ? -1 : (vint)w), "wrong-contents", "searching a shared slice yields %lld", (long long)g); } break;
		case 28: if (ma.size()) { int i = sim::choose((uint32_t)ma.size()); vint g = LIB(return sh->a.IndexOf(sh->a[i].Obj())); int w = 0; while (ma[w] != ma[i]) w++; SIM_CHECK(g == w, "wrong-contents", "searching for a shared object yields %lld, should yield %d", (long long)g, w); } break;
		case 29: { int i = sim::choose(NQ); V g = LIB(Ptr<IEnumerator<WString>> e(sh->q[i].CreateEnumerator()); V r; for (int k = 0; k < 2 && e->Next(); k++) { M m = back(e->Current()); sim::Har h; r.push_back(m); } Ptr<IEnumerator<WString>> c(e->Clone()); e = nullptr; while (c->Next()) { M m = back(c->Current()); sim::Har h; r.push_back(m); } return r); if (mq[i].size() >= 2 || g.size() == mq[i].size()) same(g, mq[i], "continued clone"); } break;
		case 30: { V g = LIB(return all(From(sh->l).Intersect(sh->q[0]))), w; for (auto& m : ml) if (std::find(mq[0].begin(), mq[0].end(), m) != mq[0].end() && std::find(w.begin(), w.end(), m) == w.end()) w.push_back(m); same(g, w, "intersection"); } break;
		case 31: { int i = sim::choose(NQ), j = sim::choose(NQ); auto c = LIB(return CompareEnumerable(sh->q[i], sh->q[j])); SIM_CHECK((c < 0) == (mq[i] < mq[j]) && (c > 0) == (mq[i] > mq[j]), "wrong-contents", "comparing two shared queries is wrong"); c = LIB(return CompareEnumerable(sh->l, sh->s)); SIM_CHECK((c < 0) == (ml < ms) && (c > 0) == (ml > ms), "wrong-contents", "comparing two shared collections is wrong"); } break;
		case 32: { M g = LIB(const WString& w = sh->w; WString x = w.Left(w.Length() / 2) + w.Right(w.Length() - w.Length() / 2); WString own = sh->slice; AString y = wtoa(own); x += atow(y); x = x.Insert(0, sh->slice); return back(x)); bool ascii = true; for (auto c : msl) ascii = ascii && c > 0 && c < 128; if (ascii) same(g, msl + mw + msl, "a string made of shared strings"); } break;
		case 33: { int i = sim::choose(NQ); bool any = LIB(return sh->q[i].Any([](const WString& s) { return s == sh->slice; })), none = LIB(return sh->q[i].IsEmpty()); SIM_CHECK(any == has(mq[i], msl) && none == mq[i].empty(), "wrong-contents", "any / empty of a shared query: %d %d", any, none); } break;
		case 34: { int g = LIB(Tuple<WString, Ptr<List<WString>>, WString> t = sh->t; auto [a, b, c] = t; return (a == sh->w && c == sh->slice && (vint)b->Count() == sh->p->Count() && sh->t == t) + (sh->n && sh->n.Value() == sh->w ? 2 : 0) + (sh->v.TryGet<WString>() && sh->v.Get<WString>() == sh->slice ? 4 : 0)); SIM_CHECK(g == 7, "wrong-contents", "reading a shared tuple, optional and variant yields %d", g); LIB(Nullable<WString> x = sh->n; Variant<vint, WString> y = sh->v; y = 3; x = sh->n; y = sh->v; SIM_CHECK(back(x.Value()) == mw && back(y.Get<WString>()) == msl, "wrong-contents", "copies of a shared optional or variant are wrong")); } break;
		case 21: { vint g = LIB(Dictionary<WString, Ptr<N>> d; CopyFrom(d, sh->d); List<Ptr<N>> x; CopyFrom(x, sh->a); x.RemoveRange(0, x.Count() / 2); return d.Count() + x.Count()); SIM_CHECK(g == (vint)(md.size() + ma.size() - ma.size() / 2), "wrong-contents", "copies hold %lld", (long long)g); } break;
		}
	}
	void verify_alone()
	{
		V g = LIB(return all(sh->l)); same(g, ml, "list afterwards"); g = LIB(return all(sh->s)); same(g, ms, "sorted afterwards");
		for (int i = 0; i < NQ; i++) { g = LIB(return all(sh->q[i])); same(g, mq[i], "query afterwards"); }
		M m = LIB(return back(sh->w)); same(m, mw, "string afterwards"); m = LIB(return back(sh->slice)); same(m, msl, "slice afterwards");
	}
}
void sim_scenario()
{
	common::reset(); bulk = sim::chance(1, 6); if (bulk) sim::probe("bulk"); sh = LIB(return sim::make<Shared>()); ml.clear(); ms.clear(); mp.clear(); ma.clear(); md.clear(); mg.clear(); for (auto& q : mq) q.clear();
	mw = gen(9); LIB(sh->w = str(mw); sh->twin = str(mw)); { size_t a = sim::choose((uint32_t)mw.size() + 1), k = sim::choose((uint32_t)(mw.size() - a) + 1); msl = mw.substr(a, k); LIB(sh->slice = sh->w.Sub(a, k)); }
	int nn = sim::choose(bulk ? 40 : 5);
	// elements share storage with each other and with the shared string
	for (int i = 0; i < nn; i++) { M m = sim::chance(1, 3) ? msl : gen(2); bool sl = m == msl; ml.push_back(m); LIB(WString x = sl ? sh->slice : str(m); sh->l.Add(x)); ms.push_back(m); LIB(sh->s.Add(sh->l[i])); }
	std::sort(ms.begin(), ms.end());
	LIB(sh->p = Ptr(new List<WString>)); for (auto& m : ml) { mp.push_back(m); } LIB(CopyFrom(*sh->p.Obj(), sh->l));
	int na = sim::choose(bulk ? 24 : 4); LIB(sh->a.Resize(na)); for (int i = 0; i < na; i++) { if (i && sim::chance(1, 2)) { ma.push_back(ma[i - 1]); LIB(sh->a[i] = sh->a[i - 1]); } else { ma.push_back(i * 10); LIB(sh->a[i] = Ptr(new N(i * 10))); } }
	for (int i = 0; i < nn; i++) { int v = na ? ma[i % na] : i; md[ml[i]] = v; LIB(sh->d.Set(sh->l[i], na ? sh->a[i % na] : Ptr(new N(v)))); int k = sim::choose(3); mg[k].push_back(ml[i]); LIB(sh->g.Add(k, sh->l[i])); }
	LIB(sh->t = Tuple<WString, Ptr<List<WString>>, WString>(sh->w, sh->p, sh->slice); sh->n = sh->w; sh->v = sh->slice);
	LIB(WString w = sh->w; sh->f = [w](WString x) { return x.Length() % 2 == 1 && w == x; });
	for (int i = 0; i < NQ; i++)
	{
		int k = sim::choose(3);
		switch (sim::choose(22))
		{
		case 0: for (auto& m : ml) if (m != msl) mq[i].push_back(m); LIB(WString cut = sh->slice; sh->q[i] = From(sh->l).Where([cut](const WString& s) { return s != cut; })); break;
		case 1: for (auto& m : ml) mq[i].push_back(m + msl); LIB(WString add = sh->slice; sh->q[i] = From(sh->l).Select([add](const WString& s) { return s + add; })); break;
		case 2: mq[i] = ms; mq[i].insert(mq[i].end(), ml.begin(), ml.end()); LIB(sh->q[i] = From(sh->s).Concat(sh->l)); break;
		case 3: for (int r = 0; r < k; r++) mq[i].insert(mq[i].end(), mp.begin(), mp.end()); LIB(sh->q[i] = LazyList<WString>(sh->p).Repeat(k)); break;
		case 4: for (auto& m : ms) if (mq[i].empty() || mq[i].back() != m) mq[i].push_back(m); LIB(sh->q[i] = From(sh->s).Distinct()); break;
		case 5: mq[i].assign(ml.begin() + std::min<size_t>(k, ml.size()), ml.end()); LIB(sh->q[i] = From(sh->l).Skip(k)); break;
		case 6: mq[i].assign(ml.begin(), ml.begin() + std::min<size_t>(k + 1, ml.size())); LIB(sh->q[i] = From(sh->l).Take(k + 1)); break;
		case 7: for (auto* v : { &ms, &mp }) for (auto& m : *v) if (!has(mq[i], m)) mq[i].push_back(m); LIB(sh->q[i] = From(sh->s).Union(*sh->p.Obj())); break;
		case 8: for (auto& m : ml) if (mg.count(k) && has(mg[k], m) && !has(mq[i], m)) mq[i].push_back(m); LIB(if (sh->g.Contains(k)) sh->q[i] = From(sh->l).Intersect(sh->g[k]); else sh->q[i] = From(sh->l).Take(0)); break;
		case 9: for (auto& m : ml) if (!(mg.count(k) && has(mg[k], m)) && !has(mq[i], m)) mq[i].push_back(m); LIB(if (sh->g.Contains(k)) sh->q[i] = From(sh->l).Except(sh->g[k]); else sh->q[i] = From(sh->l).Distinct()); break;
		case 10: mq[i].assign(ml.rbegin(), ml.rend()); LIB(sh->q[i] = From(sh->l).Reverse()); break;
		case 11: mq[i] = ml; LIB(sh->q[i] = From(sh->l).Evaluate(k == 1)); break;
		case 12: for (auto& m : ml) { mq[i].push_back(m); mq[i].push_back(msl); } LIB(WString add = sh->slice; sh->q[i] = From(sh->l).SelectMany([add](const WString& s) { List<WString> r; r.Add(s); r.Add(add); return LazyList<WString>(From(r).Evaluate(true)); })); break;
		case 13: mq[i] = ml; std::stable_sort(mq[i].begin(), mq[i].end(), std::greater<M>()); LIB(sh->q[i] = From(sh->l).OrderBy([](const WString& a, const WString& b) { return b <=> a; })); break;
		case 14: { std::vector<size_t> ks; for (auto& m : ml) { if (std::find(ks.begin(), ks.end(), m.size()) == ks.end()) ks.push_back(m.size()); } for (size_t z : ks) for (auto& m : ml) if (m.size() == z) mq[i].push_back(m); LIB(sh->q[i] = From(sh->l).GroupBy([](const WString& s) { return s.Length(); }).SelectMany([](const Pair<vint, LazyList<WString>>& x) { return x.value; })); } break;
		case 15: for (size_t j = 0; j < ml.size(); j++) mq[i].push_back(ml[j] + ms[j]); LIB(sh->q[i] = From(sh->l).Pairwise(sh->s).Select([](const Pair<WString, WString>& x) { return x.key + x.value; })); break;
		case 16: for (auto& x : md) mq[i].push_back(x.first); LIB(sh->q[i] = From(sh->d).Select([](const Pair<WString, Ptr<N>>& x) { return x.key; })); break;
		case 17: for (auto& x : mg) for (auto& y : x.second) mq[i].push_back(y); LIB(sh->q[i] = From(sh->g).Select([](const Pair<vint, WString>& x) { return x.value; })); break;
		case 18: mq[i] = ml; LIB(if (sh->l.Count()) sh->q[i] = From(&sh->l[0], &sh->l[0] + sh->l.Count()); else sh->q[i] = From(sh->l)); break;
		case 19: if (i) { mq[i] = mq[i - 1]; mq[i].insert(mq[i].end(), mq[i - 1].begin(), mq[i - 1].end()); LIB(sh->q[i] = sh->q[i - 1].Concat(sh->q[i - 1])); } break;
		case 20: if (i) { mq[i].assign(mq[i - 1].begin() + std::min<size_t>(k, mq[i - 1].size()), mq[i - 1].end()); LIB(sh->q[i] = sh->q[i - 1].Skip(k).Take(100000)); } break;
		case 21: for (auto& m : ms) if (m.size() <= 2) { M b = m; for (auto& c : b) if (c >= L'a' && c <= L'z') c -= 32; mq[i].push_back(b); } LIB(sh->q[i] = From(sh->s).Where([](const WString& s) { return s.Length() <= 2; }).Select([](const WString& s) { WString own = s; return wupper(own); })); break;
		}
	}
	int threads = 1 + (int)sim::pick({ 1, 5, 3 }); sim::nontrivial();
	for (int t = 0; t < threads; t++) sim::spawn([] { sim::ops(10, 5, [] { read_op(); }); });
	if (sim::chance(1, 3)) sim::ops(4, 2, [] { read_op(); });
	sim::join_all();
	verify_alone();
	LIB(sh->~Shared());
	SIM_CHECK(ledger.alive == 0, "lifetime", "%ld shared objects were never destroyed", ledger.alive);
	sim::check_no_leaks("end of run");
}

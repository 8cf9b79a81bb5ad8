// C24: copying between containers of every kind, with failing sources, element copies and allocations.
#include "common.h"
#include "Source/Collections/List.h"
#include "Source/Collections/Dictionary.h"
#include "Source/Collections/Operation.h"
#include "Source/Collections/OperationString.h"
using namespace vl;
using namespace vl::collections;
using namespace common;
COMMON_STATE
const char* const sim_property = "C24";

namespace
{
	typedef std::vector<int> V; struct SourceThrow {};
	HARNESS long src_fail; HARNESS long src_reads;
	typedef Dictionary<vint, Elem> D; typedef Group<vint, Elem> G; typedef Pair<vint, Elem> PE;
	struct Slots { Array<Elem> a[2]; List<Elem> l[2]; SortedList<Elem> so[2]; WString s[2]; Array<wchar_t> ca; List<wchar_t> cl; D d[2]; G g[2]; List<PE> pl; Elem raw[5]; wchar_t rawc[5]; Array<vint> ia; List<vint> il; SortedList<vint> is; vint rawi[40]; };
	HARNESS Slots* k; HARNESS bool bulk, huge; HARNESS V ma[2], ml[2], mso[2], ms[2], mca, mcl, mraw, mia, mil, mis; HARNESS std::vector<std::pair<int, int>> mpl; HARNESS std::map<int, int> md[2]; HARNESS std::map<int, V> mg[2];

	int val(const Elem& e) { sim::Har h; e.rd(); return e.value; } int val(wchar_t c) { return (int)c; } int val(vint c) { return (int)c; }
	template<class C> V read(const C& c) { vint n = LIB(return c.Count()); V v; for (vint i = 0; i < n; i++) { int x = LIB(return val(c.Get(i))); v.push_back(x); } return v; }
	V read(const WString& s) { vint n = LIB(return s.Length()); V v; for (vint i = 0; i < n; i++) { wchar_t x = LIB(return s[i]); v.push_back((int)x); } return v; }
	std::map<int, int> read(const D& d) { std::map<int, int> m; vint n = LIB(return d.Count()); for (vint i = 0; i < n; i++) { int a = LIB(return (int)d.Keys()[i]), b = LIB(return val(d.Values()[i])); m[a] = b; } SIM_CHECK((vint)m.size() == n, "wrong-copy", "a dictionary holds a key twice"); return m; }
	std::map<int, V> read(const G& g) { std::map<int, V> m; vint n = LIB(return g.Count()); for (vint i = 0; i < n; i++) { int a = LIB(return (int)g.Keys()[i]); vint c = LIB(return g.GetByIndex(i).Count()); SIM_CHECK(c > 0, "wrong-copy", "a group holds a key without a value"); for (vint j = 0; j < c; j++) { int b = LIB(return val(g.GetByIndex(i)[j])); m[a].push_back(b); } } return m; }
	void verify(const char* what)
	{
		auto cmp = [&](const V& got, const V& want, const char* who) { SIM_CHECK(got == want, "wrong-copy", "%s: the %s holds %s, should hold %s", what, who, show(got).c_str(), show(want).c_str()); };
		for (int i = 0; i < 2; i++) { cmp(read(k->a[i]), ma[i], "array"); cmp(read(k->l[i]), ml[i], "list"); cmp(read(k->so[i]), mso[i], "sorted list"); cmp(read(k->s[i]), ms[i], "string"); SIM_CHECK(read(k->d[i]) == md[i], "wrong-copy", "%s: a dictionary is wrong", what); SIM_CHECK(read(k->g[i]) == mg[i], "wrong-copy", "%s: a group is wrong", what); }
		cmp(read(k->ia), mia, "number array"); cmp(read(k->il), mil, "number list"); cmp(read(k->is), mis, "sorted number list"); cmp(read(k->ca), mca, "character array"); cmp(read(k->cl), mcl, "character list");
	}
	template<class T> struct Pass { T operator()(const T& e) const { { sim::Har h; src_reads++; if (src_fail >= 0 && src_fail-- == 0) { src_fail = -2; sim::fault("source_throws"); throw SourceThrow(); } } return e; } };
	// one copy: run, judge the exception, then judge the target
	HARNESS bool dflt;	// rely on the default, which is to replace
	template<class X, class... A> void CF(X& d, bool ap, A&&... a) { if (ap) CopyFrom(d, a..., true); else if (dflt) CopyFrom(d, a...); else CopyFrom(d, a..., false); }
	template<class F, class J> void copy(const char* what, F run, J judge)
	{
		int fault = (int)sim::pick({ 6, 2, 2, 2 }); uint64_t n = fault ? sim::choose(bulk ? 60 : 10) : 0; int threw = 0; bool fired = false; sim::log("%s%s", what, fault == 1 ? " (memory may run out)" : fault == 2 ? " (the source may throw)" : fault == 3 ? " (copies may throw)" : ""); src_fail = -1; dflt = sim::chance(1, 2);
		if (fault == 1) sim::fail_alloc_after(n); if (fault == 2) src_fail = (long)n; if (fault == 3) elem_copy_fail() = (long)n;
		try { sim::Lib l; run(); } catch (const std::bad_alloc&) { threw = 1; } catch (const SourceThrow&) { threw = 2; } catch (const ElemThrow&) { threw = 3; }
		if (fault == 1) fired = sim::clear_alloc_faults() > 0; if (fault == 2) fired = src_fail == -2; if (fault == 3) fired = elem_copy_fail() < 0; src_fail = -1; elem_copy_fail() = -1;
		SIM_CHECK(threw == 0 ? !fired : fired && threw == fault, "wrong-exception", "%s: %s", what, threw ? "an exception arrives although nothing of the kind failed" : "an exception was swallowed");
		judge(threw != 0); verify(what);
	}
	// what a sequence target may hold after a failure; places of an array are old, new or blank
	void list_judge(V& m, const V& got, const V& src, bool append, bool failed, const char* what)
	{
		V base = append ? m : V(); V full = base; full.insert(full.end(), src.begin(), src.end()); if (!failed) { m = full; return; }
		bool ok = got == m; for (size_t i = 0; i <= src.size() && !ok; i++) ok = got == V(full.begin(), full.begin() + base.size() + i); SIM_CHECK(ok, "wrong-copy", "%s: after a failure the target holds %s", what, show(got).c_str()); m = got;
	}
	void sorted_judge(V& m, const V& got, const V& src, bool append, bool failed, const char* what)
	{
		V base = append ? m : V(); V full = base; full.insert(full.end(), src.begin(), src.end()); if (!failed) { m = full; std::sort(m.begin(), m.end()); return; }
		bool ok = got == m; for (size_t i = 0; i <= src.size() && !ok; i++) { V f(full.begin(), full.begin() + base.size() + i); std::sort(f.begin(), f.end()); ok = got == f; } SIM_CHECK(ok, "wrong-copy", "%s: after a failure the target holds %s", what, show(got).c_str()); m = got;
	}
	void array_judge(V& m, const V& got, const V& src, bool append, bool failed, const char* what)
	{
		V base = append ? m : V(); V full = base; full.insert(full.end(), src.begin(), src.end()); if (!failed) { m = full; return; }
		bool ok = got == m; if (!ok) { ok = got.size() == full.size(); for (size_t i = 0; i < got.size() && ok; i++) ok = got[i] == full[i] || (i >= base.size() && (got[i] == 0 || (i < m.size() && got[i] == m[i]))); } SIM_CHECK(ok, "wrong-copy", "%s: after a failure the array holds %s", what, show(got).c_str()); m = got;
	}
	void blank_judge(V& m, const V& got, const V& src, bool append, bool failed, const char* what)	// numbers of a resized array are not set to anything
	{
		size_t base = append ? m.size() : 0; if (!failed) { array_judge(m, got, src, append, false, what); return; } bool ok = got == m || (got.size() == base + src.size() && std::equal(m.begin(), m.begin() + base, got.begin())); SIM_CHECK(ok, "wrong-copy", "%s: after a failure the array holds %s", what, show(got).c_str()); m = got;
	}
	template<class Dst, class J> void into(Dst& d, V& m, J judge, int self, const char* name)
	{
		bool ap = sim::chance(1, 2); int i = (int)sim::choose(2); char w[80]; static const char* const srcs[] = { "array", "list", "sorted list", "query", "memory", "memory range", "query of a sorted list" }; int s = (int)sim::choose(7); (void)self;
		snprintf(w, 80, "%s a %s %s %s", ap ? "append" : "copy", srcs[s], ap ? "to a" : "into a", name);
		auto j = [&](const V& src) { return [&, src](bool f) { judge(m, read(d), src, ap, f, w); }; };
		auto clash = [&](void* src) { return src == (void*)&d; };
		switch (s)
		{
		case 0: if (clash(&k->a[i]) && !ap) i = 1 - i; { auto& x = k->a[i]; copy(w, [&] { CF(d, ap, x); }, j(ma[i])); } break;
		case 1: if (clash(&k->l[i]) && !ap) i = 1 - i; { auto& x = k->l[i]; copy(w, [&] { CF(d, ap, x); }, j(ml[i])); } break;
		case 2: if (clash(&k->so[i])) i = 1 - i; { auto& x = k->so[i]; copy(w, [&] { CF(d, ap, x); }, j(mso[i])); } break;
		case 3: if (clash(&k->l[i])) i = 1 - i; { V src; for (int v : ml[i]) if (v % 3) src.push_back(v); copy(w, [&] { CF(d, ap, From(k->l[i]).Select(Pass<Elem>()).Where([](const Elem& e) { return e.value % 3 != 0; })); }, j(src)); } break;
		case 4: { vint c = sim::choose(6); copy(w, [&] { CF(d, ap, &k->raw[0], c); }, j(V(mraw.begin(), mraw.begin() + c))); } break;
		case 5: { vint b = sim::choose(6), c = sim::choose(6 - (uint32_t)b); copy(w, [&] { CF(d, ap, (const Elem*)&k->raw[0] + b, (const Elem*)&k->raw[0] + b + c); }, j(V(mraw.begin() + b, mraw.begin() + b + c))); } break;
		case 6: if (clash(&k->so[i])) i = 1 - i; copy(w, [&] { CF(d, ap, From(k->so[i]).Select(Pass<Elem>())); }, j(mso[i])); break;
		}
	}
	// containers of numbers, among themselves and into containers of elements
	template<class Dst, class J> void numbers(Dst& d, V& m, J judge, int self, const char* name)
	{
		bool ap = sim::chance(1, 2); static const char* const srcs[] = { "number array", "number list", "sorted number list", "query of numbers", "numbers in memory" }; int s = (int)sim::choose(5); if (s == self && (!ap || s == 2)) s = s == 0 ? 1 : 0; if (s == 3 && self == 1) s = 4; char w[96];
		snprintf(w, 96, "%s a %s %s %s", ap ? "append" : "copy", srcs[s], ap ? "to a" : "into a", name); auto j = [&](const V& src) { return [&, src](bool f) { judge(m, read(d), src, ap, f, w); }; };
		switch (s)
		{
		case 0: copy(w, [&] { CF(d, ap, k->ia); }, j(mia)); break;
		case 1: copy(w, [&] { CF(d, ap, k->il); }, j(mil)); break;
		case 2: copy(w, [&] { CF(d, ap, k->is); }, j(mis)); break;
		case 3: { V src; for (int v : mil) if (v % 3) src.push_back(v); copy(w, [&] { CF(d, ap, From(k->il).Select(Pass<vint>()).Where([](vint v) { return v % 3 != 0; })); }, j(src)); } break;
		case 4: { vint c = sim::choose(41); V src; for (vint i = 0; i < c; i++) src.push_back((int)LIB(return k->rawi[i])); copy(w, [&] { CF(d, ap, (const vint*)k->rawi, c); }, j(src)); } break;
		}
	}
	void number_op()
	{
		int i = (int)sim::choose(2); size_t most = huge ? 900 : bulk ? 120 : 40;
		switch (sim::choose(6)) { case 0: numbers(k->ia, mia, blank_judge, 0, "number array"); break; case 1: numbers(k->il, mil, list_judge, 1, "number list"); break; case 2: numbers(k->is, mis, sorted_judge, 2, "sorted number list"); break; case 3: numbers(k->a[i], ma[i], array_judge, -1, "array"); break; case 4: numbers(k->l[i], ml[i], list_judge, -1, "list"); break; case 5: numbers(k->so[i], mso[i], sorted_judge, -1, "sorted list"); break; }
		if (mia.size() > most) { mia.clear(); LIB(k->ia.Resize(0)); } if (mil.size() > most) { mil.clear(); LIB(k->il.Clear()); } if (mis.size() > most) { mis.clear(); LIB(k->is.Clear()); }
	}
	void string_op()
	{
		bool ap = sim::chance(1, 2); int i = (int)sim::choose(2);
		switch (sim::choose(5))
		{
		case 0: case 1: // into a string: all or nothing
			{
				int s = (int)sim::choose(4); V src = s == 0 ? mca : s == 1 ? mcl : V(); if (s == 2) for (int v : mcl) if (v % 3) src.push_back(v); if (s == 3) { if (sim::chance(1, 2)) src = { 'x', 'y' }; } const char* w = ap ? "append characters to a string" : "copy characters into a string"; bool two = src.size() > 0;
				copy(w, [&] { switch (s) { case 0: CF(k->s[i], ap, k->ca); break; case 1: CF(k->s[i], ap, k->cl); break; case 2: CF(k->s[i], ap, From(k->cl).Select(Pass<wchar_t>()).Where([](wchar_t c) { return c % 3 != 0; })); break; default: { Array<wchar_t> t; t.Resize(two ? 2 : 0); if (two) { t[0] = L'x'; t[1] = L'y'; } CF(k->s[i], ap, t); } } },
					[&](bool f) { if (f) return; if (!ap) ms[i].clear(); ms[i].insert(ms[i].end(), src.begin(), src.end()); if (ms[i].size() > 60) { ms[i].clear(); LIB(k->s[i] = WString()); } });
			} break;
		case 2: copy("copy a string into an array", [&] { CF(k->ca, ap, k->s[i]); }, [&](bool f) { array_judge(mca, read(k->ca), ms[i], ap, f, "copy a string into an array"); if (mca.size() > 60) { mca.clear(); LIB(k->ca.Resize(0)); } }); break;
		case 3: copy("copy a string into a list", [&] { CF(k->cl, ap, k->s[i]); }, [&](bool f) { list_judge(mcl, read(k->cl), ms[i], ap, f, "copy a string into a list"); if (mcl.size() > 60) { mcl.clear(); LIB(k->cl.Clear()); } }); break;
		case 4: if (ms[i].size()) { uint32_t a = sim::choose((uint32_t)ms[i].size()); sim::log("slice a string"); LIB(k->s[i] = k->s[i].Sub(a, k->s[i].Length() - a)); ms[i] = V(ms[i].begin() + a, ms[i].end()); verify("slice"); } else { bool z = sim::chance(1, 3); LIB(k->s[i] = z ? WString::CopyFrom(L"h\0l\0o", 5) : WString(L"hello")); ms[i] = { 'h', 'e', 'l', 'l', 'o' }; if (z) ms[i] = { 'h', 0, 'l', 0, 'o' }; verify("fresh string"); } break;
		}
	}
	void map_op()
	{
		bool ap = sim::chance(1, 2); int i = (int)sim::choose(2), o = 1 - i; typedef std::map<int, int> DM; typedef std::map<int, V> GM;
		if (sim::chance(1, 2))
		{
			int s = (int)sim::choose(5); std::vector<std::pair<int, int>> src; if (s == 0) src = mpl; else if (s == 4) { for (auto& x : mg[o]) for (int v : x.second) src.push_back({ x.first, v }); } else for (auto& x : md[o]) src.push_back(x); const char* w = ap ? "add associations to a dictionary" : "copy associations into a dictionary";
			copy(w, [&] { if (s == 0) CF(k->d[i], ap, k->pl); else if (s == 1) CF(k->d[i], ap, k->d[o]); else if (s == 3) CF(k->d[i], ap, From(k->d[o])); else if (s == 4) CF(k->d[i], ap, k->g[o]); else CF(k->d[i], ap, From(k->d[o]).Select(Pass<PE>())); }, [&](bool f)
			{
				DM got = read(k->d[i]), m = ap ? md[i] : DM(); bool ok = f && got == md[i]; for (size_t n = f ? 0 : src.size(); n <= src.size() && !ok; n++) { DM x = m; for (size_t q = 0; q < n; q++) x[src[q].first] = src[q].second; ok = got == x; } SIM_CHECK(ok, "wrong-copy", "%s: the dictionary is wrong", w); md[i] = got;
			});
		}
		else
		{
			int s = (int)sim::choose(5); std::vector<std::pair<int, int>> src; if (s == 0) src = mpl; else if (s == 4) { for (auto& x : md[o]) src.push_back(x); } else for (auto& x : mg[o]) for (int v : x.second) src.push_back({ x.first, v }); const char* w = ap ? "add associations to a group" : "copy associations into a group"; size_t total = src.size(); for (auto& x : mg[i]) total += x.second.size(); if (total > 40) ap = false;
			copy(w, [&] { if (s == 0) CF(k->g[i], ap, k->pl); else if (s == 1) CF(k->g[i], ap, k->g[o]); else if (s == 3) CF(k->g[i], ap, From(k->g[o])); else if (s == 4) CF(k->g[i], ap, k->d[o]); else CF(k->g[i], ap, From(k->g[o]).Select(Pass<PE>())); }, [&](bool f)
			{
				GM got = read(k->g[i]), m = ap ? mg[i] : GM(); bool ok = f && got == mg[i]; for (size_t n = f ? 0 : src.size(); n <= src.size() && !ok; n++) { GM x = m; for (size_t q = 0; q < n; q++) x[src[q].first].push_back(src[q].second); ok = got == x; } SIM_CHECK(ok, "wrong-copy", "%s: the group is wrong", w); mg[i] = got;
			});
		}
	}
	void trim() { size_t most = huge ? 900 : bulk ? 120 : 40; for (int i = 0; i < 2; i++) { if (ma[i].size() > most) { ma[i].clear(); LIB(k->a[i].Resize(0)); } if (ml[i].size() > most) { ml[i].clear(); LIB(k->l[i].Clear()); } if (mso[i].size() > most) { mso[i].clear(); LIB(k->so[i].Clear()); } } }
	void step()
	{
		int i = (int)sim::choose(2);
		switch (sim::pick({ 3, 3, 3, 3, 3, 3 })) { case 5: number_op(); break; case 0: into(k->a[i], ma[i], array_judge, i, "array"); break; case 1: into(k->l[i], ml[i], list_judge, i, "list"); break; case 2: into(k->so[i], mso[i], sorted_judge, i, "sorted list"); break; case 3: string_op(); break; case 4: map_op(); break; }
		trim();
	}
	// thousands of items at once, from every kind of source into every kind of target
	template<class D, class S, class J> void one_long(D& d, const S& src, const V& from, bool ap, J order, const char* w)
	{
		V want = ap ? read(d) : V(); want.insert(want.end(), from.begin(), from.end()); order(want); LIB(CopyFrom(d, src, ap)); V got = read(d); SIM_CHECK(got.size() == want.size(), "wrong-copy", "%s: %zu items became %zu", w, want.size(), got.size());
		for (size_t i = 0; i < got.size(); i++) SIM_CHECK(got[i] == want[i], "wrong-copy", "%s: item %zu of %zu is %d, should be %d", w, i, want.size(), got[i], want[i]);
	}
	struct Long { Array<wchar_t> a; List<wchar_t> l; SortedList<wchar_t> o; WString s; };
	void long_copy()
	{
		int n = large_size(); Bulk data; int kind = (int)sim::choose(4), target = (int)sim::choose(4); bool ap = sim::chance(1, 2); if (target == 2 && n > 1000) n = 1000; else if (target != 2 && sim::chance(1, 6)) n = vast_size(); sim::log("copy %d items of source %d into target %d", n, kind, target); sim::probe("long_copy");
		V m; for (int i = 0; i < n; i++) m.push_back(target == 2 ? 1 + (i + (int)data(20)) : 1 + (int)data(50000)); Long* x = LIB(return sim::make<Long>()); Long* y = LIB(return sim::make<Long>());
		LIB(x->a.Resize(n); for (int i = 0; i < n; i++) { x->a[i] = (wchar_t)m[i]; x->l.Add((wchar_t)m[i]); } x->s = WString::CopyFrom(&x->a[0], n)); if (ap) LIB(y->a.Resize(2); y->a[0] = 3; y->a[1] = 70000; y->l.Add(70000); y->l.Add(4); y->o.Add(2); y->o.Add(70000); y->s = WString(L"ab"));
		auto keep = [](V&) {}; auto sorted = [](V& v) { std::sort(v.begin(), v.end()); };
		auto into = [&](const auto& src) { switch (target) { case 0: one_long(y->a, src, m, ap, keep, "into an array"); break; case 1: one_long(y->l, src, m, ap, keep, "into a list"); break; case 2: one_long(y->o, src, m, ap, sorted, "into a sorted list"); break; default: one_long(y->s, src, m, ap, keep, "into a string"); } };
		switch (kind) { case 0: into(x->a); break; case 1: into(x->l); break; case 2: into(From(x->l).Where([](wchar_t c) { return c != 0; })); break; default: if (target == 0) one_long(y->a, x->s, m, ap, keep, "a string into an array"); else one_long(y->l, x->s, m, ap, keep, "a string into a list"); }
		LIB(sim::unmake(x); sim::unmake(y));
	}
}
void sim_scenario()
{
	if (sim::chance(1, 300)) { common::reset(); long_copy(); sim::nontrivial(); sim::check_no_leaks("end of run"); return; }
	common::reset(); src_fail = -1; bulk = sim::chance(1, 5); huge = bulk && sim::chance(1, 24); if (huge) sim::probe("huge"); if (bulk) sim::probe("bulk"); k = LIB(return sim::make<Slots>()); auto fill = [](V& m, int n) { m.clear(); for (int i = 0; i < n; i++) m.push_back(1 + (int)sim::choose(bulk ? 60 : 8)); }; auto many = [](uint32_t few) { return (int)sim::choose(huge ? 300 : bulk ? 50 : few); }; int keys = bulk ? 41 : 4, groups = bulk ? 17 : 3;
	for (int i = 0; i < 2; i++)
	{
		fill(ma[i], many(6)); LIB(k->a[i].Resize((vint)ma[i].size()); for (size_t j = 0; j < ma[i].size(); j++) k->a[i][j] = Elem(ma[i][j])); fill(ml[i], many(6)); LIB(for (int v : ml[i]) k->l[i].Add(Elem(v))); fill(mso[i], many(6)); LIB(for (int v : mso[i]) k->so[i].Add(Elem(v))); std::sort(mso[i].begin(), mso[i].end());
		fill(ms[i], 0); md[i].clear(); mg[i].clear(); V t; fill(t, many(4)); for (int v : t) { md[i][v] = v * 10 + i; LIB(k->d[i].Set(v, Elem(v * 10 + i))); mg[i][v % groups].push_back(v); LIB(k->g[i].Add(v % groups, Elem(v))); }
	}
	fill(mraw, 5); LIB(for (int i = 0; i < 5; i++) k->raw[i] = Elem(mraw[i])); mca.clear(); fill(mcl, many(5)); for (int i = 0; i < 40; i++) { int v = 1 + (int)sim::choose(9); LIB(k->rawi[i] = v); } mia.clear(); mil.clear(); mis.clear(); LIB(for (int v : mcl) k->cl.Add((wchar_t)v)); mpl.clear(); V t; fill(t, many(6)); for (int v : t) { mpl.push_back({ v % keys, v * 7 }); LIB(k->pl.Add(PE(v % keys, Elem(v * 7)))); }
	int n = sim::ops(30, 12, [] { step(); });
	LIB(k->~Slots()); SIM_CHECK(ledger.alive == 0, "lifetime", "%ld elements were never destroyed", ledger.alive);
	if (n > 2) sim::nontrivial();
	sim::check_no_leaks("end of run");
}

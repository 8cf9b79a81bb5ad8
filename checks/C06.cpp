// C06: Array, List and SortedList against a plain sequence, with failing allocations and element copies.
#include "common.h"
#include "Source/Collections/List.h"
#include "Source/Collections/OperationCopyFrom.h"
#include "Source/Primitives/Pointer.h"
#include <memory>
using namespace vl;
using namespace vl::collections;
using namespace common;
COMMON_STATE
const char* const sim_property = "C06";

namespace
{
	// looked up by a key of another type
	struct KElem : Elem
	{
		KElem() {} KElem(int v) : Elem(v) {}
		std::strong_ordering operator<=>(const KElem& o) const { return Elem::operator<=>(o); } bool operator==(const KElem& o) const { return Elem::operator==(o); }
		std::strong_ordering operator<=>(int k) const { sim::Har h; rd(); maybe_throw_cmp(); return value <=> k; } bool operator==(int k) const { sim::Har h; rd(); maybe_throw_cmp(); return value == k; }
	};
}
namespace vl { template<> struct KeyType<KElem> { using Type = int; static int GetKeyValue(const KElem& e) { sim::Har h; e.rd(); return e.value; } }; }
namespace
{
	struct Triv { int value; int pad[4]; bool operator==(const Triv& o) const { return value == o.value; } auto operator<=>(const Triv& o) const { return value <=> o.value; } };
	// element types for which only some of the special members are trivial
	struct Init { int value = 0; int tag = 0x5151; bool operator==(const Init& o) const { return value == o.value; } auto operator<=>(const Init& o) const { return value <=> o.value; } };
	struct Self { int value; const Self* self; Self() : value(0), self(this) {} Self(int v) : value(v), self(this) {} Self(const Self& o) : value(o.value), self(this) {} Self(Self&& o) : value(o.value), self(this) { o.value = Elem::MOVED; } Self& operator=(const Self& o) { value = o.value; return *this; } Self& operator=(Self&& o) { int v = o.value; o.value = Elem::MOVED; value = v; return *this; } bool operator==(const Self& o) const { return value == o.value; } auto operator<=>(const Self& o) const { return value <=> o.value; } };
	struct Count { int value; Count() : value(0) { sim::Har h; ledger.alive++; } Count(int v) : value(v) { sim::Har h; ledger.alive++; } Count(const Count& o) : value(o.value) { sim::Har h; ledger.alive++; } ~Count() { sim::Har h; ledger.alive--; } Count& operator=(const Count&) = default; bool operator==(const Count& o) const { return value == o.value; } auto operator<=>(const Count& o) const { return value <=> o.value; } };
	template<class T> T mk(int v); template<> Init mk<Init>(int v) { Init i; i.value = v; return i; } template<> Self mk<Self>(int v) { return Self(v); } template<> Count mk<Count>(int v) { return Count(v); } template<> vuint8_t mk<vuint8_t>(int v) { return (vuint8_t)v; }
	int val(const Init& t) { return t.tag == 0x5151 ? t.value : -998; } int val(const Self& t) { return t.self == &t ? t.value : -997; } int val(const Count& t) { return t.value; } int val(const vuint8_t& v) { return v; }
	template<> Elem mk<Elem>(int v) { return Elem(v); } template<> KElem mk<KElem>(int v) { return KElem(v); } template<> vint mk<vint>(int v) { return v; } template<> Triv mk<Triv>(int v) { return Triv{ v, { v, v, v, v } }; }
	int val(const Elem& e) { sim::Har h; e.rd(); return e.value; } int val(const vint& v) { return (int)v; } int val(const Triv& t) { return t.pad[3] == t.value ? t.value : -999; }
	template<class T> int moved(int v) { return v; } template<> int moved<Elem>(int) { return Elem::MOVED; } template<> int moved<KElem>(int) { return Elem::MOVED; } template<> int moved<Self>(int) { return Elem::MOVED; }
	template<class T> const bool throwing = std::is_base_of_v<Elem, T>; template<class T> const bool tracked = throwing<T> || std::is_same_v<T, Count>; template<class T> const bool blank = std::is_trivially_default_constructible_v<T>;

	template<class T> struct World
	{
		struct Slots { Array<T> a[2]; List<T> l[2]; SortedList<T> s[2]; };
		Slots* k; std::vector<int> ma[2], ml[2], ms[2]; long extra = 0; bool big = false, vast = false;

		template<class C> void check(C& c, const std::vector<int>& m, const char* what, int i)
		{
			vint n = LIB(return c.Count());
			std::vector<int> got; for (vint x = 0; x < n; x++) got.push_back(LIB(return val(c.Get(x))));
			SIM_CHECK(got == m, "wrong-contents", "%s %d holds %s, should hold %s", what, i, show(got).c_str(), show(m).c_str());
		}
		void verify()
		{
			size_t total = 0;
			for (int i = 0; i < 2; i++) { check(k->a[i], ma[i], "array", i); check(k->l[i], ml[i], "list", i); check(k->s[i], ms[i], "sorted list", i); total += ma[i].size() + ml[i].size() + ms[i].size(); }
			if (tracked<T>) SIM_CHECK(ledger.alive == (long)total + extra, "lifetime", "%ld elements are alive, but the containers hold %zu", ledger.alive, total);
		}
		// runs f as library code, possibly with a fault; g updates the model if the operation took effect
		template<class F, class G> bool mutate(const char* what, F f, G g)
		{
			int fault = (int)sim::pick({ 6, 2, 2, 1 }); if (fault >= 2 && !throwing<T>) fault = 1;
			uint64_t n = fault ? sim::choose(3) : 0;
			sim::log("%s%s", what, fault == 1 ? " (allocation may fail)" : fault == 2 ? " (element copy may throw)" : fault == 3 ? " (element comparison may throw)" : "");
			if (fault == 1) sim::fail_alloc_after(n); else if (fault == 2) elem_copy_fail() = (long)n; else if (fault == 3) elem_cmp_fail() = (long)n;
			bool threw = false, oom = false;
			try { sim::Lib l; f(); } catch (const std::bad_alloc&) { threw = oom = true; } catch (const ElemThrow&) { threw = true; }
			bool fired = fault == 1 ? sim::clear_alloc_faults() > 0 : fault == 2 ? elem_copy_fail() < 0 : fault == 3 ? elem_cmp_fail() < 0 : false; elem_copy_fail() = elem_cmp_fail() = -1;
			if (threw) SIM_CHECK(fired && oom == (fault == 1), "wrong-result", "%s throws although nothing failed", what);
			else g();
			verify();
			return !threw;
		}
		template<class F> void error(const char* what, F f)
		{
			sim::log("%s", what); bool e = false; try { sim::Lib l; f(); } catch (const Error& x) { e = true; const wchar_t* d = x.Description(); sim::Har h; SIM_CHECK(d && *d, "wrong-result", "%s is refused without a description", what); }
			SIM_CHECK(e, "wrong-result", "%s is accepted", what); sim::probe("out_of_range"); verify();
		}
		vint bad(vint low, vint high) { switch (sim::choose(4)) { case 0: return low - 1 - (vint)sim::choose(3); case 1: return high + 1 + (vint)sim::choose(3); case 2: return huge(); default: return sim::chance(1, 2) ? low - 1 : high + 1; } }	// a position outside low..high
		vint huge() { static const vint hs[] = { INT64_MAX, INT64_MAX - 1, INT64_MAX / 2, INT64_MIN, INT64_MIN + 1, INT64_MIN / 2 }; return hs[sim::choose(6)]; }
		// more elements than memory can hold: refused, nothing changes
		void impossible(Array<T>& l)
		{
			vint c = sizeof(T) > 1 && sim::chance(1, 2) ? (vint)(~(size_t)0 / sizeof(T)) + 1 + (vint)sim::choose(3) : INT64_MAX - (vint)sim::choose(3); if (c <= 0) c = INT64_MAX / 2; bool oom = false, re = sim::chance(1, 2);
			sim::log("array of %lld elements", (long long)c); sim::probe("impossible_size");
			try { sim::Lib x; if (re) l.Resize(c); else Array<T> y(c); } catch (const std::bad_alloc&) { oom = true; }
			SIM_CHECK(oom, "wrong-result", "an array of %lld elements is created", (long long)c); verify();
		}
		int value() { return (int)sim::choose(big ? 100 : 6); }
		std::vector<int> bulk() { std::vector<int> v; int n = vast ? 150 + (int)sim::choose(150) : 8 + (int)sim::choose(40); for (int i = 0; i < n; i++) v.push_back(value()); sim::probe("bulk"); return v; }
		void list_op()
		{
			int i = sim::choose(2); auto& l = k->l[i]; auto& m = ml[i]; vint n = (vint)m.size(); int v = value();
			vint at = (vint)sim::choose((uint32_t)n + 1), el = n ? (vint)sim::choose((uint32_t)n) : 0; vint r = -1;
			switch (sim::pick({ 6, 5, 4, 4, 4, 5, 4, 4, 2, 4, 3, 3, 3, 3, 3, 2, 3, big ? 8u : 0u }))
			{
			case 0: { const T x = LIB(return mk<T>(v)); extra = tracked<T>; if (mutate("list add", [&] { r = l.Add(x); }, [&] { m.push_back(v); })) SIM_CHECK(r == n, "wrong-result", "add returns %lld", (long long)r); extra = 0; } break;
			case 1: if (mutate("list add moved", [&] { r = l.Add(mk<T>(v)); }, [&] { m.push_back(v); })) SIM_CHECK(r == n, "wrong-result", "add returns %lld", (long long)r); break;
			case 2: { T x = LIB(return mk<T>(v)); extra = tracked<T>; if (mutate("list insert", [&] { r = l.Insert(at, (const T&)x); }, [&] { m.insert(m.begin() + at, v); })) SIM_CHECK(r == at, "wrong-result", "insert returns %lld", (long long)r); extra = 0; } break;
			case 3: if (mutate("list insert moved", [&] { r = l.Insert(at, mk<T>(v)); }, [&] { m.insert(m.begin() + at, v); })) SIM_CHECK(r == at, "wrong-result", "insert returns %lld", (long long)r); break;
			case 4: if (n) { sim::probe("insert_own_element"); mutate("list insert own element", [&] { r = l.Insert(at, (const T&)l[el]); }, [&] { int x = m[el]; m.insert(m.begin() + at, x); }); } break;
			case 5: if (n) { sim::probe("insert_own_element"); mutate("list add own element", [&] { r = sim::chance(1, 2) ? l.Add(l.Get(el)) : l.Add(l[el]); }, [&] { int x = m[el]; m.push_back(x); }); } break;
			case 6: if (n) mutate("list insert own element by move", [&] { r = l.Insert(at, std::move(l[el])); }, [&] { int x = m[el]; m[el] = moved<T>(x); m.insert(m.begin() + at, x); }); break;
			case 7: if (n) mutate("list remove at", [&] { l.RemoveAt(el); }, [&] { m.erase(m.begin() + el); }); break;
			case 8: mutate("list clear", [&] { l.Clear(); }, [&] { m.clear(); }); break;
			case 9: { vint c = (vint)sim::choose((uint32_t)(n - at) + 1); mutate("list remove range", [&] { l.RemoveRange(at, c); }, [&] { m.erase(m.begin() + at, m.begin() + at + c); }); } break;
			case 10: { auto it = std::find(m.begin(), m.end(), v); bool was = it != m.end(), got = false; T x = LIB(return mk<T>(v)); extra = tracked<T>; if (mutate("list remove value", [&] { got = l.Remove(KeyType<T>::GetKeyValue(x)); }, [&] { if (was) m.erase(it); })) SIM_CHECK(got == was, "wrong-result", "remove returns %d", got); extra = 0; } break;
			case 11: if (n) { bool own = sim::chance(1, 2); vint from = (vint)sim::choose((uint32_t)n); T x = LIB(return mk<T>(v)); extra = tracked<T>; mutate(own ? "list set own element" : "list set", [&] { l.Set(el, own ? (const T&)l[from] : (const T&)x); }, [&] { m[el] = own ? m[from] : v; }); extra = 0; } break;
			case 12: if (n) { if (sim::chance(1, 2)) mutate("list set moved", [&] { l.Set(el, mk<T>(v)); }, [&] { m[el] = v; }); else mutate("list assign element", [&] { l[el] = mk<T>(v); }, [&] { m[el] = v; }); } break;
			case 13: { T x = LIB(return mk<T>(v)); extra = tracked<T>; vint g = LIB(return l.IndexOf(KeyType<T>::GetKeyValue(x))); bool c = LIB(return l.Contains(KeyType<T>::GetKeyValue(x))); auto f = std::find(m.begin(), m.end(), v); SIM_CHECK(g == (f == m.end() ? -1 : f - m.begin()) && c == (f != m.end()), "wrong-result", "index of %d in %s is %lld, contained %d", v, show(m).c_str(), (long long)g, c); extra = 0; } break;
			case 14: { int j = 1 - i; if (sim::chance(1, 2)) mutate("list move-assign", [&] { l = std::move(k->l[j]); }, [&] { m = ml[j]; ml[j].clear(); }); else mutate("list move-construct", [&] { l.~List<T>(); new(&l) List<T>(std::move(k->l[j])); }, [&] { m = ml[j]; ml[j].clear(); }); } break;
			case 15: switch (sim::choose(11)) { case 10: { int w = sim::choose(9); vint h = bad(0, w == 3 || w == 4 || w == 6 ? n : n - 1); bool cr = sim::chance(1, 2); sim::log("position %lld", (long long)h); error("list position out of range", [&] { T x = mk<T>(v); const List<T>& c = l; switch (w) { case 0: (void)c.Get(h); break; case 1: (void)c[h]; break; case 2: (void)l[h]; break; case 3: l.Insert(h, (const T&)x); break; case 4: l.Insert(h, std::move(x)); break; case 5: l.RemoveAt(h); break; case 6: l.RemoveRange(h, cr ? 0 : 1); break; case 7: l.Set(h, (const T&)x); break; case 8: l.Set(h, std::move(x)); break; } }); } break; case 8: error("list remove huge range", [&] { l.RemoveRange(at, huge()); }); break; case 9: { vint h = huge(); int w = sim::choose(3); error("list vast position", [&] { if (w == 0) (void)l.Get(h); else if (w == 1) l.Insert(h, mk<T>(v)); else l.RemoveAt(h); }); } break; case 0: error("list get past the end", [&] { (void)l.Get(n); }); break; case 1: error("list get before the start", [&] { (void)l[-1]; }); break; case 2: error("list insert past the end", [&] { l.Insert(n + 1, mk<T>(v)); }); break; case 3: error("list remove past the end", [&] { l.RemoveAt(n); }); break; case 4: error("list remove range past the end", [&] { l.RemoveRange(at, n - at + 1); }); break; case 5: error("list set past the end", [&] { l.Set(n, mk<T>(v)); }); break; case 6: error("list insert before the start", [&] { T x = mk<T>(v); l.Insert(-1, (const T&)x); }); break; case 7: error("list remove negative range", [&] { l.RemoveRange(at, -1); }); break; } break;
			case 16: enumerate(l, m, "list"); break;
			case 17: if (big && n < (vast ? 600 : 90)) { auto b = bulk(); sim::log("list add %zu elements", b.size()); LIB(for (int x : b) l.Add(mk<T>(x))); m.insert(m.end(), b.begin(), b.end()); verify(); } break;
			}
		}
		template<class C> void enumerate(C& c, std::vector<int>& m, const char* what)
		{
			IEnumerator<T>* e = LIB(return c.CreateEnumerator()); size_t i = 0; IEnumerator<T>* cl = nullptr; size_t ci = 0;
			size_t stop = sim::choose((uint32_t)m.size() + 1);
			while (true)
			{
				if (i == stop && !cl) { cl = LIB(return e->Clone()); ci = i; }
				bool more = LIB(return e->Next()); if (!more) break;
				SIM_CHECK(i < m.size(), "wrong-result", "%s enumerates more than %zu elements", what, m.size());
				int v = LIB(return val(e->Current())); vint x = LIB(return e->Index()); SIM_CHECK(v == m[i] && x == (vint)i, "wrong-result", "%s enumerates %d as element %lld, should be %d as element %zu", what, v, (long long)x, m[i], i); i++;
			}
			SIM_CHECK(i == m.size(), "wrong-result", "%s enumerates %zu of %zu elements", what, i, m.size());
			if (cl) { while (LIB(return cl->Next())) { SIM_CHECK(ci < m.size() && LIB(return val(cl->Current())) == m[ci], "wrong-result", "%s: a cloned enumeration differs", what); ci++; } SIM_CHECK(ci == m.size(), "wrong-result", "%s: a cloned enumeration ends at %zu", what, ci); LIB(delete cl); }
			LIB(e->Reset()); i = 0; while (LIB(return e->Next())) i++; SIM_CHECK(i == m.size(), "wrong-result", "%s: a restarted enumeration has %zu elements", what, i);
			LIB(delete e);
		}
		void sorted_op()
		{
			int i = sim::choose(2); auto& l = k->s[i]; auto& m = ms[i]; vint n = (vint)m.size(); int v = value();
			vint at = (vint)sim::choose((uint32_t)n + 1), el = n ? (vint)sim::choose((uint32_t)n) : 0; vint r = -1;
			auto ins = [&](int x) { return [&m, &r, x, n] { SIM_CHECK(r >= 0 && r <= n, "wrong-result", "sorted add returns %lld of %lld", (long long)r, (long long)n + 1); m.insert(m.begin() + r, x); SIM_CHECK(std::is_sorted(m.begin(), m.end()), "wrong-result", "sorted add put %d at %lld: %s", x, (long long)r, show(m).c_str()); }; };
			switch (sim::pick({ 6, 5, 4, 4, 3, 4, 3, 2, 3, 3, 2, 3, 3, big ? 8u : 0u }))
			{
			case 0: { const T x = LIB(return mk<T>(v)); extra = tracked<T>; mutate("sorted add", [&] { r = l.Add(x); }, ins(v)); extra = 0; } break;
			case 1: mutate("sorted add moved", [&] { r = l.Add(mk<T>(v)); }, ins(v)); break;
			case 2: if (n) { sim::probe("insert_own_element"); mutate("sorted add own element", [&] { r = l.Add(l[el]); }, ins(m[el])); } break;
			case 3: if (n) mutate("sorted remove at", [&] { l.RemoveAt(el); }, [&] { m.erase(m.begin() + el); }); break;
			case 4: { vint c = (vint)sim::choose((uint32_t)(n - at) + 1); mutate("sorted remove range", [&] { l.RemoveRange(at, c); }, [&] { m.erase(m.begin() + at, m.begin() + at + c); }); } break;
			case 5: { auto it = std::find(m.begin(), m.end(), v); bool was = it != m.end(), got = false; T x = LIB(return mk<T>(v)); extra = tracked<T>; if (mutate("sorted remove value", [&] { got = l.Remove(KeyType<T>::GetKeyValue(x)); }, [&] { if (was) m.erase(it); })) SIM_CHECK(got == was, "wrong-result", "remove returns %d", got); extra = 0; } break;
			case 6: { T x = LIB(return mk<T>(v)); extra = tracked<T>; vint g = LIB(return l.IndexOf(KeyType<T>::GetKeyValue(x))); bool c = LIB(return l.Contains(KeyType<T>::GetKeyValue(x))); bool in = std::find(m.begin(), m.end(), v) != m.end(); SIM_CHECK(c == in && (in ? g >= 0 && g < n && m[g] == v : g == -1), "wrong-result", "index of %d in %s is %lld, contained %d", v, show(m).c_str(), (long long)g, c); extra = 0; } break;
			case 7: mutate("sorted clear", [&] { l.Clear(); }, [&] { m.clear(); }); break;
			case 8: { int j = 1 - i; if (sim::chance(1, 2)) mutate("sorted move-assign", [&] { l = std::move(k->s[j]); }, [&] { m = ms[j]; ms[j].clear(); }); else mutate("sorted move-construct", [&] { l.~SortedList<T>(); new(&l) SortedList<T>(std::move(k->s[j])); }, [&] { m = ms[j]; ms[j].clear(); }); } break;
			case 9: enumerate(l, m, "sorted list"); break;
			case 10: switch (sim::choose(6)) { case 5: { int w = sim::choose(4); vint h = bad(0, w == 3 ? n : n - 1); bool cr = sim::chance(1, 2); error("sorted position out of range", [&] { const SortedList<T>& c = l; switch (w) { case 0: (void)c.Get(h); break; case 1: (void)c[h]; break; case 2: l.RemoveAt(h); break; case 3: l.RemoveRange(h, cr ? 0 : 1); break; } }); } break; case 4: error("sorted remove huge range", [&] { l.RemoveRange(at, huge()); }); break; case 0: error("sorted get past the end", [&] { (void)l.Get(n); }); break; case 1: error("sorted remove past the end", [&] { l.RemoveAt(n); }); break; case 2: error("sorted remove range past the end", [&] { l.RemoveRange(at, n - at + 1); }); break; case 3: error("sorted get before the start", [&] { (void)l[-1]; }); break; } break;
			case 13: if (n < (vast ? 600 : 90)) { auto b = bulk(); sim::log("sorted add %zu elements", b.size()); LIB(for (int x : b) l.Add(mk<T>(x))); m.insert(m.end(), b.begin(), b.end()); std::sort(m.begin(), m.end()); verify(); } break;
			case 12: { int j = 1 - i; mutate("sorted copy-construct", [&] { SortedList<T> x((const SortedList<T>&)k->s[j]); l = std::move(x); }, [&] { m = ms[j]; }); } break;
			case 11: if (n) { bool got = false; mutate("sorted remove own element", [&] { got = l.Remove(KeyType<T>::GetKeyValue(l[el])); }, [&] { m.erase(std::find(m.begin(), m.end(), m[el])); }); } break;
			}
		}
		void array_op()
		{
			int i = sim::choose(2); auto& l = k->a[i]; auto& m = ma[i]; vint n = (vint)m.size(); int v = value(); vint el = n ? (vint)sim::choose((uint32_t)n) : 0;
			switch (sim::pick({ 6, 5, 4, 3, 3, 3, 2, 3, 3 }))
			{
			case 0: // resize; new trivial elements have no defined value
				{ int c = (int)sim::choose(vast ? 400 : big ? 70 : 8); mutate("array resize", [&] { l.Resize(c); for (vint x = n; x < c; x++) if (blank<T>) l[x] = mk<T>(0); }, [&] { m.resize(c, 0); }); } break;
			case 1: if (n) { T x = LIB(return mk<T>(v)); extra = tracked<T>; mutate("array set", [&] { l.Set(el, (const T&)x); }, [&] { m[el] = v; }); extra = 0; } break;
			case 2: if (n) { if (sim::chance(1, 2)) mutate("array set moved", [&] { l.Set(el, mk<T>(v)); }, [&] { m[el] = v; }); else mutate("array assign element", [&] { l[el] = mk<T>(v); }, [&] { m[el] = v; }); } break;
			case 3: { T x = LIB(return mk<T>(v)); extra = tracked<T>; vint g = LIB(return l.IndexOf(KeyType<T>::GetKeyValue(x))); bool c = LIB(return l.Contains(KeyType<T>::GetKeyValue(x))); auto f = std::find(m.begin(), m.end(), v); SIM_CHECK(g == (f == m.end() ? -1 : f - m.begin()) && c == (f != m.end()), "wrong-result", "index of %d in %s is %lld, contained %d", v, show(m).c_str(), (long long)g, c); extra = 0; } break;
			case 4: { int j = 1 - i; if (sim::chance(1, 2)) mutate("array move-assign", [&] { l = std::move(k->a[j]); }, [&] { m = ma[j]; ma[j].clear(); }); else mutate("array move-construct", [&] { l.~Array<T>(); new(&l) Array<T>(std::move(k->a[j])); }, [&] { m = ma[j]; ma[j].clear(); }); } break;
			case 5: enumerate(l, m, "array"); break;
			case 6: switch (sim::choose(7)) { case 6: { int w = sim::choose(5); vint h = bad(0, n - 1); error("array position out of range", [&] { T x = mk<T>(v); const Array<T>& c = l; switch (w) { case 0: (void)c.Get(h); break; case 1: (void)c[h]; break; case 2: (void)l[h]; break; case 3: l.Set(h, (const T&)x); break; case 4: l.Set(h, std::move(x)); break; } }); } break; case 4: { vint h = huge(); error("array vast position", [&] { (void)l.Get(h); }); } break; case 5: impossible(l); break; case 0: error("array get past the end", [&] { (void)l.Get(n); }); break; case 1: error("array get before the start", [&] { (void)l[-1]; }); break; case 2: error("array set past the end", [&] { l.Set(n, mk<T>(v)); }); break; case 3: error("array negative size", [&] { l.Resize(-1); }); break; } break;
			case 7: // construct from memory
				{ auto& src = k->l[i]; vint c = (vint)ml[i].size(); if (!c) break; std::vector<int> want = ml[i]; mutate("array from memory", [&] { Array<T> x(&src[0], c); l = std::move(x); }, [&] { m = want; }); } break;
			case 8: { int c = (int)sim::choose(6); mutate("array of default elements", [&] { Array<T> x(c); for (vint y = 0; y < c; y++) if (blank<T>) x[y] = mk<T>(0); l = std::move(x); }, [&] { m.assign(c, 0); }); } break;
			}
		}
		// copying whole containers: a sequence of single operations
		template<class D, class S> void copy(const char* what, D& d, std::vector<int>& md, S& s, std::vector<int>& mv, bool sorted, bool arr)
		{
			bool append = md.size() + mv.size() < 20 && sim::chance(1, 2); bool self = (void*)&d == (void*)&s;
			std::vector<int> want = append ? md : std::vector<int>(); std::vector<int> add = mv;
			if (self && !append && !arr) return;	// replacing a list by itself is not specified
			want.insert(want.end(), add.begin(), add.end()); if (sorted) std::sort(want.begin(), want.end());
			sim::log("copy %s%s%s", what, append ? " appending" : "", self ? " itself" : "");
			LIB(CopyFrom(d, s, append)); md = want; verify();
		}
		void one_op()
		{
			switch (sim::pick({ 10, 7, 5, 3 }))
			{
			case 0: list_op(); break;
			case 1: sorted_op(); break;
			case 2: array_op(); break;
			case 3:
				{
					int i = sim::choose(2), j = sim::choose(2);
					switch (sim::choose(6))
					{
					case 0: copy("list to list", k->l[i], ml[i], k->l[j], ml[j], false, false); break;
					case 1: copy("list to array", k->a[i], ma[i], k->l[j], ml[j], false, true); break;
					case 2: copy("array to array", k->a[i], ma[i], k->a[j], ma[j], false, true); break;
					case 3: copy("array to sorted", k->s[i], ms[i], k->a[j], ma[j], true, false); break;
					case 4: copy("list to sorted", k->s[i], ms[i], k->l[j], ml[j], true, false); break;
					case 5: copy("sorted to list", k->l[i], ml[i], k->s[j], ms[j], false, false); break;
					}
				} break;
			}
		}
		void run()
		{
			k = LIB(return sim::make<Slots>()); big = sim::chance(1, 5); vast = big && sim::chance(1, 24); if (vast) sim::probe("huge");
			verify();
			if (sim::ops(40, 16, [&] { one_op(); }) > 2) sim::nontrivial();
			LIB(k->~Slots());
			if (tracked<T>) SIM_CHECK(ledger.alive == 0, "lifetime", "%ld elements were never destroyed", ledger.alive);
			sim::check_no_leaks("end of run");
		}
	};

	// containers owned by elements of containers: contents are moved up from inside an element that is released by it
	struct Node { Elem e; List<Ptr<Node>> l; Array<Ptr<Node>> a; Node(int v) : e(v) {} };
	HARNESS long model_nodes;
	struct MNode { int v; std::vector<std::shared_ptr<MNode>> l, a; MNode(int _v) : v(_v) { model_nodes++; } ~MNode() { model_nodes--; } };
	typedef std::vector<std::shared_ptr<MNode>> MV;
	struct Forest
	{
		Node* root; std::shared_ptr<MNode> mroot; int next = 0;
		void dump(const Node& n, std::string& s) { s += std::to_string(val(n.e)); vint c = LIB(return n.l.Count()); s += "("; for (vint i = 0; i < c; i++) { const Node* x = LIB(return n.l[i].Obj()); if (x) dump(*x, s); else s += "-"; s += " "; } s += "|"; c = LIB(return n.a.Count()); for (vint i = 0; i < c; i++) { const Node* x = LIB(return n.a[i].Obj()); if (x) dump(*x, s); else s += "-"; s += " "; } s += ")"; }
		void dump(const MNode& n, std::string& s) { s += std::to_string(n.v) + "("; for (auto& x : n.l) { if (x) dump(*x, s); else s += "-"; s += " "; } s += "|"; for (auto& x : n.a) { if (x) dump(*x, s); else s += "-"; s += " "; } s += ")"; }
		void verify() { std::string g, w; dump(*root, g); dump(*mroot, w); SIM_CHECK(g == w, "wrong-contents", "the nested containers hold %s, should hold %s", g.c_str(), w.c_str()); SIM_CHECK(ledger.alive == model_nodes, "lifetime", "%ld elements are alive, %ld should be", ledger.alive, model_nodes); }
		void walk(Node*& n, std::shared_ptr<MNode>& m) { n = root; m = mroot; for (int d = 0; d < 3 && sim::chance(1, 2); d++) { size_t c = m->l.size() + m->a.size(); if (!c) return; size_t i = sim::choose((uint32_t)c); std::shared_ptr<MNode> x = i < m->l.size() ? m->l[i] : m->a[i - m->l.size()]; if (!x) return; n = LIB(return i < m->l.size() ? n->l[i].Obj() : n->a[i - m->l.size()].Obj()); m = x; } }
		void one_op()
		{
			Node* n; std::shared_ptr<MNode> m; walk(n, m); vint nl = (vint)m->l.size(), na = (vint)m->a.size(); vint i = nl ? (vint)sim::choose((uint32_t)nl) : 0, j = na ? (vint)sim::choose((uint32_t)na) : 0; int v = ++next;
			switch (sim::pick({ 6, 4, 4, 4, 2, 2, 2, 2 }))
			{
			case 0: if (nl < 4) { sim::log("add a child to list of %d", m->v); LIB(n->l.Add(Ptr(new Node(v)))); m->l.push_back(std::make_shared<MNode>(v)); } break;
			case 1: if (na < 4) { sim::log("add a child to array of %d", m->v); LIB(n->a.Resize(na + 1); n->a[na] = Ptr(new Node(v))); m->a.push_back(std::make_shared<MNode>(v)); } break;
			case 2: if (nl && m->l[i]) { sim::log("list of %d takes the list of its element %lld", m->v, (long long)i); sim::probe("moved_from_inside"); LIB(n->l = std::move(n->l[i]->l)); MV t = m->l[i]->l; m->l[i]->l.clear(); m->l = t; } break;
			case 3: if (na && m->a[j]) { sim::log("array of %d takes the array of its element %lld", m->v, (long long)j); sim::probe("moved_from_inside"); LIB(n->a = std::move(n->a[j]->a)); MV t = m->a[j]->a; m->a[j]->a.clear(); m->a = t; } break;
			case 4: sim::log("clear list of %d", m->v); LIB(n->l.Clear()); { MV t; t.swap(m->l); } break;
			case 5: if (nl) { sim::log("remove from list of %d", m->v); LIB(n->l.RemoveAt(i)); m->l.erase(m->l.begin() + i); } break;
			case 6: if (nl && m->l[i] && m->l[i]->l.size()) { sim::log("replace an element of %d by its first child", m->v); LIB(n->l.Set(i, (const Ptr<Node>&)n->l[i]->l[0])); auto t = m->l[i]->l[0]; m->l[i] = t; } break;
			case 7: if (na) { sim::log("shrink array of %d", m->v); LIB(n->a.Resize(j)); m->a.resize(j); } break;
			}
			verify();
		}
		void run()
		{
			model_nodes = 0; root = LIB(return new Node(0)); mroot = std::make_shared<MNode>(0); verify();
			if (sim::ops(40, 16, [&] { one_op(); }) > 2) sim::nontrivial();
			LIB(delete root); mroot = nullptr; SIM_CHECK(ledger.alive == 0, "lifetime", "%ld elements were never destroyed", ledger.alive);
			sim::check_no_leaks("end of run");
		}
	};
}
namespace
{
	// more elements than 16 bits can count: the operations that take no search
	template<class T> void vast()
	{
		int n = vast_size(), add = (int)sim::choose(40); Bulk r; sim::log("%d elements", n); sim::probe("vast"); std::vector<int> m; struct Both { List<T> l; Array<T> a; }; Both* x = LIB(return sim::make<Both>());
		auto same = [&](const ArrayBase<T>& c, const char* what) { vint k = LIB(return c.Count()); SIM_CHECK(k == (vint)m.size(), "wrong-contents", "%s holds %lld of %zu elements", what, (long long)k, m.size()); for (vint i = 0; i < k; i++) { int v = LIB(return val(c[i])); SIM_CHECK(v == m[i], "wrong-contents", "%s holds %d at %lld of %lld, should hold %d", what, v, (long long)i, (long long)k, m[i]); } };
		for (int i = 0; i < n; i++) { int v = (int)r(100); m.push_back(v); LIB(x->l.Add(mk<T>(v))); } same(x->l, "list"); LIB(x->a.Resize(n); for (int i = 0; i < n; i++) x->a[i] = mk<T>(m[i])); same(x->a, "array");
		{ int v = 101; LIB(x->l.Insert(n - add, mk<T>(v))); m.insert(m.end() - add, v); vint at = LIB(return x->l.IndexOf(mk<T>(v))); SIM_CHECK(at == n - add, "wrong-result", "the element inserted at %d is found at %lld", n - add, (long long)at); same(x->l, "list"); LIB(x->l.RemoveAt(n - add)); m.erase(m.end() - add - 1); same(x->l, "list"); }
		if (sim::chance(1, 2)) { LIB(x->a.Resize(n + 50); for (int i = n; i < n + 50; i++) x->a[i] = mk<T>(5)); m.resize(n + 50, 5); same(x->a, "longer array"); } else { LIB(x->l.RemoveRange(3, n - add - 3)); m.erase(m.begin() + 3, m.end() - add); same(x->l, "list after a removal"); }
		LIB(sim::unmake(x)); SIM_CHECK(ledger.alive == 0, "lifetime", "%ld elements were never destroyed", ledger.alive); sim::nontrivial(); sim::check_no_leaks("end of run");
	}
	// many elements, no failures: every operation against the model
	template<class T> void large()
	{
		int n = std::min(large_size(), std::is_same_v<T, Elem> ? 2000 : 6000); Bulk r; sim::log("%d elements", n); sim::probe("thousands"); std::vector<int> m, sm; const int range = 120;
		auto same = [&](const ArrayBase<T>& c, const std::vector<int>& w, const char* what) { vint k = LIB(return c.Count()); SIM_CHECK(k == (vint)w.size(), "wrong-contents", "%s holds %lld of %zu elements", what, (long long)k, w.size()); for (vint i = 0; i < k; i++) { int v = LIB(return val(c[i])); SIM_CHECK(v == w[i], "wrong-contents", "%s holds %d at %lld of %lld, should hold %d", what, v, (long long)i, (long long)k, w[i]); } };
		List<T>* l = LIB(return sim::make<List<T>>()); SortedList<T>* s = LIB(return sim::make<SortedList<T>>()); Array<T>* a = LIB(return sim::make<Array<T>>());
		for (int i = 0; i < n; i++) { int v = (int)r(range); if (r(8)) { LIB(l->Add(mk<T>(v))); m.push_back(v); } else { int at = (int)r((uint32_t)m.size() + 1); LIB(l->Insert(at, mk<T>(v))); m.insert(m.begin() + at, v); } }
		same(*l, m, "list");
		for (int i = 0; i < n / 8; i++) switch (r(5))
		{
		case 0: if (m.size()) { int at = (int)r((uint32_t)m.size()); LIB(l->RemoveAt(at)); m.erase(m.begin() + at); } break;
		case 1: if (m.size()) { int at = (int)r((uint32_t)m.size()), c = (int)r(std::min<uint32_t>(20, (uint32_t)m.size() - at)); LIB(l->RemoveRange(at, c)); m.erase(m.begin() + at, m.begin() + at + c); } break;
		case 2: if (m.size()) { int at = (int)r((uint32_t)m.size()), v = (int)r(range); LIB(l->Set(at, mk<T>(v))); m[at] = v; } break;
		case 3: { int v = (int)r(range * 2 - 1) % 127; auto it = std::find(m.begin(), m.end(), v); vint g = LIB(return l->IndexOf(mk<T>(v))); SIM_CHECK(g == (it == m.end() ? -1 : it - m.begin()), "wrong-result", "searching %d among %zu elements yields %lld", v, m.size(), (long long)g); } break;
		case 4: if (m.size()) { int at = (int)r((uint32_t)m.size()), v = m[at]; LIB(l->Add(l->Get(at))); m.push_back(v); } break;
		}
		same(*l, m, "list");
		for (int i = 0; i < n; i++) { int v = (int)r(range); vint at = LIB(return s->Add(mk<T>(v))); SIM_CHECK(at >= 0 && at <= (vint)sm.size() && (at == 0 || sm[at - 1] <= v) && (at == (vint)sm.size() || sm[at] >= v), "wrong-result", "adding %d to %zu sorted elements puts it at %lld", v, sm.size(), (long long)at); sm.insert(sm.begin() + at, v); }
		same(*s, sm, "sorted list");
		for (int i = 0; i < n / 8; i++) { int v = (int)r(range + 6); bool in = std::binary_search(sm.begin(), sm.end(), v); vint g = LIB(return s->IndexOf(mk<T>(v))); SIM_CHECK(in == (g >= 0) && (!in || sm[g] == v), "wrong-result", "searching %d among %zu sorted elements yields %lld", v, sm.size(), (long long)g); if (in && r(2)) { bool b = LIB(return s->Remove(mk<T>(v))); SIM_CHECK(b, "wrong-result", "%d is not removed", v); sm.erase(std::lower_bound(sm.begin(), sm.end(), v)); } }
		same(*s, sm, "sorted list");
		LIB(a->Resize((vint)m.size())); for (size_t i = 0; i < m.size(); i++) LIB(a->Set((vint)i, mk<T>(m[i]))); same(*a, m, "array");
		size_t less = r((uint32_t)m.size() + 1); LIB(a->Resize((vint)less)); m.resize(less); same(*a, m, "shorter array"); size_t more = less + r(2000); LIB(a->Resize((vint)more); for (vint i = (vint)less; i < (vint)more; i++) a->Set(i, mk<T>(7))); m.resize(more, 7); same(*a, m, "longer array");
		LIB(sim::unmake(l); sim::unmake(s); sim::unmake(a)); SIM_CHECK(ledger.alive == 0, "lifetime", "%ld elements were never destroyed", ledger.alive);
		sim::nontrivial(); sim::check_no_leaks("end of run");
	}
}
void sim_scenario()
{
	common::reset();
	if (sim::chance(1, 25000)) { if (sim::chance(1, 3)) vast<vuint8_t>(); else if (sim::chance(1, 2)) vast<vint>(); else vast<Elem>(); return; }
	if (sim::chance(1, 1500)) { switch (sim::choose(3)) { case 0: large<vint>(); break; case 1: large<vuint8_t>(); break; case 2: large<Elem>(); break; } return; }
	switch (sim::pick({ 6, 2, 2, 2, 2, 1, 1, 1, 1 }))
	{
	case 5: { World<Init> w; w.run(); } break;
	case 6: { World<Self> w; w.run(); } break;
	case 7: { World<Count> w; w.run(); } break;
	case 8: { World<vuint8_t> w; w.run(); } break;
	case 4: { World<KElem> w; w.run(); } break;
	case 3: { Forest f; f.run(); } break;
	case 0: { World<Elem> w; w.run(); } break;
	case 1: { World<vint> w; w.run(); } break;
	case 2: { World<Triv> w; w.run(); } break;
	}
}

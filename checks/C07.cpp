// C07: Dictionary and Group against ordered maps, with failing allocations and element copies.
#include "common.h"
#include "Source/Collections/Dictionary.h"
#include "Source/Collections/OperationCopyFrom.h"
#include "pool.h"
#include <memory>
using namespace vl;
using namespace vl::collections;
using namespace common;
COMMON_STATE
const char* const sim_property = "C07";

namespace
{
	using pool::Item;
	template<class T> T mk(int v); template<> Elem mk<Elem>(int v) { return Elem(v); } template<> vint mk<vint>(int v) { return v; }
	template<> Ptr<Item> mk<Ptr<Item>>(int v) { return pool::pointer(v); } template<> WString mk<WString>(int v) { return pool::text(v); }
	int val(const Ptr<Item>& p) { return pool::number(p); } int val(const WString& w) { return pool::number(w); }
	template<class T> decltype(auto) key(const T& t) { return KeyType<T>::GetKeyValue(t); }
	int val(const Elem& e) { sim::Har h; e.rd(); return e.value; } int val(const vint& v) { return (int)v; }
	using MD = std::map<int, int>; using MG = std::map<int, std::vector<int>>;
	using Flat = std::vector<std::pair<int, int>>;
	Flat flat(const MD& m) { return Flat(m.begin(), m.end()); }
	Flat flat(const MG& m) { Flat f; for (auto& [k, v] : m) for (int x : v) f.push_back({ k, x }); return f; }
	std::string show(const Flat& f) { std::string s = "{"; for (auto& [k, v] : f) s += std::to_string(k) + ":" + std::to_string(v) + " "; return s + "}"; }

	template<class K, class V> struct World
	{
		static constexpr bool pk = std::is_same_v<K, Ptr<Item>>, pv = std::is_same_v<V, Ptr<Item>>, tk = std::is_same_v<K, Elem> || pk, tv = std::is_same_v<V, Elem> || pv;
		static long alive() { return ledger.alive + (pk || pv ? pool::held() : 0); }
		using D = Dictionary<K, V>; using G = Group<K, V>; using KV = Pair<const K&, const V&>;
		struct Slots { D d[2]; G g[2]; };
		Slots* s; MD md[2]; MG mg[2]; long extra = 0; bool big = false, huge = false;

		void verify()
		{
			long total = extra;
			for (int i = 0; i < 2; i++)
			{
				D& d = s->d[i]; Flat got; vint n = LIB(return d.Count()), nk = LIB(return d.Keys().Count()), nv = LIB(return d.Values().Count());
				SIM_CHECK(n == nk && nk == nv, "unpaired", "dictionary %d has %lld keys and %lld values, and says it holds %lld", i, (long long)nk, (long long)nv, (long long)n);
				for (vint x = 0; x < n; x++) got.push_back({ LIB(return val(d.Keys().Get(x))), LIB(return val(d.Values().Get(x))) });
				SIM_CHECK(got == flat(md[i]), "wrong-contents", "dictionary %d holds %s, should hold %s", i, show(got).c_str(), show(flat(md[i])).c_str());
				total += n * (tk + tv);
				G& g = s->g[i]; Flat gg; n = LIB(return g.Count());
				for (vint x = 0; x < n; x++)
				{
					int k = LIB(return val(g.Keys().Get(x))); const List<V>& l = LIB(return g.GetByIndex(x)); vint c = LIB(return l.Count());
					SIM_CHECK(c > 0, "unpaired", "group %d keeps key %d without a value", i, k);
					for (vint y = 0; y < c; y++) gg.push_back({ k, LIB(return val(l.Get(y))) });
					total += tk + tv * c;
				}
				SIM_CHECK(n == (vint)mg[i].size() && gg == flat(mg[i]), "wrong-contents", "group %d holds %s under %lld keys, should hold %s", i, show(gg).c_str(), (long long)n, show(flat(mg[i])).c_str());
			}
			if (tk || tv) SIM_CHECK(alive() == total, "lifetime", "%ld elements are alive, but the containers hold %ld", alive(), total);
		}
		template<class F, class M> bool mutate(const char* what, F f, M m)
		{
			int fault = (int)sim::pick({ 6, 3, 3, 1 }); if (fault >= 2 && !(tk && !pk) && !(tv && !pv)) fault = 1;
			uint64_t n = fault ? sim::choose(4) : 0;
			sim::log("%s%s", what, fault == 1 ? " (allocation may fail)" : fault == 2 ? " (element copy may throw)" : fault == 3 ? " (element comparison may throw)" : "");
			if (fault == 1) sim::fail_alloc_after(n); else if (fault == 2) elem_copy_fail() = (long)n; else if (fault == 3) elem_cmp_fail() = (long)n;
			bool threw = false, oom = false;
			try { sim::Lib l; f(); } catch (const std::bad_alloc&) { threw = oom = true; } catch (const ElemThrow&) { threw = true; }
			bool fired = fault == 1 ? sim::clear_alloc_faults() > 0 : fault == 2 ? elem_copy_fail() < 0 : fault == 3 ? elem_cmp_fail() < 0 : false; elem_copy_fail() = elem_cmp_fail() = -1;
			if (threw) SIM_CHECK(fired && oom == (fault == 1), "wrong-result", "%s throws although nothing failed", what); else m();
			verify();
			return !threw;
		}
		template<class F> void error(const char* what, F f)
		{
			sim::log("%s", what); bool e = false; try { sim::Lib l; f(); } catch (const Error&) { e = true; }
			SIM_CHECK(e, "wrong-result", "%s is accepted", what); sim::probe("refused"); verify();
		}
		// enumerate with a clone taken somewhere and a restart
		template<class C> void enumerate(C& c, const Flat& m, const char* what)
		{
			sim::log("enumerate %s", what);
			IEnumerator<KV>* e = LIB(return c.CreateEnumerator()); IEnumerator<KV>* cl = nullptr; size_t i = 0, ci = 0, stop = sim::choose((uint32_t)m.size() + 2);
			auto at = [&](IEnumerator<KV>* x, size_t pos, const char* who)
			{
				std::pair<int, int> g = { LIB(return val(x->Current().key)), LIB(return val(x->Current().value)) }; vint ix = LIB(return x->Index());
				SIM_CHECK(pos < m.size() && g == m[pos] && ix == (vint)pos, "wrong-result", "%s: %s yields %d:%d as element %lld, at position %zu of %s", what, who, g.first, g.second, (long long)ix, pos, show(m).c_str());
			};
			auto rest = [&](IEnumerator<KV>* x, size_t from, const char* who) { while (LIB(return x->Next())) { at(x, from, who); from++; } SIM_CHECK(from == m.size(), "wrong-result", "%s: %s ends after %zu of %zu", what, who, from, m.size()); SIM_CHECK(!LIB(return x->Next()), "wrong-result", "%s: %s continues after its end", what, who); };
			while (true)
			{
				if (i == stop) { cl = LIB(return e->Clone()); ci = i; if (i > 0) at(cl, i - 1, "a clone"); if (sim::chance(1, 2)) break; }
				if (!LIB(return e->Next())) break;
				at(e, i, "the enumeration"); i++;
			}
			if (cl && sim::chance(1, 2)) { rest(cl, ci, "a clone"); LIB(delete cl); cl = nullptr; }
			LIB(e->Reset()); rest(e, 0, "a restarted enumeration");
			if (cl) { rest(cl, ci, "a clone"); LIB(delete cl); }
			LIB(delete e); verify();
		}
		void dict_op()
		{
			int i = sim::choose(2), j = 1 - i; D& d = s->d[i]; MD& m = md[i]; int k = sim::choose(huge ? 400 : big ? 70 : 6), v = sim::choose(6); bool has = m.count(k); bool r = false;
			int own = -1; if (!m.empty()) { auto it = m.begin(); std::advance(it, sim::choose((uint32_t)m.size())); own = it->first; }
			K kk = LIB(return mk<K>(k)); V vv = LIB(return mk<V>(v)); extra = tk + tv;
			auto yes = [&](const char* w, bool e) { SIM_CHECK(r == e, "wrong-result", "%s returns %d", w, r); };
			int form = sim::choose(5);
			switch (sim::pick({ 8, 6, 4, 4, 2, 3, 2, 2, 3, 2, 2, big ? 8u : 0u }))
			{
			case 0:
				if (has) { error("dictionary add existing", [&] { switch (form) { case 0: d.Add((const K&)kk, (const V&)vv); break; case 1: d.Add((const K&)kk, std::move(vv)); break; case 2: d.Add(mk<K>(k), (const V&)vv); break; case 3: d.Add(mk<K>(k), mk<V>(v)); break; case 4: d.Add(Pair<K, V>(mk<K>(k), mk<V>(v))); break; } }); break; }
				if (mutate("dictionary add", [&] { switch (form) { case 0: r = d.Add((const K&)kk, (const V&)vv); break; case 1: r = d.Add((const K&)kk, mk<V>(v)); break; case 2: r = d.Add(mk<K>(k), (const V&)vv); break; case 3: r = d.Add(mk<K>(k), mk<V>(v)); break; case 4: { const Pair<K, V> p(mk<K>(k), mk<V>(v)); if (sim::chance(1, 2)) r = d.Add(p); else r = d.Add(Pair<K, V>(p)); } break; } }, [&] { m[k] = v; })) yes("add", true);
				break;
			case 1: if (mutate("dictionary set", [&] { switch (form) { case 0: case 4: r = d.Set((const K&)kk, (const V&)vv); break; case 1: r = d.Set((const K&)kk, mk<V>(v)); break; case 2: r = d.Set(mk<K>(k), (const V&)vv); break; case 3: r = d.Set(mk<K>(k), mk<V>(v)); break; } }, [&] { m[k] = v; })) yes("set", true); break;
			case 2: if (mutate("dictionary remove", [&] { r = d.Remove(key(kk)); }, [&] { m.erase(k); })) yes("remove", has); break;
			case 3:
				if (has) { int g = LIB(return val(d.Get(key(kk)))), h = LIB(return val(d[key(kk)])); SIM_CHECK(g == m[k] && h == g, "wrong-result", "get %d yields %d and %d", k, g, h); }
				else error("dictionary get missing", [&] { if (form & 1) (void)d.Get(key(kk)); else (void)d[key(kk)]; });
				break;
			case 4: if (mutate("dictionary clear", [&] { r = d.Clear(); }, [&] { m.clear(); })) yes("clear", true); break;
			case 5: enumerate(d, flat(m), "dictionary"); break;
			case 6: if (form & 1) mutate("dictionary move-assign", [&] { d = std::move(s->d[j]); }, [&] { m = md[j]; md[j].clear(); }); else mutate("dictionary move-construct", [&] { d.~D(); new(&d) D(std::move(s->d[j])); }, [&] { m = md[j]; md[j].clear(); }); break;
			case 7: if (own >= 0) { K ok = LIB(return mk<K>(own)); extra += tk; if (form & 1) mutate("dictionary set from own value", [&] { d.Set((const K&)kk, (const V&)d.Get(key(ok))); }, [&] { int x = m[own]; m[k] = x; }); else if (!has) mutate("dictionary add own value", [&] { d.Add((const K&)kk, d.Get(key(ok))); }, [&] { int x = m[own]; m[k] = x; }); } break;
			case 8: if (own >= 0) { vint x = std::distance(m.begin(), m.find(own)); if (mutate("dictionary remove own key", [&] { r = d.Remove(key(d.Keys().Get(x))); }, [&] { m.erase(own); })) yes("remove", true); } break;
			case 9: { bool append = form & 1; sim::log("dictionary copy%s", append ? " appending" : ""); LIB(CopyFrom(d, s->d[j], append)); if (!append) m.clear(); for (auto& [a, b] : md[j]) m[a] = b; verify(); } break;
			case 11: { int n = huge ? 200 + (int)sim::choose(200) : 10 + (int)sim::choose(30); sim::log("dictionary set %d keys", n); sim::probe("bulk"); for (int x = 0; x < n; x++) { int a = (int)sim::choose(huge ? 400 : 70), b = (int)sim::choose(9); LIB(d.Set(mk<K>(a), mk<V>(b))); m[a] = b; } verify(); } break;
			case 10: { vint g = LIB(return d.Keys().IndexOf(key(kk))); bool c = LIB(return d.Keys().Contains(key(kk))); SIM_CHECK(c == has && (g != -1) == has, "wrong-result", "key %d: index %lld, contained %d", k, (long long)g, c); } break;
			}
			extra = 0;
		}
		void group_op()
		{
			int i = sim::choose(2), j = 1 - i; G& g = s->g[i]; MG& m = mg[i]; int k = sim::choose(huge ? 300 : big ? 40 : 4), v = sim::choose(5); bool has = m.count(k); bool r = false; int form = sim::choose(5);
			bool hv = has && std::find(m[k].begin(), m[k].end(), v) != m[k].end();
			K kk = LIB(return mk<K>(k)); V vv = LIB(return mk<V>(v)); extra = tk + tv;
			auto yes = [&](const char* w, bool e) { SIM_CHECK(r == e, "wrong-result", "%s returns %d", w, r); };
			switch (sim::pick({ 10, 5, 3, 4, 2, 3, 2, 3, 2, big ? 8u : 0u }))
			{
			case 0: if (mutate("group add", [&] { switch (form) { case 0: r = g.Add((const K&)kk, (const V&)vv); break; case 1: r = g.Add((const K&)kk, mk<V>(v)); break; case 2: r = g.Add(mk<K>(k), (const V&)vv); break; case 3: r = g.Add(mk<K>(k), mk<V>(v)); break; case 4: { const Pair<K, V> p(mk<K>(k), mk<V>(v)); if (sim::chance(1, 2)) r = g.Add(p); else r = g.Add(Pair<K, V>(p)); } break; } }, [&] { m[k].push_back(v); })) yes("add", true); break;
			case 9: { int n = huge ? 200 + (int)sim::choose(200) : 10 + (int)sim::choose(30); bool one = sim::chance(1, 2); size_t t = flat(m).size(); if (t > (huge ? 500 : 120)) break; sim::log("group add %d values", n); sim::probe("bulk"); for (int x = 0; x < n; x++) { int a = one ? k : (int)sim::choose(huge ? 300 : 40), b = (int)sim::choose(9); LIB(g.Add(mk<K>(a), mk<V>(b))); m[a].push_back(b); } verify(); } break;
			case 1: if (mutate("group remove value", [&] { r = g.Remove(key(kk), key(vv)); }, [&] { if (!hv) return; auto& l = m[k]; l.erase(std::find(l.begin(), l.end(), v)); if (l.empty()) m.erase(k); })) yes("remove value", hv); break;
			case 2: if (mutate("group remove key", [&] { r = g.Remove(key(kk)); }, [&] { m.erase(k); })) yes("remove key", has); break;
			case 3:
				{
					bool c = LIB(return g.Contains(key(kk))), cv = LIB(return g.Contains(key(kk), key(vv))); SIM_CHECK(c == has && cv == hv, "wrong-result", "contains %d: %d, contains %d:%d: %d", k, c, k, v, cv);
					if (has) { vint n = LIB(return form & 1 ? g.Get(key(kk)).Count() : g[key(kk)].Count()); SIM_CHECK(n == (vint)m[k].size(), "wrong-result", "get %d yields %lld values", k, (long long)n); int first = LIB(return val(g[key(kk)].Get(0))); SIM_CHECK(first == m[k][0], "wrong-result", "get %d starts with %d", k, first); }
					else error("group get missing", [&] { if (form & 1) (void)g.Get(key(kk)); else (void)g[key(kk)]; });
				} break;
			case 4: if (mutate("group clear", [&] { r = g.Clear(); }, [&] { m.clear(); })) yes("clear", true); break;
			case 5: enumerate(g, flat(m), "group"); break;
			case 6: if (form & 1) mutate("group move-assign", [&] { g = std::move(s->g[j]); }, [&] { m = mg[j]; mg[j].clear(); }); else mutate("group move-construct", [&] { g.~G(); new(&g) G(std::move(s->g[j])); }, [&] { m = mg[j]; mg[j].clear(); }); break;
			case 7: if (has) { vint x = std::distance(m.begin(), m.find(k)); vint y = sim::choose((uint32_t)m[k].size()); switch (form) { case 0: case 1: { int w = m[k][y]; if (mutate("group remove own value", [&] { r = g.Remove(key(g.Keys().Get(x)), key(g.GetByIndex(x).Get(y))); }, [&] { auto& l = m[k]; l.erase(std::find(l.begin(), l.end(), w)); if (l.empty()) m.erase(k); })) yes("remove value", true); } break; case 2: if (mutate("group remove own key", [&] { r = g.Remove(key(g.Keys().Get(x))); }, [&] { m.erase(k); })) yes("remove key", true); break; default: if (mutate("group add own value", [&] { r = g.Add(g.Keys().Get(x), g.GetByIndex(x).Get(y)); }, [&] { int w = m[k][y]; m[k].push_back(w); })) yes("add", true); } } break;
			case 8:
				{ // join two groups
					sim::log("group join"); std::vector<std::string> got, want; G& h = s->g[j];
					auto rec = [&](char c, const K& a, auto&... l) { sim::Har har; std::string t(1, c); t += std::to_string(val(a)); ((t += "/" + std::to_string(l.Count())), ...); got.push_back(t); };
					LIB(GroupInnerJoin(g, h, [&](const K& a, const List<V>& l) { rec('1', a, l); }, [&](const K& a, const List<V>& l) { rec('2', a, l); }, [&](const K& a, const List<V>& l1, const List<V>& l2) { rec('b', a, l1, l2); }));
					std::set<int> keys; for (auto& x : m) keys.insert(x.first); for (auto& x : mg[j]) keys.insert(x.first);
					for (int a : keys) { bool p = m.count(a), q = mg[j].count(a); std::string t = p && q ? "b" : p ? "1" : "2"; t += std::to_string(a); if (p) t += "/" + std::to_string(m[a].size()); if (q) t += "/" + std::to_string(mg[j][a].size()); want.push_back(t); }
					SIM_CHECK(got == want, "wrong-result", "the join of two groups is wrong (%zu callbacks, should be %zu)", got.size(), want.size()); verify();
				} break;
			}
			extra = 0;
		}
		void run()
		{
			s = LIB(return sim::make<Slots>()); big = sim::chance(1, 6); huge = big && sim::chance(1, 24); if (huge) sim::probe("huge"); verify();
			if (sim::ops(40, 16, [&] { if (sim::chance(1, 2)) group_op(); else dict_op(); }) > 2) sim::nontrivial();
			LIB(s->~Slots());
			SIM_CHECK(alive() == 0, "lifetime", "%ld elements were never destroyed", alive());
			sim::check_no_leaks("end of run");
		}
	};

	// containers owned by values of containers: contents are moved up from inside a value that is released by it
	struct Node { Elem e; Dictionary<vint, Ptr<Node>> d; Group<vint, Ptr<Node>> g; Node(int v) : e(v) {} };
	HARNESS long model_nodes; struct MNode; typedef std::shared_ptr<MNode> MP;
	struct MNode { int v; std::map<int, MP> d; std::map<int, std::vector<MP>> g; MNode(int _v) : v(_v) { model_nodes++; } ~MNode() { model_nodes--; } };
	struct Forest
	{
		Node* root; MP mroot; int next = 0;
		void dump(const Node& n, std::string& s)
		{
			s += std::to_string(val(n.e)) + "("; vint c = LIB(return n.d.Count()); for (vint i = 0; i < c; i++) { vint k = LIB(return n.d.Keys()[i]); const Node* x = LIB(return n.d.Values()[i].Obj()); s += std::to_string(k) + ":"; dump(*x, s); s += " "; } s += "|";
			c = LIB(return n.g.Count()); for (vint i = 0; i < c; i++) { vint k = LIB(return n.g.Keys()[i]); s += std::to_string(k) + ":"; vint z = LIB(return n.g.GetByIndex(i).Count()); for (vint j = 0; j < z; j++) { const Node* x = LIB(return n.g.GetByIndex(i)[j].Obj()); dump(*x, s); s += " "; } } s += ")";
		}
		void dump(const MNode& n, std::string& s) { s += std::to_string(n.v) + "("; for (auto& [k, x] : n.d) { s += std::to_string(k) + ":"; dump(*x, s); s += " "; } s += "|"; for (auto& [k, l] : n.g) { s += std::to_string(k) + ":"; for (auto& x : l) { dump(*x, s); s += " "; } } s += ")"; }
		void verify() { std::string g, w; dump(*root, g); dump(*mroot, w); SIM_CHECK(g == w, "wrong-contents", "the nested containers hold %s, should hold %s", g.c_str(), w.c_str()); SIM_CHECK(ledger.alive == model_nodes, "lifetime", "%ld elements are alive, %ld should be", ledger.alive, model_nodes); }
		template<class C> auto any(C& c) { auto it = c.begin(); std::advance(it, sim::choose((uint32_t)c.size())); return it; }
		void walk(Node*& n, MP& m) { n = root; m = mroot; for (int d = 0; d < 3 && sim::chance(1, 2); d++) { bool dict = sim::chance(1, 2); if (dict ? m->d.empty() : m->g.empty()) return; if (dict) { auto it = any(m->d); vint k = it->first; n = LIB(return n->d[k].Obj()); m = MP(it->second); } else { auto it = any(m->g); vint k = it->first; size_t i = sim::choose((uint32_t)it->second.size()); n = LIB(return n->g[k][i].Obj()); m = MP(it->second[i]); } } }
		void one_op()
		{
			Node* n; MP m; walk(n, m); int v = ++next; vint k = sim::choose(4);
			switch (sim::pick({ 6, 6, 4, 4, 2, 2, 2 }))
			{
			case 0: if (m->d.size() < 4) { sim::log("set %lld in the dictionary of %d", (long long)k, m->v); LIB(n->d.Set(k, Ptr(new Node(v)))); m->d[k] = std::make_shared<MNode>(v); } break;
			case 1: if (m->g.size() < 3) { sim::log("add %lld to the group of %d", (long long)k, m->v); LIB(n->g.Add(k, Ptr(new Node(v)))); m->g[k].push_back(std::make_shared<MNode>(v)); } break;
			case 2: if (m->d.size()) { auto it = any(m->d); vint x = it->first; sim::log("the dictionary of %d takes the one of its value %lld", m->v, (long long)x); sim::probe("moved_from_inside"); LIB(n->d = std::move(n->d[x]->d)); auto t = it->second->d; it->second->d.clear(); m->d = t; } break;
			case 3: if (m->g.size()) { auto it = any(m->g); vint x = it->first; size_t i = sim::choose((uint32_t)it->second.size()); sim::log("the group of %d takes the one of its value %lld", m->v, (long long)x); sim::probe("moved_from_inside"); LIB(n->g = std::move(n->g[x][i]->g)); auto t = it->second[i]->g; it->second[i]->g.clear(); m->g = t; } break;
			case 4: sim::log("clear the containers of %d", m->v); LIB(n->d.Clear(); n->g.Clear()); m->d.clear(); m->g.clear(); break;
			case 5: sim::log("remove %lld from the dictionary of %d", (long long)k, m->v); LIB(n->d.Remove(k)); m->d.erase((int)k); break;
			case 6: sim::log("remove %lld from the group of %d", (long long)k, m->v); LIB(n->g.Remove(k)); m->g.erase((int)k); break;
			}
			verify();
		}
		void run()
		{
			model_nodes = 0; root = LIB(return new Node(0)); mroot = std::make_shared<MNode>(0); verify();
			if (sim::ops(40, 16, [&] { one_op(); }) > 2) sim::nontrivial();
			LIB(delete root); mroot = nullptr; SIM_CHECK(ledger.alive == 0, "lifetime", "%ld elements were never destroyed", ledger.alive);
			sim::check_no_leaks("end of run");
		}
	};
}
namespace
{
	// many keys, no failures
	template<class K, class V> void large()
	{
		int n = std::min(large_size(), std::is_same_v<K, Elem> ? 2000 : 6000), range = sim::chance(1, 3) ? 50 : 2 * n; Bulk r; sim::log("%d keys or values", n); sim::probe("thousands"); MD m; MG g; auto k2 = [&] { int k = (int)r(range); return k % 2 ? -k : k; };
		Dictionary<K, V>* d = LIB(return sim::make<Dictionary<K, V>>()); Group<K, V>* q = LIB(return sim::make<Group<K, V>>());
		for (int i = 0; i < n; i++)
		{
			int k = k2(), v = (int)r(5);
			switch (r(6))
			{
			case 0: { bool had = m.count(k), b = LIB(return d->Remove(mk<K>(k))); SIM_CHECK(b == had, "wrong-result", "removing key %d of %zu keys yields %d", k, m.size(), b); m.erase(k); bool gh = g.count(k); b = LIB(return q->Remove(mk<K>(k))); SIM_CHECK(b == gh, "wrong-result", "removing key %d of a group of %zu keys yields %d", k, g.size(), b); g.erase(k); } break;
			case 1: { bool had = g.count(k) && std::find(g[k].begin(), g[k].end(), v) != g[k].end(), b = LIB(return q->Remove(mk<K>(k), mk<V>(v))); SIM_CHECK(b == had, "wrong-result", "removing a value of key %d yields %d", k, b); if (had) g[k].erase(std::find(g[k].begin(), g[k].end(), v)); if (g.count(k) && g[k].empty()) g.erase(k); } break;
			default: LIB(d->Set(mk<K>(k), mk<V>(v)); q->Add(mk<K>(k), mk<V>(v))); m[k] = v; g[k].push_back(v); break;
			}
			int p = k2(); bool c = LIB(return d->Keys().Contains(key(mk<K>(p)))); SIM_CHECK(c == (m.count(p) > 0), "wrong-result", "key %d of %zu keys is %sfound", p, m.size(), c ? "" : "not "); if (c) { int x = LIB(return val(d->Get(mk<K>(p)))); SIM_CHECK(x == m[p], "wrong-contents", "key %d of %zu keys holds %d, should hold %d", p, m.size(), x, m[p]); }
			c = LIB(return q->Contains(mk<K>(p))); SIM_CHECK(c == (g.count(p) > 0), "wrong-result", "key %d of a group is %sfound", p, c ? "" : "not "); if (c) { vint x = LIB(return q->Get(mk<K>(p)).Count()); SIM_CHECK(x == (vint)g[p].size(), "wrong-contents", "key %d of a group has %lld values", p, (long long)x); }
		}
		vint n2 = LIB(return d->Count()), n3 = LIB(return q->Count()); SIM_CHECK(n2 == (vint)m.size() && n3 == (vint)g.size(), "wrong-contents", "%lld and %lld keys, should be %zu and %zu", (long long)n2, (long long)n3, m.size(), g.size());
		auto it = m.begin(); for (vint i = 0; i < n2; i++, ++it) { int k, v; LIB(k = val(d->Keys()[i]); v = val(d->Values()[i])); SIM_CHECK(k == it->first && v == it->second, "wrong-contents", "pair %lld of %lld is (%d,%d), should be (%d,%d)", (long long)i, (long long)n2, k, v, it->first, it->second); }
		Flat want = flat(g), got; auto e = LIB(return Ptr(q->CreateEnumerator())); while (LIB(return e->Next())) { int k, v; LIB(k = val(e->Current().key); v = val(e->Current().value)); got.push_back({ k, v }); } LIB(e = nullptr); SIM_CHECK(got == want, "wrong-contents", "a group of %zu keys is enumerated wrong: %zu of %zu pairs", g.size(), got.size(), want.size());
		LIB(sim::unmake(d); sim::unmake(q)); SIM_CHECK(ledger.alive == 0, "lifetime", "%ld elements were never destroyed", ledger.alive); sim::nontrivial(); sim::check_no_leaks("end of run");
	}
}
void sim_scenario()
{
	common::reset();
	if (sim::chance(1, 1200)) { if (sim::chance(1, 2)) large<vint, vint>(); else large<Elem, vint>(); return; }
	switch (sim::pick({ 6, 2, 2, 2, 1, 1, 1 }))
	{
	case 4: case 5:
		{
			pool::fill();
			sim::probe("pointer_keys"); if (sim::chance(1, 2)) { World<Ptr<Item>, Ptr<Item>> w; w.run(); } else { World<WString, Ptr<Item>> w; w.run(); }
		} break;
	case 6: { World<WString, Elem> w; w.run(); } break;
	case 3: { Forest f; f.run(); } break;
	case 0: { World<Elem, Elem> w; w.run(); } break;
	case 1: { World<vint, Elem> w; w.run(); } break;
	case 2: { World<Elem, vint> w; w.run(); } break;
	}
}

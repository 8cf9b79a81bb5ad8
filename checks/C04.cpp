// C04: strings are immutable values although they share storage, also between threads.
#include "strings.h"
using namespace vl;
using namespace common;
using namespace strs;
COMMON_STATE
const char* const sim_property = "C04";

namespace
{
	template<class T, class T2> struct World
	{
		struct Slots { ObjectString<T> s[4]; ObjectString<T2> u[2]; };
		struct Thread { Slots* k; Model<T> m[4]; Model<T2> mu[2]; const T* buf[4] = {}; };
		static Model<T2> conv(const Model<T>& m) { Model<T2> r; for (T c : m) r.push_back((T2)c); return r; }
		static Model<T> back(const Model<T2>& m) { Model<T> r; for (T2 c : m) r.push_back((T)c); return r; }
		ObjectString<T>* box; Model<T> mbox; bool busy = false;

		void verify(Thread& t)
		{
			for (int i = 0; i < 4; i++) { check_contents(t.k->s[i], t.m[i], "own string"); if (t.buf[i]) check_buffer(t.buf[i], t.m[i], "buffer obtained earlier"); }
			for (int i = 0; i < 2; i++) check_contents(t.k->u[i], t.mu[i], "re-viewed string");
		}
		void one_op(Thread& t)
		{
			int a = sim::choose(4), b = sim::choose(4), c = sim::choose(2); auto* s = t.k->s; auto* u = t.k->u;
			switch (sim::pick({ 14, 4, 4, 5, 3, 3, 3, 3, 3, 2, 2, 2 }))
			{
			case 0:
				{
					auto o = gen_op<T>(s, t.m, 4); int how = sim::choose(3);
					sim::log("s%d = %s -> %s", a, o.name, o.error ? "error" : show(o.expect).c_str());
					bool err = false;
					t.buf[a] = nullptr;
					try { sim::Lib l; if (how == 0) s[a] = o.run(); else if (how == 1) { ObjectString<T> x(o.run()); s[a] = x; } else { ObjectString<T> x = o.run(); ObjectString<T> y(std::move(x)); s[a].~ObjectString<T>(); new(&s[a]) ObjectString<T>(y); } }
					catch (const Error&) { err = true; sim::probe("out_of_range"); }
					SIM_CHECK(err == o.error, "wrong-result", "%s %s", o.name, err ? "reports an error for good arguments" : "accepts arguments out of range");
					if (!err) t.m[a] = o.expect;
				} break;
			case 1: sim::log("s%d = s%d", a, b); if (a != b) t.buf[a] = nullptr; LIB(s[a] = s[b]); t.m[a] = t.m[b]; break;
			case 2:
				sim::log("s%d = move(s%d)", a, b);
				if (a == b) { auto& r = s[a]; LIB(s[b] = std::move(r)); break; }
				t.buf[a] = t.buf[b] = nullptr; if (sim::chance(1, 3)) LIB(ObjectString<T> x(std::move(s[b])); s[a] = x); else LIB(s[a] = std::move(s[b])); t.m[a] = t.m[b]; t.m[b].clear(); break;
			case 3: // the zero-terminated buffer
				{ const T* p = LIB(return s[a].Buffer()); sim::log("buffer of s%d %s", a, show(t.m[a]).c_str()); if (t.buf[a] && t.buf[a] != p) sim::log("(moved)"); check_buffer(p, t.m[a], "buffer"); if (t.buf[a]) check_buffer(t.buf[a], t.m[a], "buffer obtained earlier"); t.buf[a] = p; } break;
			case 4: // re-view as another character type and back
				sim::log("u%d = view of s%d", c, a); LIB(u[c] = ObjectString<T2>::UnsafeCastFrom(s[a])); t.mu[c] = conv(t.m[a]); sim::probe("reviewed"); break;
			case 5: sim::log("s%d = view of u%d", a, c); t.buf[a] = nullptr; LIB(s[a] = ObjectString<T>::UnsafeCastFrom(u[c])); t.m[a] = back(t.mu[c]); break;
			case 6: { const T2* p = LIB(return u[c].Buffer()); check_buffer(p, t.mu[c], "buffer of re-viewed string"); } break;
			case 7: // comparisons
				{
					int mc = t.m[a].compare(t.m[b]); mc = mc < 0 ? -1 : mc > 0 ? 1 : 0;
					auto r = LIB(return s[a] <=> s[b]); int lc = r < 0 ? -1 : r > 0 ? 1 : 0;
					SIM_CHECK(lc == mc, "wrong-result", "comparing %s with %s gives %d", show(t.m[a]).c_str(), show(t.m[b]).c_str(), lc);
					bool e = LIB(return s[a] == s[b]); SIM_CHECK(e == (mc == 0), "wrong-result", "equality of %s and %s", show(t.m[a]).c_str(), show(t.m[b]).c_str());
					if (t.m[a].size()) // one that differs in one character
					{
						auto z = t.m[a]; z[sim::choose((uint32_t)z.size())] = T('a' + sim::choose(3)); if (sim::chance(1, 4)) z.push_back(T('a')); Passing<T> r(z); int zc = t.m[a].compare(z); zc = zc < 0 ? -1 : zc > 0 ? 1 : 0; bool swap = sim::chance(1, 2);
						auto w = LIB(ObjectString<T> o = ObjectString<T>::CopyFrom(r.p, (vint)z.size()); return swap ? 0 <=> (o <=> s[a] < 0 ? -1 : o <=> s[a] > 0 ? 1 : 0) : s[a] <=> o); int wc = w < 0 ? -1 : w > 0 ? 1 : 0; SIM_CHECK(wc == zc, "wrong-result", "comparing %s with %s gives %d", show(t.m[a]).c_str(), show(z).c_str(), wc);
					}
					auto x = gen_text<T>(4); T* p = raw(x); int xc = t.m[a].compare(x); xc = xc < 0 ? -1 : xc > 0 ? 1 : 0; auto q = LIB(return s[a] <=> p); SIM_CHECK((q < 0 ? -1 : q > 0 ? 1 : 0) == xc, "wrong-result", "comparing %s with raw %s", show(t.m[a]).c_str(), show(x).c_str());
				} break;
			case 8: { T ch = T('a' + sim::choose(4)); vint i = LIB(return s[a].IndexOf(ch)); auto f = t.m[a].find(ch); SIM_CHECK(i == (f == Model<T>::npos ? -1 : (vint)f), "wrong-result", "searching %c in %s gives %lld", (char)ch, show(t.m[a]).c_str(), (long long)i); bool err = false; try { LIB((void)s[a][(vint)t.m[a].size()]); } catch (const Error&) { err = true; } SIM_CHECK(err, "wrong-result", "reading past the end is accepted"); } break;
			case 9: if ((int)(t.m[a].size() + t.m[b].size()) < limit()) { sim::log("s%d += s%d", a, b); t.buf[a] = nullptr; LIB(s[a] += s[b]); t.m[a] += Model<T>(t.m[b]); } break;
			case 11: // append raw text, perhaps a part of the string's own buffer
				if (2 * (int)t.m[a].size() < limit())
				{
					bool own = sim::chance(1, 2); auto x = gen_text<T>(); const T* p = nullptr; T* r = nullptr;
					if (own) { auto e = t.m[a].find(T(0)); vint i = (vint)sim::choose((uint32_t)t.m[a].size() + 1); x = e == Model<T>::npos ? t.m[a].substr(i) : Model<T>(); p = e == Model<T>::npos ? LIB(return s[a].Buffer() + i) : nullptr; }
					if (!p) p = r = raw(x);
					sim::log("s%d += raw %s", a, show(x).c_str()); t.buf[a] = nullptr; LIB(s[a] += p); t.m[a] += x; if (r) sim::heap_free(r);
				} break;
			case 10: // hand over between threads
				if (!busy && sim::thread_count() > 1)
				{
					busy = true; sim::sync_acquire(1); sim::probe("hand_over");
					if (sim::chance(1, 2)) { sim::log("put s%d", a); LIB(*box = s[a]); mbox = t.m[a]; } else { sim::log("take s%d", a); t.buf[a] = nullptr; LIB(s[a] = *box); t.m[a] = mbox; }
					sim::sync_release(1); busy = false;
				} break;
			}
			verify(t);
		}
		void drop(Thread& t) { for (int i = 0; i < 4; i++) { t.buf[i] = nullptr; LIB(t.k->s[i] = ObjectString<T>()); t.m[i].clear(); } for (int i = 0; i < 2; i++) { LIB(t.k->u[i] = ObjectString<T2>()); t.mu[i].clear(); } }
		// threads that hold the only parts left of one string give them up at the same time, each in its own way
		void duel()
		{
			auto text = gen_text<T>(longest()); while (text.size() < 4) text.push_back(T('c')); T* r = raw(text); int n = 2 + (int)sim::choose(3); sim::nontrivial(); sim::probe("duel");
			Thread main; main.k = LIB(return sim::make<Slots>()); LIB(main.k->s[0] = ObjectString<T>(r)); main.m[0] = text; std::vector<Thread> th(n);
			for (auto& t : th) { t.k = LIB(return sim::make<Slots>()); vint i = (vint)sim::choose(3), c = (vint)sim::choose((uint32_t)text.size() - (uint32_t)i) + 1; if (i + c == (vint)text.size() && sim::chance(2, 3)) c--; LIB(t.k->s[0] = main.k->s[0].Sub(i, c)); t.m[0] = text.substr(i, c); }
			drop(main); LIB(main.k->~Slots());
			for (auto& t : th) sim::spawn([this, &t]
			{
				int how = (int)sim::choose(6); sim::log("gives up way %d", how);
				switch (how)
				{
				case 0: case 1: { const T* p = LIB(return t.k->s[0].Buffer()); check_buffer(p, t.m[0], "buffer"); } break;
				case 2: LIB(t.k->s[0] = ObjectString<T>()); t.m[0].clear(); break;
				case 3: LIB(t.k->s[1] = std::move(t.k->s[0]); t.k->s[1] = ObjectString<T>()); t.m[0].clear(); break;
				case 4: LIB(t.k->u[0] = ObjectString<T2>::UnsafeCastFrom(t.k->s[0]); t.k->s[0] = ObjectString<T>()); t.mu[0] = conv(t.m[0]); t.m[0].clear(); break;
				case 5: LIB(t.k->s[0] = t.k->s[0] + t.k->s[0]); t.m[0] += Model<T>(t.m[0]); break;
				}
				verify(t);
			});
			sim::join_all();
			for (auto& t : th) { verify(t); drop(t); LIB(t.k->~Slots()); }
			check_contents(*box, mbox, "mailbox"); LIB(box->~ObjectString<T>());
			sim::check_no_leaks("end of run");
		}
		void run()
		{
			box = LIB(return sim::make<ObjectString<T>>());
			choose_lengths(); if (sim::chance(1, 4)) { duel(); return; }
			int threads = (int)sim::pick({ 3, 4, 4, 2 });
			Thread main; main.k = LIB(return sim::make<Slots>());
			int roots = 1 + sim::choose(3);
			for (int i = 0; i < roots; i++) { auto t = gen_text<T>(); T* r = raw(t); int k = sim::choose(3); LIB(if (k == 0) main.k->s[i] = ObjectString<T>(r); else if (k == 1) main.k->s[i] = ObjectString<T>::CopyFrom(r, (vint)t.size()); else main.k->s[i] = ObjectString<T>::Unmanaged(r)); main.m[i] = t; }
			std::vector<Thread> th(threads);
			for (auto& t : th)
			{
				t.k = LIB(return sim::make<Slots>());
				for (int i = 0; i < 3; i++) { int r = sim::choose(4); LIB(t.k->s[i] = main.k->s[r]); t.m[i] = main.m[r]; if (t.m[i].size() > 1 && sim::chance(1, 2)) { vint c = (vint)sim::choose((uint32_t)t.m[i].size()); LIB(t.k->s[i] = t.k->s[i].Left(c)); t.m[i] = t.m[i].substr(0, c); } }
			}
			if (sim::chance(1, 2)) drop(main);
			if (!threads) { if (sim::ops(50, 20, [&] { one_op(main); }) > 2) sim::nontrivial(); }
			else
			{
				if (threads > 1) sim::nontrivial();
				for (auto& t : th) sim::spawn([this, &t] { sim::ops(12, 5, [&] { one_op(t); }); if (sim::chance(2, 3)) drop(t); });
				sim::join_all();
			}
			for (auto& t : th) { verify(t); drop(t); LIB(t.k->~Slots()); }
			verify(main); drop(main); LIB(main.k->~Slots());
			check_contents(*box, mbox, "mailbox"); LIB(box->~ObjectString<T>());
			sim::check_no_leaks("end of run");
		}
	};
}
namespace
{
	// long texts
	template<class T> void long_text()
	{
		Bulk r; int n = sim::chance(1, 8) ? 65500 + (int)sim::choose(80) : large_size(); sim::log("%d characters", n); sim::probe("long_text"); typedef std::basic_string<T> M; typedef ObjectString<T> Str;
		auto gen = [&](int k) { M m; for (int i = 0; i < k; i++) m.push_back((T)('a' + r(3))); return m; }; struct Box { Str s[3]; }; Box* x = LIB(return sim::make<Box>()); M m[3];
		for (int i = 0; i < 3; i++) { m[i] = gen(i == 1 ? (int)r(40) : n); LIB(x->s[i] = Str::CopyFrom(m[i].data(), (vint)m[i].size())); } if (r(3) == 0) { m[2] = m[0]; LIB(x->s[2] = Str(m[0].c_str())); } else if (r(2)) { m[2] = m[0]; m[2][r(n)] ^= 1; LIB(x->s[2] = Str::CopyFrom(m[2].data(), n)); }
		auto same = [&](int i, const char* what) { M g; LIB(vint c = x->s[i].Length(); Str y = x->s[i]; const T* p = y.Buffer(); sim::touch_read(p, (c + 1) * sizeof(T)); sim::Har h; g.assign(p, p + c + 1)); SIM_CHECK(g.size() == m[i].size() + 1 && g.back() == 0, "wrong-buffer", "%s: %zu characters, should be %zu, or no zero at the end", what, g.size() - 1, m[i].size()); g.pop_back(); if (g != m[i]) { size_t at = 0; while (g[at] == m[i][at]) at++; sim::fail("wrong-contents", "%s: character %zu of %zu is %x, should be %x", what, at, g.size(), (unsigned)g[at], (unsigned)m[i][at]); } };
		for (int i = 0; i < 3; i++) same(i, "created");
		for (int k = 0; k < 6; k++)
		{
			int i = (int)r(3), j = (int)r(3); uint32_t li = (uint32_t)m[i].size(), p = r(li + 1), c = r(li - p + 1); const char* nm = "";
			auto cmp = LIB(return x->s[i] <=> x->s[j]); bool eq = LIB(return x->s[i] == x->s[j]); SIM_CHECK(eq == (m[i] == m[j]) && (cmp < 0) == (m[i] < m[j]) && (cmp > 0) == (m[i] > m[j]), "wrong-result", "comparing texts of %zu and %zu characters is wrong", m[i].size(), m[j].size());
			vint f = LIB(return x->s[i].IndexOf((T)'z')); SIM_CHECK(f == -1, "wrong-result", "a character that is not there is found at %lld", (long long)f); if (li) { vint at = (vint)r(li); T g = LIB(return x->s[i][at]); SIM_CHECK(g == m[i][at], "wrong-contents", "character %lld of %u is wrong", (long long)at, li); }
			if (li + m[j].size() > 200000) continue; M o;
			switch (r(7))
			{
			case 0: nm = "concatenation"; o = m[i] + m[j]; LIB(x->s[i] = x->s[i] + x->s[j]); break; case 1: nm = "slice"; o = m[i].substr(p, c); LIB(x->s[i] = x->s[i].Sub(p, c)); break;
			case 2: nm = "left"; o = m[i].substr(0, p); LIB(x->s[i] = x->s[i].Left(p)); break; case 3: nm = "right"; o = m[i].substr(li - p); LIB(x->s[i] = x->s[i].Right(p)); break;
			case 4: nm = "insertion"; o = m[i]; o.insert(p, m[j]); LIB(x->s[i] = x->s[i].Insert(p, x->s[j])); break; case 5: nm = "removal"; o = m[i]; if (p == li) break; o.erase(p, c); LIB(x->s[i] = x->s[i].Remove(p, c)); break;
			case 6: nm = "appending"; o = m[i] + m[j]; LIB(x->s[i] += x->s[j].Buffer()); break;
			}
			m[i] = o; same(i, nm); same((i + 1) % 3, "another text");
		}
		LIB(sim::unmake(x)); sim::nontrivial(); sim::check_no_leaks("end of run");
	}
}
void sim_scenario()
{
	common::reset();
	if (sim::chance(1, 600)) { switch (sim::choose(3)) { case 0: long_text<wchar_t>(); break; case 1: long_text<char>(); break; case 2: long_text<char16_t>(); break; } return; }
	if (sim::chance(1, 3)) { World<wchar_t, char32_t> w; w.run(); }
	else { World<char, char8_t> w; w.run(); }
}

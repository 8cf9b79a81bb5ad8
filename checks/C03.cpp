// C03: function objects (vl::Func) copied, called, replaced and dropped by several threads.
#include "common.h"
#include "Source/Primitives/Function.h"
using namespace vl;
using namespace common;
COMMON_STATE
const char* const sim_property = "C03";

namespace
{
	typedef Func<vint(vint, Elem)> F;
	typedef Func<vint(vint, const Elem&, Elem&)> G;		// references pass through
	typedef Func<double(int, Elem)> W;					// convertible from F
	struct TargetThrow { int target; vint arg; };
	struct TargetError : public Error { int target; vint arg; TargetError(int t, vint a) : Error(L"target"), target(t), arg(a) {} };	// an error of the library with more to tell
	const vint THROW = 13;

	struct Target { int kind; int inner; int caps; int calls; bool made; };	// kind 0 lambda, 1 static, 2 method, 3 wraps another function object, 4 functor object
	HARNESS std::vector<Target> ts;
	HARNESS int releasing[8];
	struct Slots;
	HARNESS std::vector<Slots*> all;
	HARNESS F* box; HARNESS int mbox; HARNESS bool boxbusy;
	HARNESS int drop_in_call[8];						// slot the running target replaces in its own thread's slots
	HARNESS Slots* my_slots[8];

	struct Slots { F f[4]; G g[2]; W w[2]; int mf[4], mg[2], mw[2]; Slots() { for (int& x : mf) x = -1; for (int& x : mg) x = -1; for (int& x : mw) x = -1; } };
	int owners(int t)
	{
		int c = 0;
		for (auto* s : all) { for (int x : s->mf) c += x == t; for (int x : s->mg) c += x == t; for (int x : s->mw) c += x == t; }
		c += mbox == t;
		for (auto& x : ts) if (x.inner == t && x.caps > 0) c++;
		return c;
	}
	// captured state: counts live instances per target
	struct Cap
	{
		int t; Elem e;
		Cap(int _t) : t(_t), e(_t * 100) { sim::Har h; ts[t].caps++; }
		Cap(const Cap& c) : t(c.t), e(c.e) { sim::Har h; ts[t].caps++; }
		Cap(Cap&& c) noexcept : t(c.t), e(c.t * 100) { sim::Har h; ts[t].caps++; }
		~Cap()
		{
			sim::Har h; sim::touch_read(this, sizeof(*this));
			SIM_CHECK(t >= 0 && t < (int)ts.size() && ts[t].caps > 0, "lifetime", "captured state of target %d destroyed too often", t);
			if (--ts[t].caps == 0) { int w = owners(t); sim::log("target %d destroyed", t); SIM_CHECK(w == 0 || !ts[t].made, "destroyed-while-owned", "target %d is destroyed while %d function object(s) refer to it", t, w); if (ts[t].inner >= 0) ts[t].inner = -1; }
		}
		int id() const { sim::touch_read(this, sizeof(*this)); e.rd(); SIM_CHECK(e.value == t * 100, "wrong-contents", "captured value of target %d is %d", t, e.value); return t; }
	};
	void called(int t) { ts[t].calls++; int s = drop_in_call[sim::tid()]; if (s >= 0) { drop_in_call[sim::tid()] = -1; Slots* my = my_slots[sim::tid()]; my->mf[s] = -1; sim::log("target %d replaces the copy it was called through", t); sim::Lib l; my->f[s] = F(); } }
	vint body(int t, vint a, Elem& e)
	{
		sim::Har h; e.rd(); called(t);
		if (a == THROW) { if (e.value % 2) throw TargetError(t, a); throw TargetThrow{ t, a }; }
		return t * 1000000 + a * 1000 + e.value;
	}
	vint gbody(int t, vint a, const Elem& x, Elem& y)
	{
		sim::Har h; x.rd(); y.rd(); ts[t].calls++;
		if (a == THROW) throw TargetThrow{ t, a };
		sim::touch_write(&y, sizeof(y)); y.value = x.value + 1;
		return t * 1000000 + a;
	}
	struct Functor { Cap c; Functor(int t) : c(t) {} vint operator()(vint a, Elem e) const { int t; { sim::Har h; t = c.id(); } return body(t, a, e); } };
	struct Stateful { vint t = 0; vint operator()(vint v) { return t += v; } };
	HARNESS int static_target, method_target;
	vint static_fn(vint a, Elem e) { return body(static_target, a, e); }
	int similar_fn(long a, const Elem& e) { Elem x(e); return (int)body(static_target, a, x); }	// callable the same way, of another type
	struct Obj;
	HARNESS Obj* obj;
	struct Obj { vint off; vint Method(vint a, Elem e) { { sim::Har h; sim::touch_read(this, sizeof(*this)); SIM_CHECK(off == 4242 && this == obj, "wrong-contents", "method called on another object"); } return body(method_target, a, e); } };

	int add(int kind, int inner) { ts.push_back({ kind, inner, 0, 0, false }); return (int)ts.size() - 1; }
	bool someone_releasing() { for (int t = 0; t < 8; t++) if (t != sim::tid() && releasing[t] >= 0) return true; return false; }
	void check_gone(int t)
	{
		if (t < 0 || someone_releasing() || ts[t].kind == 1 || ts[t].kind == 2) return;
		if (owners(t) == 0) SIM_CHECK(ts[t].caps == 0, "never-destroyed", "target %d has no function object left but its captured state lives", t);
		else SIM_CHECK(ts[t].caps > 0, "destroyed-while-owned", "target %d is gone", t);
	}
	template<class X> void step(int& m, int to, const char* what, X f)
	{
		int old = m; sim::log("%s: %d -> %d", what, old, to);
		m = to; releasing[sim::tid()] = old >= 0 ? old : 0;
		int inner = -1;		// a wrapper is used by one thread only and ends with its last owner
		if (old >= 0 && ts[old].kind == 3 && owners(old) == 0) { inner = ts[old].inner; ts[old].inner = -1; ts[old].caps = 0; }
		{ sim::Lib l; f(); }
		releasing[sim::tid()] = -1;
		if (old != to) check_gone(old);
		check_gone(to); check_gone(inner);
	}
	// the target finally reached through wrappers
	int leaf(int t) { while (t >= 0 && ts[t].kind == 3) t = ts[t].inner; return t; }
	void call_f(Slots& s, int a)
	{
		if (s.mf[a] < 0) { bool b = LIB(return (bool)s.f[a]); SIM_CHECK(!b, "wrong-result", "an empty function object does not say so"); return; }
		bool b = LIB(return (bool)s.f[a]); SIM_CHECK(b, "wrong-result", "a function object holding target %d says it is empty", s.mf[a]);
		int t = leaf(s.mf[a]); vint arg = sim::choose(20); int v = (int)sim::choose(900);
		int before = ts[t].calls; bool threw = false; vint r = 0;
		bool solo = sim::thread_count() == 1;
		// let the target replace the copy it is called through when another owner in this thread keeps it alive
		drop_in_call[sim::tid()] = -1;
		int keep = -1; for (int i = 0; i < 4; i++) if (i != a && s.mf[i] == s.mf[a]) keep = i;
		bool drop = keep >= 0 && (ts[t].kind == 0 || ts[t].kind == 4) && sim::chance(1, 4);
		if (drop) { drop_in_call[sim::tid()] = a; my_slots[sim::tid()] = &s; sim::probe("replaced_during_call"); }
		sim::log("call target %d(%lld,%d)", t, (long long)arg, v);
		int w = s.mf[a]; (void)w;
		try { sim::Lib l; Elem e(v); r = sim::chance(1, 2) ? s.f[a](arg, e) : s.f[a](arg, std::move(e)); }
		catch (const TargetThrow& x) { threw = true; SIM_CHECK(x.target == t && x.arg == arg && v % 2 == 0, "wrong-result", "another exception arrived"); sim::fault("target_throws"); }
		catch (const TargetError& x) { threw = true; SIM_CHECK(x.target == t && x.arg == arg && v % 2, "wrong-result", "another exception arrived"); sim::fault("target_throws"); }
		catch (const Error&) { sim::fail("wrong-result", "another exception arrived"); }
		SIM_CHECK(threw == (arg == THROW), "wrong-result", "call of target %d with %lld %s", t, (long long)arg, threw ? "threw" : "did not throw");
		if (!threw) SIM_CHECK(r == t * 1000000 + arg * 1000 + v, "wrong-result", "target %d(%lld,%d) returned %lld", t, (long long)arg, v, (long long)r);
		if (solo) SIM_CHECK(ts[t].calls == before + 1, "wrong-result", "target %d was entered %d times by one call", t, ts[t].calls - before);
		drop_in_call[sim::tid()] = -1;
	}
	void verify(Slots& s)
	{
		for (int i = 0; i < 4; i++) { bool b = LIB(return (bool)s.f[i]); SIM_CHECK(b == (s.mf[i] >= 0), "wrong-result", "slot %d: emptiness of a function object holding %d", i, s.mf[i]); }
		for (int i = 0; i < 2; i++) { bool b = LIB(return (bool)s.w[i]); SIM_CHECK(b == (s.mw[i] >= 0), "wrong-result", "emptiness of a converted function object holding %d", s.mw[i]); b = LIB(return (bool)s.g[i]); SIM_CHECK(b == (s.mg[i] >= 0), "wrong-result", "emptiness of a function object holding %d", s.mg[i]); }
	}
	void one_op(Slots& s)
	{
		int a = sim::choose(4), b = sim::choose(4), c = sim::choose(2), d = sim::choose(2);
		switch (sim::pick({ 5, 5, 6, 4, 3, 3, 3, 4, 3, 4, 4, 3, 3, 2, 3, 3, 2 }))
		{
		case 0: step(s.mf[a], -1, "clear", [&] { s.f[a] = F(); }); break;
		case 1: step(s.mf[a], s.mf[b], "copy-assign", [&] { s.f[a] = s.f[b]; }); break;
		case 2: call_f(s, a); break;
		case 3: { int t = add(0, -1); int k = sim::choose(2); step(s.mf[a], t, "new lambda", [&] { Cap cap(t); auto l = [cap](vint x, Elem e) { int id; { sim::Har h; id = cap.id(); } return body(id, x, e); }; if (k) s.f[a] = l; else s.f[a] = F(std::move(l)); { sim::Har h; ts[t].made = true; } }); } break;
		case 4: { int t = add(4, -1); int k = sim::choose(2); step(s.mf[a], t, "new functor", [&] { if (k) { const Functor fn(t); s.f[a] = F(fn); } else s.f[a] = F(Functor(t)); { sim::Har h; ts[t].made = true; } }); } break;
		case 5: { int t = static_target; int k = sim::choose(4); step(s.mf[a], t, "function pointer", [&] { if (k == 0) s.f[a] = F(&similar_fn); else if (k == 1) { auto p = &similar_fn; s.f[a] = F(p); } else if (k == 2) s.f[a] = F(similar_fn); else s.f[a] = F(&static_fn); }); } break;
		case 6: { int t = method_target; step(s.mf[a], t, "method", [&] { s.f[a] = F(obj, &Obj::Method); }); } break;
		case 7: // move construction / assignment
			if (a != b)
			{
				int v = s.mf[b];
				if (sim::chance(1, 2)) { s.mf[b] = -1; step(s.mf[a], v, "move-construct", [&] { s.f[a].~F(); new(&s.f[a]) F(std::move(s.f[b])); }); }
				else
				{
					step(s.mf[a], v, "move-assign", [&] { s.f[a] = std::move(s.f[b]); });
					bool left = LIB(return (bool)s.f[b]); int old = s.mf[b]; if (!left) { s.mf[b] = -1; (void)old; }	// a moved-from function object may keep or lose its target
				}
			} break;
		case 8: if (a != b) { int v = s.mf[b]; step(s.mf[a], v, "copy-construct", [&] { s.f[a].~F(); new(&s.f[a]) F(s.f[b]); }); } break;
		case 9: // converted copies: wraps an F in a differently typed function object
			{
				int v = s.mf[b], how = (int)sim::choose(4);
				auto conv = [&] { if (how == 0) s.w[c] = W(s.f[b]); else if (how == 1) { const F& cf = s.f[b]; s.w[c] = W(cf); } else if (how == 2) s.w[c] = W(F(s.f[b])); else { const F& cf = s.f[b]; s.w[c] = cf; } };
				if (v < 0) { step(s.mw[c], -1, "convert empty", conv); sim::probe("convert_empty"); break; }
				int t = add(3, v); ts[t].caps = 1; ts[t].made = true;		// the wrapper has no Cap: it lives exactly as long as its owners
				step(s.mw[c], t, "convert", conv);
			} break;
		case 10: // call a converted one
			if (s.mw[c] >= 0)
			{
				int t = leaf(s.mw[c]); int arg = sim::choose(20), v = (int)sim::choose(900); bool threw = false; double r = 0;
				sim::log("call converted target %d(%d,%d)", t, arg, v);
				try { sim::Lib l; Elem e(v); r = s.w[c](arg, e); } catch (const TargetThrow& x) { threw = true; sim::fault("target_throws"); } catch (const TargetError& x) { threw = true; sim::fault("target_throws"); }
				SIM_CHECK(threw == (arg == THROW), "wrong-result", "converted call threw %d", threw);
				if (!threw) SIM_CHECK(r == (double)(t * 1000000 + arg * 1000 + v), "wrong-result", "converted target %d(%d,%d) returned %g", t, arg, v, r);
			} break;
		case 11: // reference arguments
			if (s.mg[c] < 0 || sim::chance(1, 3)) { int t = add(0, -1); step(s.mg[c], t, "new reference lambda", [&] { Cap cap(t); s.g[c] = G([cap](vint x, const Elem& e, Elem& f) { int id; { sim::Har h; id = cap.id(); } return gbody(id, x, e, f); }); { sim::Har h; ts[t].made = true; } }); }
			else
			{
				int t = s.mg[c]; vint arg = sim::choose(20); int v = (int)sim::choose(900); bool threw = false; vint r = 0; int out = -1;
				try { sim::Lib l; Elem x(v), y(-5); try { r = s.g[c](arg, x, y); } catch (...) { sim::Har h; out = y.value; throw; } sim::Har h; out = y.value; SIM_CHECK(x.value == v, "wrong-result", "a const argument changed"); } catch (const TargetThrow&) { threw = true; sim::fault("target_throws"); }
				SIM_CHECK(threw == (arg == THROW) && out == (threw ? -5 : v + 1) && (threw || r == t * 1000000 + arg), "wrong-result", "call with references: threw %d, wrote %d, returned %lld", threw, out, (long long)r);
			} break;
		case 12: // comparisons
			{
				bool e = LIB(return s.f[a] == s.f[b]), n = LIB(return s.f[a] != s.f[b]);
				SIM_CHECK(e != n, "wrong-result", "== and != agree");
				if (s.mf[a] != s.mf[b]) SIM_CHECK(!e, "wrong-result", "function objects of targets %d and %d are equal", s.mf[a], s.mf[b]);
				else if (s.mf[a] < 0 || ts[s.mf[a]].kind == 0 || ts[s.mf[a]].kind == 4) SIM_CHECK(e, "wrong-result", "copies of target %d are not equal", s.mf[a]);
			} break;
		case 13: if (sim::chance(1, 2)) { int v = s.mg[c], dd = d; step(s.mg[dd], v, "copy reference function", [&] { s.g[dd] = s.g[c]; }); } else { int v = s.mw[c]; step(s.mw[d], v, "copy converted", [&] { s.w[d] = s.w[c]; }); } break;
		case 14: // hand over
			if (!boxbusy && sim::thread_count() > 1)
			{
				boxbusy = true; sim::sync_acquire(1);
				if (sim::chance(1, 2)) { int v = s.mf[a]; step(mbox, v, "put", [&] { *box = s.f[a]; }); }
				else { int v = mbox; sim::probe("hand_over"); step(s.mf[a], v, "take", [&] { s.f[a] = *box; }); step(mbox, -1, "take", [&] { *box = F(); }); }
				sim::sync_release(1); boxbusy = false;
			} break;
		case 16: // a target with state of its own
			{
				typedef Func<vint(vint)> S; S* x = sim::make<S>(); S* y = sim::make<S>(); int k = (int)sim::choose(3), n = 1 + (int)sim::choose(5); vint sum = 0; sim::log("a target that keeps state"); sim::probe("stateful_target");
				LIB(if (k == 0) *x = S([t = vint(0)](vint v) mutable { return t += v; }); else if (k == 1) { Stateful st; *x = S(st); } else *x = S(Stateful()); *y = *x);
				for (int i = 0; i < n; i++) { vint v = 1 + (vint)sim::choose(9); bool c = sim::chance(1, 2); sum += v; vint r = LIB(return c ? (*y)(v) : (*x)(v)); SIM_CHECK(r == sum, "wrong-result", "the state of the target is %lld, should be %lld", (long long)r, (long long)sum); if (sim::chance(1, 3)) LIB(S z = *x; *x = *y; *y = z); }
				LIB(sim::unmake(x); sim::unmake(y));
			} break;
		case 15: // creation fails: memory or the copy of the captured state
			{
				int kind = sim::choose(6); int t = kind == 3 ? static_target : kind == 4 ? method_target : add(kind == 5 ? 3 : 0, -1);
				bool copyfault = (kind == 0 || kind == 1) && sim::chance(1, 3);
				uint64_t n = sim::choose(3); int old = s.mf[a]; bool threw = false; size_t before = sim::live_blocks(); int src = s.mf[b];
				sim::log("create (kind %d) with %s failing after %llu", kind, copyfault ? "a copy" : "an allocation", (unsigned long long)n);
				try
				{
					sim::Lib l; F tmp;
					if (kind == 0 || kind == 1) { Functor fn(t); { sim::Har h; if (copyfault) elem_copy_fail() = (long)n; else sim::fail_alloc_after(n); } if (kind == 0) tmp = F(fn); else tmp = F(std::move(fn)); }
					else { { sim::Har h; sim::fail_alloc_after(n); } if (kind == 2) tmp = F(Functor(t)); else if (kind == 3) tmp = F(&static_fn); else if (kind == 4) tmp = F(obj, &Obj::Method); else { W x(s.f[b]); sim::Har h; bool e = LIB(return !x); SIM_CHECK(e == (src < 0), "wrong-result", "conversion lost its target"); } }
				}
				catch (const std::bad_alloc&) { threw = true; }
				catch (const ElemThrow&) { threw = true; }
				bool fired = copyfault ? elem_copy_fail() < 0 : sim::clear_alloc_faults() > 0; elem_copy_fail() = -1;
				(void)fired; (void)old;
				if (!copyfault) SIM_CHECK(threw == fired, "swallowed-out-of-memory", "creation %s although an allocation %s", threw ? "failed" : "succeeded", fired ? "failed" : "did not fail");
				if (kind != 3 && kind != 4 && kind != 5) SIM_CHECK(ts[t].caps == 0, "leak", "captured state survives its function object");
				if (sim::thread_count() == 1) SIM_CHECK(sim::live_blocks() == before, "leak", "a function object that was not kept leaves %zu memory blocks", sim::live_blocks() - before);
			} break;
		}
		verify(s);
	}
	// every way to pass arguments and results, through every kind of target
#ifdef SIM_PLAIN
	struct Only { Elem e; Only(int v) : e(v) {} };
#else
	struct Only { Elem e; Only(int v) : e(v) {} Only(Only&& o) noexcept : e(std::move(o.e)) {} Only& operator=(Only&& o) noexcept { e = std::move(o.e); return *this; } Only(const Only&) = delete; };	// cannot be copied
#endif
#ifdef SIM_PLAIN
#define RV const&
#else
#define RV &&
#endif
	HARNESS long seen[8]; HARNESS const void* seen_at; HARNESS int entered; HARNESS bool boom;
	void enter(std::initializer_list<long> v, const void* at) { sim::Har h; entered++; int i = 0; for (long x : v) seen[i++] = x; seen_at = at; if (boom) throw TargetThrow{ 7, 7 }; }
	int val(const Elem& e) { sim::Har h; e.rd(); return e.value; }
	void s_val(Elem a, Elem b, vint c) { enter({ val(a), val(b), (long)c }, nullptr); }
	Elem& s_ref(Elem& a, const Elem& b) { enter({ val(a), val(b) }, &b); a = b; return a; }
	Elem s_rv(Elem RV a) { enter({ val(a) }, &a); Elem r(std::move(a)); return r; }
	Only s_only(Only a, Only RV b) { enter({ val(a.e), val(b.e) }, &b); a.e = Elem(val(a.e) + val(b.e)); return a; }
	const Elem& s_cref(const Elem& a, const Elem& b, bool second) { enter({ val(a), val(b), second }, second ? &b : &a); return second ? b : a; }
	vint s_none() { enter({}, nullptr); return 31; }
	struct Methods
	{
		vint base = 5;
		virtual void val(Elem a, Elem b, vint c) { sim::fail("wrong-result", "the method of the base class is called"); }
		virtual Elem& ref(Elem& a, const Elem& b) { return s_ref(a, b); }
		Elem rv(Elem RV a) { return s_rv(std::move(a)); }
		Only only(Only a, Only RV b) { return s_only(std::move(a), std::move(b)); }
		virtual const Elem& cref(const Elem& a, const Elem& b, bool s) { sim::fail("wrong-result", "the method of the base class is called"); return a; }
		vint none() { return s_none(); }
	};
	struct Front { vint pad = 1; virtual vint front() { return pad; } };
	struct Derived : public Front, public Methods
	{
		void val(Elem a, Elem b, vint c) override { s_val(std::move(a), std::move(b), c); }
		const Elem& cref(const Elem& a, const Elem& b, bool s) override { return s_cref(a, b, s); }
	};
	template<class F> struct Fun;
	template<class R, class... A> struct Fun<R(A...)> { R(*f)(A...); Elem e; Fun(R(*x)(A...)) : f(x), e(88) {} R operator()(A... a) const { val(e); return f(std::forward<A>(a)...); } };
	template<class Sig, class M> Func<Sig> make_func(int kind, Sig* f, Derived* o, M m)
	{
		switch (kind)
		{
		case 0: return Func<Sig>(f);
		case 1: return Func<Sig>((Methods*)o, m);
		case 2: return Func<Sig>(Fun<Sig>(f));
		case 3: { Fun<Sig> x(f); return Func<Sig>(x); }
		default: { Fun<Sig> x(f); Func<Sig> inner = Func<Sig>(x); Func<Sig> outer; outer = inner; return outer; }
		}
	}
	void signatures()
	{
		sim::probe("signatures"); Derived* o = sim::make<Derived>();
		int n = sim::ops(12, 6, [&]
		{
			int kind = (int)sim::choose(5), which = (int)sim::choose(8), x = (int)sim::choose(900), y = 1000 + (int)sim::choose(900); vint z = 7000 + (vint)sim::choose(900);
			boom = sim::chance(1, 5); entered = 0; for (long& v : seen) v = -1; seen_at = nullptr; bool threw = false; const char* bad = nullptr; int want = 0; const void* at = nullptr;
			sim::log("signature %d through target kind %d%s", which, kind, boom ? ", throwing" : "");
			try
			{
				sim::Lib l;
				switch (which)
				{
				case 0: { want = 3; auto f = make_func<void(Elem, Elem, vint)>(kind, &s_val, o, &Methods::val); Elem a(x), b(y); f(a, b, z); if (val(a) != x || val(b) != y) bad = "an argument passed by value changed"; } break;
				case 1: { want = 2; auto f = make_func<Elem&(Elem&, const Elem&)>(kind, &s_ref, o, &Methods::ref); Elem a(x), b(y); at = &b; Elem& r = f(a, b); if (&r != &a) bad = "the reference returned is another object"; else if (val(a) != y || val(b) != y) bad = "the assignment did not reach the argument"; } break;
				case 2: { want = 1; auto f = make_func<Elem(Elem RV)>(kind, &s_rv, o, &Methods::rv); Elem a(x); at = &a; Elem r = f(std::move(a)); if (val(r) != x) bad = "the result is another value"; else if (std::is_rvalue_reference_v<Elem RV> && val(a) != Elem::MOVED) bad = "the argument was not moved from"; } break;
				case 3: { want = 2; auto f = make_func<Only(Only, Only RV)>(kind, &s_only, o, &Methods::only); Only a(x), b(y); at = &b; Only r = f(std::move(a), std::move(b)); if (val(r.e) != x + y) bad = "the result is another value"; else if (val(b.e) != y) bad = "an argument passed by reference changed"; } break;
				case 4: { want = 3; z = x % 2; auto f = make_func<const Elem&(const Elem&, const Elem&, bool)>(kind, &s_cref, o, &Methods::cref); Elem a(x), b(y); at = z ? &b : &a; const Elem& r = f(a, b, z); if (&r != at) bad = "the reference returned is another object"; } break;
				case 5: { auto f = make_func<vint()>(kind, &s_none, o, &Methods::none); vint r = f(); if (r != 31) bad = "the result is another value"; } break;
				case 6: { auto g = make_func<vint()>(kind, &s_none, o, &Methods::none); Func<void()> f(g); Func<void()> h = f; h(); } break;			// result ignored
				default: { want = 3; auto g = make_func<void(Elem, Elem, vint)>(kind, &s_val, o, &Methods::val); Func<void(const Elem&, Elem&, int)> f(g); Elem a(x), b(y); f(a, b, (int)z); if (val(a) != x || val(b) != y) bad = "an argument passed by value changed"; } break;
				}
			}
			catch (const TargetThrow&) { threw = true; sim::fault("target_throws"); }
			SIM_CHECK(threw == boom, "wrong-result", "signature %d, target kind %d: the call %s", which, kind, threw ? "threw" : "swallowed the exception");
			SIM_CHECK(entered == 1, "wrong-result", "signature %d, target kind %d: the target was entered %d times", which, kind, entered);
			const long exp[3] = { x, y, (long)z }; for (int i = 0; i < want; i++) SIM_CHECK(seen[i] == exp[i], "wrong-result", "signature %d, target kind %d: argument %d arrived as %ld instead of %ld", which, kind, i, seen[i], exp[i]);
			SIM_CHECK(seen_at == at, "wrong-result", "signature %d, target kind %d: a reference arrived as another object", which, kind);
			SIM_CHECK(!bad, "wrong-result", "signature %d, target kind %d: %s", which, kind, bad);
			SIM_CHECK(ledger.alive == 0, "leak", "signature %d, target kind %d: %ld argument or captured objects never destroyed", which, kind, ledger.alive);
		});
		if (n > 2) sim::nontrivial();
		LIB(sim::unmake(o));
		sim::check_no_leaks("after the signatures");
	}
	void drop_all(Slots& s)
	{
		for (int i = 0; i < 2; i++) { step(s.mw[i], -1, "final drop", [&] { s.w[i] = W(); }); step(s.mg[i], -1, "final drop", [&] { s.g[i] = G(); }); }
		for (int i = 0; i < 4; i++) step(s.mf[i], -1, "final drop", [&] { s.f[i] = F(); });
	}
}
void sim_scenario()
{
	common::reset(); ts.clear(); all.clear(); mbox = -1; boxbusy = false; for (int i = 0; i < 8; i++) { releasing[i] = drop_in_call[i] = -1; my_slots[i] = nullptr; }
	if (sim::chance(1, 12)) { signatures(); return; }
	box = sim::make<F>(); obj = sim::make<Obj>(); obj->off = 4242;
	static_target = add(1, -1); method_target = add(2, -1);
	int threads = (int)sim::pick({ 3, 4, 4, 2 });
	Slots* pins = sim::make<Slots>(); all.push_back(pins);
	int roots = 1 + sim::choose(3);
	for (int i = 0; i < roots; i++) { int t = add(4, -1); step(pins->mf[i], t, "root", [&] { pins->f[i] = F(Functor(t)); { sim::Har h; ts[t].made = true; } }); }
	std::vector<Slots*> mine;
	for (int t = 0; t < threads; t++)
	{
		Slots* s = sim::make<Slots>(); all.push_back(s); mine.push_back(s);
		for (int i = 0; i < 2; i++) { int r = sim::choose(3); int v = pins->mf[r]; step(s->mf[i], v, "hand to thread", [&] { s->f[i] = pins->f[r]; }); }
	}
	if (sim::chance(1, 2)) drop_all(*pins);
	if (threads == 0) { if (sim::ops(50, 20, [&] { one_op(*pins); }) > 2) sim::nontrivial(); }
	else
	{
		if (threads > 1) sim::nontrivial();
		for (auto* s : mine) sim::spawn([s] { sim::ops(12, 5, [&] { one_op(*s); }); if (sim::chance(2, 3)) drop_all(*s); });
		sim::join_all();
	}
	for (auto* s : all) { verify(*s); drop_all(*s); }
	step(mbox, -1, "empty mailbox", [&] { *box = F(); });
	for (size_t i = 0; i < ts.size(); i++) SIM_CHECK(ts[i].caps == 0, "never-destroyed", "captured state of target %zu lives on", i);
	SIM_CHECK(ledger.alive == 0, "leak", "%ld argument or captured objects never destroyed", ledger.alive);
	sim::check_no_leaks("end of run");
}

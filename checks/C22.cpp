// C22: numbers and letter case: exact on every thread, and when memory runs out.
#include "strings.h"
#include <math.h>
#include <wctype.h>
#include <ctype.h>
#include <errno.h>
#include <locale.h>
using namespace vl;
using namespace common;
using namespace strs;
COMMON_STATE
const char* const sim_property = "C22";

namespace
{
	typedef std::string S;
	template<class T> Model<T> wide(const S& s) { return Model<T>(s.begin(), s.end()); }
	// run library code, possibly with a failing allocation first
	template<class F> void attempt(const char* name, bool faults, F f)
	{
		if (faults && sim::chance(1, 3))
		{
			sim::fail_alloc_after(sim::choose(6)); bool oom = false; try { sim::Lib l; f(); } catch (const std::bad_alloc&) { oom = true; }
			bool fired = sim::clear_alloc_faults() > 0; SIM_CHECK(oom == fired, "wrong-exception", "%s: %s", name, oom ? "out of memory is reported although memory was available" : "running out of memory was not reported"); if (!fired) return;
		}
		try { sim::Lib l; f(); } catch (const std::bad_alloc&) { sim::fail("wrong-exception", "%s: out of memory is reported although memory was available", name); }
	}
	uint64_t gen_bits()
	{
		static const uint64_t edges[] = { 0, 1, 9, 10, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 1000000000, 10000000000ull };
		uint64_t v; switch (sim::choose(4)) { case 0: v = sim::choose(200); break; case 1: v = edges[sim::choose(13)] + sim::choose(3) - 1; break; case 2: v = sim::choose(0xffffffffu); break; default: v = (uint64_t)sim::choose(0xffffffffu) << 32 | sim::choose(0xffffffffu); v >>= sim::choose(64); }
		if (sim::chance(1, 3)) v = 0 - v; return v;
	}
	double gen_double()
	{
		switch (sim::choose(8))
		{
		case 0: return (double)(int64_t)gen_bits(); case 1: return ((int)sim::choose(4000) - 2000) / 8.0; case 2: return ((int)sim::choose(2000001) - 1000000) / 1000000.0; case 3: return ldexp(1.0 + sim::choose(1000) / 1000.0, (int)sim::choose(2046) - 1022) * (sim::chance(1, 2) ? -1 : 1);
		case 4: return sim::chance(1, 2) ? INFINITY : -INFINITY; case 5: return -0.0; case 6: return sim::chance(1, 2) ? 1.7976931348623157e308 : -1.7976931348623157e308; default: return NAN;
		}
	}
	S fmt(double d) { char b[400]; snprintf(b, 400, "%f", d); S s = b; if (s.find('.') != S::npos) { while (s.back() == '0') s.pop_back(); if (s.back() == '.') s.pop_back(); } return s; }
	// ---- formatting --------------------------------------------------------------------------------------
	template<class T, class N, class F> void format(const char* name, N v, const S& want, bool faults, F f)
	{
		sim::log("%s of %s", name, want.substr(0, 60).c_str()); ObjectString<T>* t = LIB(return sim::make<ObjectString<T>>()); attempt(name, faults, [&] { *t = f(v); }); check_contents(*t, wide<T>(want), name);
		const T* b = LIB(return t->Buffer()); check_buffer(b, wide<T>(want), name); LIB(t->~ObjectString<T>()); sim::heap_free(t);
	}
	void format_op(bool faults)
	{
		uint64_t u = gen_bits(); int64_t i = (int64_t)u; S su = std::to_string(u), si = std::to_string(i); double d = gen_double(); S sd = fmt(d);
		switch (sim::choose(10))
		{
		case 0: format<char>("itoa", i, si, faults, [](vint v) { return itoa(v); }); break;
		case 1: format<char>("i64toa", i, si, faults, [](vint64_t v) { return i64toa(v); }); break;
		case 2: format<char>("utoa", u, su, faults, [](vuint v) { return utoa(v); }); break;
		case 3: format<char>("u64toa", u, su, faults, [](vuint64_t v) { return u64toa(v); }); break;
		case 4: format<char>("ftoa", d, sd, faults, [](double v) { return ftoa(v); }); break;
		case 5: format<wchar_t>("itow", i, si, faults, [](vint v) { return itow(v); }); break;
		case 6: format<wchar_t>("i64tow", i, si, faults, [](vint64_t v) { return i64tow(v); }); break;
		case 7: format<wchar_t>("utow", u, su, faults, [](vuint v) { return utow(v); }); break;
		case 8: format<wchar_t>("u64tow", u, su, faults, [](vuint64_t v) { return u64tow(v); }); break;
		case 9: format<wchar_t>("ftow", d, sd, faults, [](double v) { return ftow(v); }); break;
		}
	}
	// ---- parsing -----------------------------------------------------------------------------------------
	S gen_number(bool real)
	{
		S s;
		switch (sim::choose(real ? 7 : 4))
		{
		case 0: s = std::to_string(gen_bits()); break;
		case 1: s = std::to_string((int64_t)gen_bits()); break;
		case 2: { s = std::to_string(gen_bits()); static const char* const pre[] = { "0", "+", "-", " ", "\t", "00", "" }; s = pre[sim::choose(7)] + s; } break;
		case 3: { int n = (int)sim::choose(28); for (int i = 0; i < n; i++) s.push_back("0123456789-+ .ea"[sim::chance(9, 10) ? sim::choose(10) : sim::choose(16)]); } break;
		case 4: s = fmt(gen_double()); break;
		case 5: { static const char* const part[] = { "1", "23", ".", "e", "E", "+", "-", "0", "inf", "nan", "0x", "a", "." , "5", "e-3", "e400", "infinity", " " }; int n = (int)sim::choose(6); for (int i = 0; i < n; i++) s += part[sim::choose(18)]; } break;
		case 6: { static const char* const sg[] = { "", "", "-", "+" }; auto digits = [&](int most) { int n = (int)sim::choose(most); for (int i = 0; i < n; i++) s.push_back((char)('0' + sim::choose(10))); }; s = sg[sim::choose(4)]; bool hex = sim::chance(1, 10); if (hex) s += "0x"; digits(5); if (sim::chance(2, 3)) { s.push_back('.'); digits(5); } if (sim::chance(1, 2)) { s.push_back(hex ? "pP"[sim::choose(2)] : "eE"[sim::choose(2)]); s += sg[sim::choose(4)]; digits(4); } } break;
		}
		if (sim::chance(1, 6)) s.push_back("x 0.\n-"[sim::choose(6)]);
		if (sim::chance(1, 8) && s.size()) { size_t at = sim::choose((uint32_t)s.size()); char c = "0123456789-+ .,e/:\x80_"[sim::choose(20)]; switch (sim::choose(3)) { case 0: s[at] = c; break; case 1: s.insert(at, 1, c); break; case 2: s.erase(at, 1); break; } }	// one character away
		if (sim::chance(1, 25)) s.insert(sim::choose((uint32_t)s.size() + 1), 1, '\0');
		return s;
	}
	// exactly the canonical decimal form of a number in the given range
	bool canonical(const S& s, bool neg_ok) { size_t i = neg_ok && s.size() > 1 && s[0] == '-' ? 1 : 0; if (i == s.size()) return false; if (s[i] == '0' && (s.size() > i + 1 || i)) return false; for (size_t k = i; k < s.size(); k++) if (s[k] < '0' || s[k] > '9') return false; return s.size() - i <= 20; }
	bool as_int(const S& s, int64_t lo, int64_t hi, int64_t& v) { if (!canonical(s, true)) return false; __int128 x = 0; bool neg = s[0] == '-'; for (size_t k = neg; k < s.size(); k++) x = x * 10 + (s[k] - '0'); if (neg) x = -x; if (x < lo || x > hi) return false; v = (int64_t)x; return true; }
	bool as_uint(const S& s, uint64_t hi, uint64_t& v) { if (!canonical(s, false)) return false; unsigned __int128 x = 0; for (char c : s) x = x * 10 + (unsigned)(c - '0'); if (x > hi) return false; v = (uint64_t)x; return true; }
	bool as_double(const S& s, double& v) { if (s.empty()) return false; char* e = nullptr; v = strtod(s.c_str(), &e); return e == s.c_str() + s.size() && e != s.c_str(); }
	template<class T> ObjectString<T>* given(const S& s)	// as a string of its own or as a slice of a longer one
	{
		Model<T> m = wide<T>(s); int how = (int)sim::choose(3); Model<T> big = how == 1 ? wide<T>("7") + m + wide<T>("7") : m; T* r = raw(big); vint n = (vint)m.size(); ObjectString<T>* p = LIB(return sim::make<ObjectString<T>>());
		LIB(if (how == 1) *p = ObjectString<T>::CopyFrom(r, n + 2).Sub(1, n); else *p = ObjectString<T>::CopyFrom(r, n)); sim::heap_free(r); return p;
	}
	template<class T, class N, class FT, class FP> void parse(const char* name, const S& s, bool want, N value, bool faults, FT test, FP plain)
	{
		sim::log("%s of %s", name, show<char>(s).c_str()); ObjectString<T>* p = given<T>(s); bool ok = !want; N r = N(), q = N(); if (want) sim::probe("number_accepted");
		int before = sim::chance(1, 4) ? ERANGE : 0; errno = before;	// a stale error code of the C library means nothing
		attempt(name, faults, [&] { r = test(*p, ok); }); SIM_CHECK(ok == want, "wrong-number", "%s of %s reports %s", name, show<char>(s).c_str(), ok ? "success" : "failure");
		attempt(name, faults, [&] { q = plain(*p); }); N expect = want ? value : N(0);
		auto same = [](N a, N b) { if constexpr (std::is_same_v<N, double>) { if (a == b && std::signbit(a) != std::signbit(b)) return false; } return a == b || (a != a && b != b); };
		SIM_CHECK(!want || same(r, value), "wrong-number", "%s of %s yields another number", name, show<char>(s).c_str()); SIM_CHECK(same(q, expect), "wrong-number", "%s of %s without a success flag yields another number", name, show<char>(s).c_str());
		check_contents(*p, wide<T>(s), "the parsed text"); LIB(p->~ObjectString<T>()); sim::heap_free(p);
	}
	void parse_op(bool faults)
	{
		int k = (int)sim::choose(10); S s = gen_number(k >= 8); int64_t i = 0; uint64_t u = 0; double d = 0; bool w;
		switch (k)
		{
		case 0: w = as_int(s, INT32_MIN, INT32_MAX, i); parse<char, vint>("atoi", s, w, i, faults, [](auto& t, bool& b) { return atoi_test(t, b); }, [](auto& t) { return vl::atoi(t); }); break;
		case 1: w = as_int(s, INT32_MIN, INT32_MAX, i); parse<wchar_t, vint>("wtoi", s, w, i, faults, [](auto& t, bool& b) { return wtoi_test(t, b); }, [](auto& t) { return wtoi(t); }); break;
		case 2: w = as_int(s, INT64_MIN, INT64_MAX, i); parse<char, vint64_t>("atoi64", s, w, i, faults, [](auto& t, bool& b) { return atoi64_test(t, b); }, [](auto& t) { return atoi64(t); }); break;
		case 3: w = as_int(s, INT64_MIN, INT64_MAX, i); parse<wchar_t, vint64_t>("wtoi64", s, w, i, faults, [](auto& t, bool& b) { return wtoi64_test(t, b); }, [](auto& t) { return wtoi64(t); }); break;
		case 4: w = as_uint(s, UINT32_MAX, u); parse<char, vuint>("atou", s, w, u, faults, [](auto& t, bool& b) { return atou_test(t, b); }, [](auto& t) { return atou(t); }); break;
		case 5: w = as_uint(s, UINT32_MAX, u); parse<wchar_t, vuint>("wtou", s, w, u, faults, [](auto& t, bool& b) { return wtou_test(t, b); }, [](auto& t) { return wtou(t); }); break;
		case 6: w = as_uint(s, UINT64_MAX, u); parse<char, vuint64_t>("atou64", s, w, u, faults, [](auto& t, bool& b) { return atou64_test(t, b); }, [](auto& t) { return atou64(t); }); break;
		case 7: w = as_uint(s, UINT64_MAX, u); parse<wchar_t, vuint64_t>("wtou64", s, w, u, faults, [](auto& t, bool& b) { return wtou64_test(t, b); }, [](auto& t) { return wtou64(t); }); break;
		case 8: w = as_double(s, d); parse<char, double>("atof", s, w, d, faults, [](auto& t, bool& b) { return atof_test(t, b); }, [](auto& t) { return vl::atof(t); }); break;
		case 9: w = as_double(s, d); parse<wchar_t, double>("wtof", s, w, d, faults, [](auto& t, bool& b) { return wtof_test(t, b); }, [](auto& t) { return wtof(t); }); break;
		}
	}
	// ---- letter case: the strings are copies sharing one storage -----------------------------------------
	struct Shared { AString a; WString w; };
	HARNESS Model<char> sa; HARNESS Model<wchar_t> sw; Shared* shared;
	void case_op(Shared* s, bool faults)
	{
		bool up = sim::chance(1, 2);
		if (sim::chance(1, 2))
		{
			uint32_t from = sim::choose((uint32_t)sa.size() + 1), n = sim::choose((uint32_t)sa.size() - from + 1); Model<char> src = sa.substr(from, n), want = src; for (char& c : want) c = (char)(up ? toupper(c) : tolower(c));
			AString* t = LIB(return sim::make<AString>()); AString* x = LIB(return sim::make<AString>(s->a.Sub(from, n))); sim::log("%s of %s", up ? "aupper" : "alower", show<char>(src).c_str());
			attempt("letter case", faults, [&] { *t = up ? aupper(*x) : alower(*x); }); check_contents(*t, want, "letter case"); check_contents(*x, src, "the text whose case was converted"); LIB(sim::unmake(x)); LIB(sim::unmake(t));
		}
		else
		{
			uint32_t from = sim::choose((uint32_t)sw.size() + 1), n = sim::choose((uint32_t)sw.size() - from + 1); Model<wchar_t> src = sw.substr(from, n), want = src; for (wchar_t& c : want) c = (wchar_t)(up ? towupper(c) : towlower(c));
			WString* t = LIB(return sim::make<WString>()); WString* x = LIB(return sim::make<WString>(s->w.Sub(from, n))); sim::log("%s of %s", up ? "wupper" : "wlower", show<wchar_t>(src).c_str());
			attempt("letter case", faults, [&] { *t = up ? wupper(*x) : wlower(*x); }); check_contents(*t, want, "letter case"); check_contents(*x, src, "the text whose case was converted"); LIB(sim::unmake(x)); LIB(sim::unmake(t));
		}
		check_contents(s->a, sa, "the shared text"); check_contents(s->w, sw, "the shared text");
	}
	void step(Shared* s, bool faults) { switch (sim::pick({ 4, 6, 2 })) { case 0: format_op(faults); break; case 1: parse_op(faults); break; case 2: case_op(s, faults); break; } }
}
void sim_scenario()
{
	common::reset(); sa.clear(); sw.clear(); setlocale(LC_CTYPE, sim::chance(1, 2) ? "C.UTF-8" : "C"); int k = (int)sim::choose(sim::chance(1, 10) ? 90 : 8); for (int i = 0; i < k; i++) { sa.push_back(sim::chance(1, 3) ? (char)sim::choose(256) : "aAzZmN0 _@[`{"[sim::choose(14)]); static const wchar_t al[] = { L'a', L'Z', L'0', 0xE9, 0x416, 0x4E2D, 0x1F600, L'q', 0x100 + L'a', 0xFF21, 0, L'A', L'z', L'@', L'[', 0xFF, 0x100, 0xB5, 0xDF, 0x130, 0x131, 0x3C2, 0x10428 }; switch (sim::choose(4)) { case 0: sw.push_back(al[sim::choose(23)]); break; case 1: sw.push_back((wchar_t)sim::choose(128)); break; case 2: sw.push_back((wchar_t)sim::choose(0x600)); break; default: sw.push_back((wchar_t)sim::choose(0x11000)); } }
	char* ra = raw(sa); wchar_t* rw = raw(sw); Shared* s[4]; s[0] = LIB(return sim::make<Shared>()); LIB(s[0]->a = AString::CopyFrom(ra, k); s[0]->w = WString::CopyFrom(rw, k));
	int threads = sim::chance(1, 2) ? 0 : 1 + (int)sim::choose(3); for (int t = 1; t <= threads; t++) s[t] = LIB(return sim::make<Shared>(*s[0]));
	int n = sim::ops(24, 10, [&] { step(s[0], true); });
	for (int t = 1; t <= threads; t++) sim::spawn([&s, t] { sim::ops(4, 3, [&] { step(s[t], false); }); });
	if (threads) { sim::ops(4, 3, [&] { step(s[0], false); }); sim::join_all(); }
	for (int t = 0; t <= threads; t++) { check_contents(s[t]->a, sa, "the shared text"); check_contents(s[t]->w, sw, "the shared text"); LIB(sim::unmake(s[t])); }
	if (n > 2 || threads) sim::nontrivial();
	sim::check_no_leaks("end of run");
}

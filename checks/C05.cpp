// C05: string operations with failing memory allocations.
#include "strings.h"
#include "Source/Strings/Conversion.h"
using namespace vl;
using namespace common;
using namespace strs;
COMMON_STATE
const char* const sim_property = "C05";

namespace
{
	const int N = 3;
	struct Slots { AString a[N]; WString w[N]; U8String b[N]; U16String h[N]; U32String q[N]; };
	Slots* k;
	HARNESS Model<char> ma[N]; HARNESS Model<wchar_t> mw[N]; HARNESS Model<char8_t> mb[N]; HARNESS Model<char16_t> mh[N]; HARNESS Model<char32_t> mq[N];

	void verify(const char* when)
	{
		for (int i = 0; i < N; i++) { check_contents(k->a[i], ma[i], when); check_contents(k->w[i], mw[i], when); check_contents(k->b[i], mb[i], when); check_contents(k->h[i], mh[i], when); check_contents(k->q[i], mq[i], when); }
	}
	// independent conversions of valid text; false = not convertible text
	bool dec(const Model<char32_t>& s, Model<char32_t>& o) { o = s; for (auto c : s) if (!c) return false; return true; }
	bool dec(const Model<wchar_t>& s, Model<char32_t>& o) { o.clear(); for (auto c : s) { if (!c) return false; o.push_back((char32_t)c); } return true; }
	bool dec(const Model<char16_t>& s, Model<char32_t>& o)
	{
		o.clear();
		for (size_t i = 0; i < s.size(); i++)
		{
			char32_t c = s[i]; if (!c) return false;
			if (c >= 0xD800 && c < 0xDC00) { if (i + 1 >= s.size() || s[i + 1] < 0xDC00 || s[i + 1] > 0xDFFF) return false; c = 0x10000 + ((c - 0xD800) << 10) + (s[++i] - 0xDC00); }
			else if (c >= 0xDC00 && c <= 0xDFFF) return false;
			o.push_back(c);
		}
		return true;
	}
	bool dec(const Model<char8_t>& s, Model<char32_t>& o)
	{
		o.clear();
		for (size_t i = 0; i < s.size();)
		{
			unsigned c = s[i++]; int n = c < 0x80 ? 0 : c < 0xC0 ? -1 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3; if (n < 0 || !c) return false;
			char32_t v = n == 0 ? c : c & (0x3F >> n); while (n--) { if (i >= s.size() || (s[i] & 0xC0) != 0x80) return false; v = v << 6 | (s[i++] & 0x3F); }
			o.push_back(v);
		}
		return true;
	}
	bool dec(const Model<char>& s, Model<char32_t>& o) { o.clear(); for (char c : s) { if (c <= 0) return false; o.push_back((char32_t)c); } return true; }
	bool enc(const Model<char32_t>& s, Model<char32_t>& o) { o = s; return true; }
	bool enc(const Model<char32_t>& s, Model<wchar_t>& o) { o.clear(); for (auto c : s) o.push_back((wchar_t)c); return true; }
	bool enc(const Model<char32_t>& s, Model<char>& o) { o.clear(); for (auto c : s) { if (c > 126) return false; o.push_back((char)c); } return true; }
	bool enc(const Model<char32_t>& s, Model<char16_t>& o) { o.clear(); for (auto c : s) if (c < 0x10000) o.push_back((char16_t)c); else { o.push_back((char16_t)(0xD800 + ((c - 0x10000) >> 10))); o.push_back((char16_t)(0xDC00 + ((c - 0x10000) & 0x3FF))); } return true; }
	bool enc(const Model<char32_t>& s, Model<char8_t>& o) { o.clear(); for (auto c : s) { if (c < 0x80) o.push_back((char8_t)c); else if (c < 0x800) { o.push_back((char8_t)(0xC0 | c >> 6)); o.push_back((char8_t)(0x80 | (c & 63))); } else if (c < 0x10000) { o.push_back((char8_t)(0xE0 | c >> 12)); o.push_back((char8_t)(0x80 | (c >> 6 & 63))); o.push_back((char8_t)(0x80 | (c & 63))); } else { o.push_back((char8_t)(0xF0 | c >> 18)); o.push_back((char8_t)(0x80 | (c >> 12 & 63))); o.push_back((char8_t)(0x80 | (c >> 6 & 63))); o.push_back((char8_t)(0x80 | (c & 63))); } } return true; }

	// run `f` (library code storing its result outside the slots) first with a failing allocation, then without
	template<class F> void attempt(const char* name, bool error, F f)
	{
		uint64_t n = sim::choose(5), many = sim::chance(1, 4) ? 1 + sim::choose(3) : 1;
		bool faulty = sim::chance(4, 5);
		if (faulty)
		{
			sim::log("%s with allocation %llu failing", name, (unsigned long long)n);
			sim::fail_alloc_after(n, many); bool oom = false, err = false;
			try { sim::Lib l; f(); } catch (const std::bad_alloc&) { oom = true; } catch (const Error&) { err = true; }
			uint64_t fired = sim::clear_alloc_faults();
			if (fired) { if (!oom) sim::fail("swallowed-out-of-memory", "%s reports success although an allocation failed", name); }
			else { SIM_CHECK(!oom, "wrong-result", "%s reports out of memory although no allocation failed", name); SIM_CHECK(err == error, "wrong-result", "%s: error %d", name, err); }
			verify(fired ? "after running out of memory" : "after an operation");
			if (!fired) return;
		}
		sim::log("%s", name);
		bool err = false;
		try { sim::Lib l; f(); } catch (const Error&) { err = true; }
		SIM_CHECK(err == error, "wrong-result", "%s: error %d", name, err);
	}
	template<class T> void core(ObjectString<T>* s, Model<T>* m)
	{
		int a = sim::choose(N), b = sim::choose(N);
		switch (sim::pick({ 12, 4, 3, 2 }))
		{
		case 0:
			{
				auto o = gen_op<T>(s, m, N); ObjectString<T>* tmp = LIB(return sim::make<ObjectString<T>>());
				attempt(o.name, o.error, [&] { *tmp = o.run(); });
				if (!o.error) { check_contents(*tmp, o.expect, o.name); LIB(s[a] = std::move(*tmp)); m[a] = o.expect; }
				LIB(tmp->~ObjectString<T>()); sim::heap_free(tmp);
			} break;
		case 1:
			{ const T* p = nullptr; attempt("buffer", false, [&] { p = s[a].Buffer(); }); check_buffer(p, m[a], "buffer"); } break;
		case 2: // += works on the slot itself
			if ((int)(m[a].size() + m[b].size()) < limit())
			{
				ObjectString<T> x; { sim::Lib l; x = s[a]; } Model<T> mx = m[a], r = m[a] + m[b];
				bool own = a == b && sim::chance(1, 2), done = false, plain = false; for (T c : m[b]) plain |= c == 0; plain = !plain && sim::chance(1, 3); T* text = plain ? raw(m[b]) : nullptr;	// after a failure the string still has its old contents
				attempt("append in place", false, [&] { { sim::Har h; if (!done) check_contents(x, mx, "before appending in place"); } if (own) x += x; else if (plain) x += (const T*)text; else x += s[b]; done = true; });
				check_contents(x, r, "append in place"); LIB(s[a] = x); m[a] = r;
				LIB(x = ObjectString<T>());
			} break;
		case 3: LIB(s[a] = s[b]); m[a] = m[b]; break;
		}
	}
	template<class TA, class TB, class F> void convert(const char* name, ObjectString<TA>* s, Model<TA>* ms, ObjectString<TB>* d, Model<TB>* md, F f)
	{
		int a = sim::choose(N), b = sim::choose(N); Model<char32_t> u; Model<TB> want;
		if (!dec(ms[a], u) || !enc(u, want)) return;
		ObjectString<TB>* tmp = LIB(return sim::make<ObjectString<TB>>());
		attempt(name, false, [&] { *tmp = f(s[a]); });
		check_contents(*tmp, want, name); LIB(d[b] = std::move(*tmp)); md[b] = want; LIB(tmp->~ObjectString<TB>()); sim::heap_free(tmp);
		sim::probe("converted");
	}
	template<class F> void numa(const char* name, const std::string& want, F f)
	{
		int b = sim::choose(N); AString* tmp = LIB(return sim::make<AString>());
		attempt(name, false, [&] { *tmp = f(); }); Model<char> w(want); check_contents(*tmp, w, name); LIB(k->a[b] = *tmp); ma[b] = w; LIB(tmp->~AString()); sim::heap_free(tmp);
	}
	template<class F> void numw(const char* name, const std::string& want, F f)
	{
		int b = sim::choose(N); WString* tmp = LIB(return sim::make<WString>());
		attempt(name, false, [&] { *tmp = f(); }); Model<wchar_t> w(want.begin(), want.end()); check_contents(*tmp, w, name); LIB(k->w[b] = *tmp); mw[b] = w; LIB(tmp->~WString()); sim::heap_free(tmp);
	}
	void numbers()
	{
		vint64_t v = (vint64_t)sim::choose(2000) - 1000; if (sim::chance(1, 4)) v *= 4000000000000LL; vuint64_t u = (vuint64_t)v; double d = (double)((int)sim::choose(4000) - 2000) / 4;
		char fb[64]; snprintf(fb, 64, "%.6f", d); std::string fs = fb; while (fs.back() == '0') fs.pop_back(); if (fs.back() == '.') fs.pop_back();
		switch (sim::choose(14))
		{
		case 0: numa("itoa", std::to_string(v), [&] { return itoa(v); }); break;
		case 1: numa("i64toa", std::to_string(v), [&] { return i64toa(v); }); break;
		case 2: numa("utoa", std::to_string(u), [&] { return utoa(u); }); break;
		case 3: numa("u64toa", std::to_string(u), [&] { return u64toa(u); }); break;
		case 4: numa("ftoa", fs, [&] { return ftoa(d); }); break;
		case 5: numw("itow", std::to_string(v), [&] { return itow(v); }); break;
		case 6: numw("i64tow", std::to_string(v), [&] { return i64tow(v); }); break;
		case 7: numw("utow", std::to_string(u), [&] { return utow(u); }); break;
		case 8: numw("u64tow", std::to_string(u), [&] { return u64tow(u); }); break;
		case 9: numw("ftow", fs, [&] { return ftow(d); }); break;
		case 10: // parsing allocates too
			{ int a = sim::choose(N); bool ok = false; vint64_t r = 0; std::string s(ma[a].begin(), ma[a].end()); attempt("atoi64_test", false, [&] { r = atoi64_test(k->a[a], ok); }); bool num = s == std::to_string(v = strtoll(s.c_str(), nullptr, 10)); SIM_CHECK(ok == num && (!num || r == v), "wrong-result", "parsing %s gives %lld, success %d", s.c_str(), (long long)r, ok); } break;
		case 11: { int a = sim::choose(N); bool ok = false; vint64_t r = 0; std::string s; for (wchar_t c : mw[a]) s.push_back(c < 127 ? (char)c : '?'); attempt("wtoi64_test", false, [&] { r = wtoi64_test(k->w[a], ok); }); bool num = s == std::to_string(v = strtoll(s.c_str(), nullptr, 10)); SIM_CHECK(ok == num && (!num || r == v), "wrong-result", "parsing %s gives %lld, success %d", s.c_str(), (long long)r, ok); } break;
		case 12: { int a = sim::choose(N); std::string s(ma[a].begin(), ma[a].end()); for (char& c : s) { if (c <= 0) return; } bool up = sim::chance(1, 2); for (char& c : s) c = (char)(up ? toupper(c) : tolower(c)); numa(up ? "aupper" : "alower", s, [&] { return up ? aupper(k->a[a]) : alower(k->a[a]); }); } break;
		case 13:
			{
				int a = sim::choose(N), b = sim::choose(N); Model<wchar_t> w = mw[a]; bool up = sim::chance(1, 2);
				for (wchar_t& c : w) { if (!c) return; if (c < 128) c = up ? toupper(c) : tolower(c); else if (c != 0x4E2D && c != 0x1F600) return; }	// caseless or ASCII
				WString* tmp = LIB(return sim::make<WString>());
				attempt(up ? "wupper" : "wlower", false, [&] { *tmp = up ? wupper(k->w[a]) : wlower(k->w[a]); });
				check_contents(*tmp, w, up ? "wupper" : "wlower"); LIB(k->w[b] = *tmp); mw[b] = w; LIB(tmp->~WString()); sim::heap_free(tmp);
			} break;
		}
	}
	void one_op()
	{
		switch (sim::pick({ 5, 4, 3, 2, 3, 8, 6 }))
		{
		case 0: core(k->a, ma); break;
		case 1: core(k->w, mw); break;
		case 2: core(k->b, mb); break;
		case 3: core(k->h, mh); break;
		case 4: // fresh unicode text
			{ int i = sim::choose(N); Model<char32_t> t; int n = sim::choose(6); static const char32_t alphabet[] = { 'a', 'B', '7', 0xE9, 0x4E2D, 0x1F600 }; for (int x = 0; x < n; x++) t.push_back(alphabet[sim::choose(6)]); char32_t* r = raw(t); LIB(k->q[i] = U32String::CopyFrom(r, n)); mq[i] = t; core(k->q, mq); } break;
		case 5:
			switch (sim::choose(20))
			{
			case 0: convert("wtou32", k->w, mw, k->q, mq, [](const WString& s) { return wtou32(s); }); break;
			case 1: convert("u32tow", k->q, mq, k->w, mw, [](const U32String& s) { return u32tow(s); }); break;
			case 2: convert("u8tou32", k->b, mb, k->q, mq, [](const U8String& s) { return u8tou32(s); }); break;
			case 3: convert("u32tou8", k->q, mq, k->b, mb, [](const U32String& s) { return u32tou8(s); }); break;
			case 4: convert("u16tou32", k->h, mh, k->q, mq, [](const U16String& s) { return u16tou32(s); }); break;
			case 5: convert("u32tou16", k->q, mq, k->h, mh, [](const U32String& s) { return u32tou16(s); }); break;
			case 6: convert("wtou8", k->w, mw, k->b, mb, [](const WString& s) { return wtou8(s); }); break;
			case 7: convert("u8tow", k->b, mb, k->w, mw, [](const U8String& s) { return u8tow(s); }); break;
			case 8: convert("wtou16", k->w, mw, k->h, mh, [](const WString& s) { return wtou16(s); }); break;
			case 9: convert("u16tow", k->h, mh, k->w, mw, [](const U16String& s) { return u16tow(s); }); break;
			case 10: convert("u8tou16", k->b, mb, k->h, mh, [](const U8String& s) { return u8tou16(s); }); break;
			case 11: convert("u16tou8", k->h, mh, k->b, mb, [](const U16String& s) { return u16tou8(s); }); break;
			case 12: convert("wtoa", k->w, mw, k->a, ma, [](const WString& s) { return wtoa(s); }); break;
			case 13: convert("atow", k->a, ma, k->w, mw, [](const AString& s) { return atow(s); }); break;
			case 14: convert("atou8", k->a, ma, k->b, mb, [](const AString& s) { return atou8(s); }); break;
			case 15: convert("u8toa", k->b, mb, k->a, ma, [](const U8String& s) { return u8toa(s); }); break;
			case 16: convert("atou16", k->a, ma, k->h, mh, [](const AString& s) { return atou16(s); }); break;
			case 17: convert("u32toa", k->q, mq, k->a, ma, [](const U32String& s) { return u32toa(s); }); break;
			case 18: convert("u16toa", k->h, mh, k->a, ma, [](const U16String& s) { return u16toa(s); }); break;
			case 19: convert("atou32", k->a, ma, k->q, mq, [](const AString& s) { return atou32(s); }); break;
			} break;
		case 6: numbers(); break;
		}
		verify("after an operation");
	}
}
void sim_scenario()
{
	common::reset(); for (int i = 0; i < N; i++) { ma[i].clear(); mw[i].clear(); mb[i].clear(); mh[i].clear(); mq[i].clear(); }
	k = LIB(return sim::make<Slots>());
	choose_lengths(); if (sim::ops(30, 10, [&] { one_op(); }) > 2) sim::nontrivial();
	verify("at the end");
	LIB(k->~Slots());
	sim::check_no_leaks("end of run");
}

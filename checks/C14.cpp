// C14: incremental UTF conversion over damaged, truncated and intermittently failing sources.
#include "common.h"
#include "Source/Strings/Conversion.h"
#include <locale.h>
using namespace vl;
using namespace vl::encoding;
using namespace common;
COMMON_STATE
const char* const sim_property = "C14";

namespace
{
	typedef std::vector<uint32_t> Units;	// code units of any encoding, by value
	std::string show(const Units& u) { std::string s; char b[16]; for (uint32_t x : u) { snprintf(b, 16, "%s%x", s.empty() ? "" : " ", x); s += b; } return "<" + s + ">"; }
	enum Enc { W, U8, U16, U16BE, U32 };
	const char* const names[] = { "wide", "UTF-8", "UTF-16", "UTF-16BE", "UTF-32" };
	template<class T> struct E; template<> struct E<wchar_t> { static const Enc e = W; }; template<> struct E<char8_t> { static const Enc e = U8; }; template<> struct E<char16_t> { static const Enc e = U16; }; template<> struct E<char16be_t> { static const Enc e = U16BE; }; template<> struct E<char32_t> { static const Enc e = U32; };
	template<class T> T unit(uint32_t v) { return T(v); } template<> char16be_t unit<char16be_t>(uint32_t v) { char16be_t c; c.value = char16_t(v); return c; }
	template<class T> uint32_t value(T c) { return (uint32_t)c; } template<> uint32_t value(char16be_t c) { return c.value; } template<> uint32_t value(char8_t c) { return (uint8_t)c; }
	uint32_t swap16(uint32_t v) { return (v >> 8 & 0xff) | (v & 0xff) << 8; }

	// ---- the reference codec --------------------------------------------------------------------------
	bool encode(Enc e, uint32_t c, Units& out)	// false: this encoding cannot express c
	{
		if (e == W || e == U32) { out.push_back(c); return true; }
		if (c >= 0xD800 && c <= 0xDFFF) return false;
		if (e == U8)
		{
			if (c > 0x7FFFFFFF) return false;
			if (c < 0x80) { out.push_back(c); return true; }
			int n = c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : 6;
			for (int i = 0; i < n; i++) out.push_back(i ? 0x80 | (c >> 6 * (n - 1 - i) & 0x3f) : (0xff00 >> n & 0xff) | c >> 6 * (n - 1));
			return true;
		}
		if (c > 0x10FFFF) return false;
		if (c < 0x10000) out.push_back(c); else { out.push_back(0xD7C0 + (c >> 10)); out.push_back(0xDC00 | (c & 0x3ff)); }
		if (e == U16BE) for (size_t i = out.size() - (c < 0x10000 ? 1 : 2); i < out.size(); i++) out[i] = swap16(out[i]);
		return true;
	}
	int decode(Enc e, const Units& s, size_t i, uint32_t& c)	// units used, 0 = damaged
	{
		auto at = [&](size_t k) { uint32_t v = k < s.size() ? s[k] : 0; return e == U16BE ? swap16(v) : v; };
		uint32_t a = at(i);
		switch (e)
		{
		case W: case U32: c = a; return 1;
		case U16: case U16BE:
			if (a < 0xD800 || a > 0xDFFF) { c = a; return 1; }
			if (a > 0xDBFF || i + 1 >= s.size() || at(i + 1) < 0xDC00 || at(i + 1) > 0xDFFF) return 0;
			c = 0x10000 + ((a - 0xD800) * 1024 + (at(i + 1) - 0xDC00)); return 2;
		default:
			if (a < 0x80) { c = a; return 1; }
			int n = 0; while (n < 8 && (a << n & 0x80)) n++;
			if (n < 2 || n > 6 || i + n > s.size()) return 0;
			c = a & (0x7f >> n); for (int k = 1; k < n; k++) { if ((at(i + k) & 0xC0) != 0x80) return 0; c = c << 6 | (at(i + k) & 0x3f); }
			Units back; if (!encode(U8, c, back) || (int)back.size() != n) return 0;
			return n;
		}
	}
	struct Step { uint32_t unit; int index, size; };	// one unit of output and the source cluster it came from
	struct Expect { std::vector<Step> steps; bool clean; size_t consumed; };
	Expect convert(Enc from, Enc to, const Units& src)
	{
		Expect x; x.clean = true; x.consumed = src.size();
		for (size_t i = 0; i < src.size();)
		{
			uint32_t c; int n = decode(from, src, i, c); Units o;
			if (!n || !encode(to, c, o)) { x.clean = false; x.consumed = i; break; }
			for (uint32_t u : o) x.steps.push_back({ u, (int)i, n });
			i += n;
		}
		return x;
	}

	// ---- generated sources ----------------------------------------------------------------------------
	uint32_t gen_char(Enc e)
	{
		static const uint32_t edge[] = { 'a', 1, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x100, 0xFF00, 0xFFFE, 0x110000, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFF, 0xD800, 0xDFFF, 0x80000000u, 0xFFFFFFFFu }; static const uint32_t known[] = { 0x1F600, 0xFEFF, 0xFFFD, 0xFDD0, 0x2028, 0x20AC, 0x4E2D, 0xE9, 0xA0, 0x85, 0x7FE, 0x801, 0xFFF, 0x1000, 0xD7A3, 0xE001, 0xF8FF, 0x1FFFF, 0x20000, 0x2F800, 0x30000, 0xE0001, 0xF0000, 0x10FFFE, 0x10FFFD, 0x10FC00, 0x103FF, 0x10400 };
		int n = sim::chance(1, 12) ? 24 : e == U8 ? 18 : 14; uint32_t c; switch (sim::choose(6)) { case 0: c = 1 + sim::choose(0x10FFFF); break; case 1: c = 1 + (sim::choose(0x1FFFFF) >> sim::choose(21)); if (c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF)) c = (c & 0x7FF) | 1; break; case 2: c = known[sim::choose(28)]; break; default: c = edge[sim::choose(n)]; }
		return c;
	}
	Units gen_source(Enc e, bool& damaged)
	{
		Units u; int chars = sim::choose(9); damaged = false;
		for (int i = 0; i < chars; i++) { uint32_t c = gen_char(e); if (!encode(e, c, u)) encode(e, 'x', u); }
		if (chars && sim::chance(1, 40)) { Units v = u; for (int k = (int)sim::choose(sim::chance(1, 20) ? 2000 : 160); k > 0; k--) u.insert(u.end(), v.begin(), v.end()); sim::probe("long_text"); }
		uint32_t mask = e == U8 ? 0xff : e == U16 || e == U16BE ? 0xffff : 0xffffffffu; int bits = e == U8 ? 8 : e == U16 || e == U16BE ? 16 : 32;
		if (sim::chance(1, 2)) for (int k = 1 + sim::choose(2); k > 0 && u.size(); k--)
		{
			size_t at = sim::choose((uint32_t)u.size()); damaged = true;
			switch (sim::choose(6))
			{
			case 0: u.resize(at); sim::fault("truncated_source"); break;
			case 1: u[at] ^= 1u << sim::choose(bits); sim::fault("flipped_bit"); break;
			case 2: u.erase(u.begin() + at); sim::fault("lost_unit"); break;
			case 3: u.insert(u.begin() + at, u[at]); sim::fault("duplicated_unit"); break;
			case 4: if (at + 1 < u.size()) { std::swap(u[at], u[at + 1]); sim::fault("reordered_units"); } break;
			case 5: u[at] = (1 + sim::choose(0xfffffffe)) & mask; sim::fault("overwritten_unit"); break;
			}
		}
		for (uint32_t& x : u) if (!x) x = 'z';	// a zero unit is the end of a source
		return u;
	}
	template<class T> T* place(const Units& u, bool zero)	// exactly sized: reading past the end is caught by the simulated heap
	{
		size_t n = u.size() + (zero ? 1 : 0); T* p = (T*)sim::heap_alloc(sizeof(T) * (n ? n : 1));
		for (size_t i = 0; i < u.size(); i++) p[i] = unit<T>(u[i]);
		if (zero) p[u.size()] = unit<T>(0);
		if (!n) { void* q = p; sim::heap_free(q); }
		return p;
	}
	// a source that fails now and then: the unit is not lost, the reader may ask again
	struct SourceError {};
	struct Device { const Units* units; size_t pos; bool flaky; int reads, after_end; };
	template<class T> class DeviceConsumer : public Object
	{
	protected:
		Device* dev;
		T Consume()
		{
			sim::Har h; dev->reads++;
			if (dev->flaky && sim::chance(1, 4)) { sim::fault("source_read_error"); throw SourceError(); }
			if (dev->pos == dev->units->size()) { dev->after_end++; return unit<T>(0); }
			return unit<T>((*dev->units)[dev->pos++]);
		}
	public:
		DeviceConsumer(Device* d) : dev(d) {}
	};
	template<class A, class B> class DeviceReader : public UtfToUtfReaderBase<A, B, DeviceConsumer<A>> { using Base = UtfToUtfReaderBase<A, B, DeviceConsumer<A>>; public: DeviceReader(Device* d) : Base(d) {} };

	// ---- an open reader, driven step by step -----------------------------------------------------------
	struct Reader
	{
		Enc from, to; Units src; Expect x; size_t got = 0; bool ended = false; std::string what; Device dev{};
		virtual ~Reader() {}
		virtual uint32_t read() = 0; virtual vint index() = 0; virtual UtfCharCluster cluster() = 0; virtual Reader* clone() = 0; virtual bool copyable() { return true; }
		void check_index()
		{
			if (ended && !x.clean) return;	// after damage only the end is promised
			vint i = index(); UtfCharCluster c = cluster();
			vint wi = ended ? (vint)x.steps.size() : (vint)got - 1, ci = ended ? (vint)src.size() : got ? x.steps[got - 1].index : 0, cs = ended ? 0 : got ? x.steps[got - 1].size : 0;
			SIM_CHECK(i == wi, "wrong-position", "%s: after %zu units%s the reading index is %lld, should be %lld", what.c_str(), got, ended ? " and the end" : "", (long long)i, (long long)wi);
			SIM_CHECK(c.index == ci && c.size == cs, "wrong-position", "%s: after %zu units%s the source cluster is %lld+%lld, should be %lld+%lld", what.c_str(), got, ended ? " and the end" : "", (long long)c.index, (long long)c.size, (long long)ci, (long long)cs);
		}
		void step()
		{
			uint32_t u; try { sim::Lib l; u = read(); } catch (const SourceError&) { sim::log("%s: source fails", what.c_str()); sim::probe("retried_read"); check_index(); return; }
			if (got < x.steps.size())
			{
				SIM_CHECK(u == x.steps[got].unit, "wrong-text", "%s of %s: unit %zu is %x, should be %x", what.c_str(), show(src).c_str(), got, u, x.steps[got].unit);
				got++;
			}
			else
			{
				SIM_CHECK(u == 0, "wrong-text", "%s of %s: yields %x after %zu units, where the source %s", what.c_str(), show(src).c_str(), u, got, x.clean ? "ends" : "is damaged");
				if (!ended && !x.clean) sim::probe("stopped_at_damage");
				if (ended) sim::probe("read_after_the_end"); ended = true;
			}
			check_index();
		}
	};
	template<class A, class B, class R> struct ReaderOf : Reader
	{
		R* r; static void* mem() { return sim::heap_alloc(sizeof(R)); }
		~ReaderOf() { LIB(r->~R()); sim::heap_free(r); }
		uint32_t read() override { return value(r->Read()); } vint index() override { return LIB(return r->ReadingIndex()); } UtfCharCluster cluster() override { return LIB(return r->SourceCluster()); }
		Reader* clone() override { auto n = new ReaderOf(*this); n->r = (R*)mem(); LIB(new(n->r) R((const R&)*r)); return n; } bool copyable() override { return !std::is_same_v<R, DeviceReader<A, B>>; }
	};
	template<class A, class B> Reader* open_pair()
	{
		bool damaged; Units src = gen_source(E<A>::e, damaged); Expect x = convert(E<A>::e, E<B>::e, src);
		auto init = [&](auto* r, const char* kind) { r->from = E<A>::e; r->to = E<B>::e; r->src = src; r->x = x; r->what = std::string(names[r->from]) + " to " + names[r->to] + " (" + kind + ")"; r->r = (decltype(r->r))r->mem(); sim::log("open %s over %s%s", r->what.c_str(), show(src).c_str(), x.clean ? "" : " (damaged)"); };
		switch (sim::choose(4))
		{
		case 0: { auto r = new ReaderOf<A, B, UtfStringToStringReader<A, B>>; init(r, "string"); const A* p = place<A>(src, true); LIB(new(r->r) UtfStringToStringReader<A, B>(p)); return r; }
		case 1: { auto r = new ReaderOf<A, B, UtfStringRangeToStringRangeReader<A, B>>; init(r, "range"); const A* p = place<A>(src, false); LIB(new(r->r) UtfStringRangeToStringRangeReader<A, B>(p, p + src.size())); return r; }
		case 2: { auto r = new ReaderOf<A, B, UtfStringRangeToStringRangeReader<A, B>>; init(r, "counted"); const A* p = place<A>(src, false); LIB(new(r->r) UtfStringRangeToStringRangeReader<A, B>(p, (vint)src.size())); return r; }
		default: { auto r = new ReaderOf<A, B, DeviceReader<A, B>>; init(r, "device"); r->dev = Device{ &r->src, 0, true, 0, 0 }; Device* d = &r->dev; LIB(new(r->r) DeviceReader<A, B>(d)); return r; }
		}
	}
	template<class A> Reader* open_from() { switch (sim::choose(5)) { case 0: return open_pair<A, char8_t>(); case 1: return open_pair<A, char16_t>(); case 2: return open_pair<A, char32_t>(); case 3: return open_pair<A, wchar_t>(); default: return open_pair<A, char16be_t>(); } }
	Reader* open() { switch (sim::choose(5)) { case 0: return open_from<char8_t>(); case 1: return open_from<char16_t>(); case 2: return open_from<char32_t>(); case 3: return open_from<wchar_t>(); default: return open_from<char16be_t>(); } }

	// ---- whole strings -----------------------------------------------------------------------------------
	// a string with exactly these units: whole, or a slice of a longer one
	template<class A> ObjectString<A> text(const Units& src)
	{
		if (sim::chance(1, 2)) { A* p = place<A>(src, true); ObjectString<A> s = LIB(return ObjectString<A>::CopyFrom(p, (vint)src.size())); sim::heap_free(p); return s; }
		int a = (int)sim::choose(3), b = (int)sim::choose(3); Units u(a, 'L'); u.insert(u.end(), src.begin(), src.end()); u.insert(u.end(), b, 'R'); A* p = place<A>(u, true); sim::probe("slice_converted");
		ObjectString<A> s = LIB(return ObjectString<A>::CopyFrom(p, (vint)u.size()).Sub(a, (vint)src.size())); sim::heap_free(p); return s;
	}
	template<class B> Units units(const char* name, ObjectString<B>& r)
	{
		Units got; vint n = LIB(return r.Length()); for (vint i = 0; i < n; i++) got.push_back(value(LIB(return r[i]))); const B* z = LIB(return r.Buffer()); uint32_t t = value(LIB(return z[n])); SIM_CHECK(!t, "wrong-text", "%s: the result has no terminator", name); return got;
	}
	// narrow text in the encoding of the C locale
	HARNESS bool utf_locale;
	template<class A> void to_narrow(const char* name, AString(*f)(const ObjectString<A>&))
	{
		Units src, want; bool ok = true; int chars = (int)sim::choose(9); bool ascii = sim::chance(1, 3);
		for (int i = 0; i < chars; i++) { uint32_t c = ascii ? 1 + sim::choose(127) : gen_char(U16); if (c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF) || (c >= 0xE0000 && c <= 0xE007F)) c = 'y';	/* glibc drops tag characters in the C locale */ encode(E<A>::e, c, src); if (c > 127 && !utf_locale) ok = false; encode(U8, c, want); }
		if (chars && E<A>::e == W && sim::chance(1, 6)) { src[sim::choose((uint32_t)src.size())] = sim::chance(1, 2) ? 0xD800 : 0x80000000u; ok = false; sim::fault("inexpressible_character"); }
		if (!ok) { want.clear(); sim::probe("not_in_locale"); }
		sim::log("%s(%s) in a %s locale", name, show(src).c_str(), utf_locale ? "UTF-8" : "C"); ObjectString<A> s = text<A>(src); AString r = LIB(return f(s)); Units got = units(name, r); for (auto& x : got) x &= 0xff;
		SIM_CHECK(got == want, "wrong-text", "%s(%s) yields %s, should be %s", name, show(src).c_str(), show(got).c_str(), show(want).c_str()); Units kept = units(name, s); SIM_CHECK(kept == src, "wrong-text", "%s changed its argument", name); LIB(s = ObjectString<A>(); r = AString());
	}
	template<class B> void from_narrow(const char* name, ObjectString<B>(*f)(const AString&))
	{
		Units src, want; int chars = (int)sim::choose(9); bool ascii = !utf_locale || sim::chance(1, 3);
		for (int i = 0; i < chars; i++) { uint32_t c = ascii ? 1 + sim::choose(127) : gen_char(U16); if (c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF)) c = 'y'; encode(U8, c, src); encode(E<B>::e, c, want); }
		if (chars && utf_locale && sim::chance(1, 6)) { src.insert(src.begin() + sim::choose((uint32_t)src.size() + 1), 0xFF); want.clear(); sim::fault("inexpressible_character"); }
		sim::log("%s(%s) in a %s locale", name, show(src).c_str(), utf_locale ? "UTF-8" : "C"); AString s = text<char>(src); ObjectString<B> r = LIB(return f(s)); Units got = units(name, r);
		SIM_CHECK(got == want, "wrong-text", "%s(%s) yields %s, should be %s", name, show(src).c_str(), show(got).c_str(), show(want).c_str()); LIB(s = AString(); r = ObjectString<B>());
	}
	void narrow()
	{
		switch (sim::choose(8))
		{
		case 0: to_narrow<wchar_t>("wtoa", wtoa); break; case 1: to_narrow<char8_t>("u8toa", u8toa); break; case 2: to_narrow<char16_t>("u16toa", u16toa); break; case 3: to_narrow<char32_t>("u32toa", u32toa); break;
		case 4: from_narrow<wchar_t>("atow", atow); break; case 5: from_narrow<char8_t>("atou8", atou8); break; case 6: from_narrow<char16_t>("atou16", atou16); break; default: from_narrow<char32_t>("atou32", atou32); break;
		}
	}
	template<class A, class B> void whole(const char* name, ObjectString<B>(*f)(const ObjectString<A>&))
	{
		bool damaged; Units src = gen_source(E<A>::e, damaged); Expect x = convert(E<A>::e, E<B>::e, src); sim::log("%s(%s)", name, show(src).c_str());
		Units got; { ObjectString<A> s = text<A>(src); ObjectString<B> r = LIB(return f(s)); got = units(name, r); LIB(s = ObjectString<A>(); r = ObjectString<B>()); }
		Units want; for (auto& s : x.steps) want.push_back(s.unit);
		SIM_CHECK(got == want, "wrong-text", "%s(%s) yields %s, should be %s", name, show(src).c_str(), show(got).c_str(), show(want).c_str());
	}
	template<class A, class B> void buffer(const char* name, vint(*f)(const A*, B*, vint))
	{
		bool damaged; Units src = gen_source(E<A>::e, damaged); Expect x = convert(E<A>::e, E<B>::e, src); A* p = place<A>(src, true); vint len = (vint)x.steps.size() + 1;
		vint need = LIB(return f(p, nullptr, 0)); SIM_CHECK(need == len, "wrong-text", "%s(%s) needs %lld units, should be %lld", name, show(src).c_str(), (long long)need, (long long)len);
		vint room = 1 + sim::choose((uint32_t)len + 2); B* d = (B*)sim::heap_alloc(sizeof(B) * room); vint k = LIB(return f(p, d, room)); vint wk = room < len ? room : len; sim::log("%s(%s) with room for %lld", name, show(src).c_str(), (long long)room);
		SIM_CHECK(k == wk, "wrong-text", "%s(%s) with room for %lld writes %lld units, should be %lld", name, show(src).c_str(), (long long)room, (long long)k, (long long)wk);
		for (vint i = 0; i < k; i++) { uint32_t u = value(LIB(return d[i])), w = i < len - 1 ? x.steps[i].unit : 0; SIM_CHECK(u == w, "wrong-text", "%s(%s): unit %lld is %x, should be %x", name, show(src).c_str(), (long long)i, u, w); }
		sim::heap_free(d);
	}
	// one character at a time, in exactly sized memory
	template<class A> void direct()
	{
		const Enc e = E<A>::e;
		if (sim::chance(1, 2))
		{
			bool damaged; Units src = gen_source(e, damaged); if (src.size() > 7) src.resize(7); if (sim::chance(1, 2)) src.resize(sim::choose((uint32_t)src.size() + 1)); A* p = place<A>(src, false); uint32_t c = 0; int n = src.empty() ? 0 : decode(e, src, 0, c); char32_t d = 0;
			sim::log("decode one character of %s %s", names[e], show(src).c_str()); vint r = LIB(return UtfConversion<A>::To32(p, (vint)src.size(), d));
			SIM_CHECK(r == (n ? n : -1) && (!n || (uint32_t)d == c), "wrong-text", "decoding one character of %s %s takes %lld units and yields %x, should take %d and yield %x", names[e], show(src).c_str(), (long long)r, (unsigned)d, n ? n : -1, c);
			if (src.size()) { void* q = p; sim::heap_free(q); }
		}
		else
		{
			uint32_t c = gen_char(e); Units want; bool ok = encode(e, c, want); if (!ok) want.clear(); typedef A Buf[UtfConversion<A>::BufferLength]; Buf* b = (Buf*)sim::heap_alloc(sizeof(Buf)); sim::log("encode %x as %s", c, names[e]); vint r = LIB(return UtfConversion<A>::From32((char32_t)c, *b)); Units got;
			SIM_CHECK(r == (ok ? (vint)want.size() : -1), "wrong-text", "encoding %x as %s yields %lld units, should be %d", c, names[e], (long long)r, ok ? (int)want.size() : -1); for (vint i = 0; i < r; i++) got.push_back(value(LIB(return (*b)[i]))); SIM_CHECK(got == want, "wrong-text", "encoding %x as %s yields %s, should be %s", c, names[e], show(got).c_str(), show(want).c_str()); sim::heap_free(b);
		}
	}
	void strings()
	{
		if (sim::chance(1, 3)) { switch (sim::choose(4)) { case 0: direct<char8_t>(); break; case 1: direct<char16_t>(); break; case 2: direct<char16be_t>(); break; default: direct<wchar_t>(); } return; }
		if (sim::chance(1, 3)) { narrow(); return; }
		switch (sim::choose(12))
		{
#define CASE(N, A, B, F) case N: if (sim::chance(1, 2)) whole<A, B>(#F, F); else buffer<A, B>(#F " into a buffer", _utftoutf<A, B>); break;
		CASE(0, char8_t, char32_t, u8tou32) CASE(1, char32_t, char8_t, u32tou8) CASE(2, char16_t, char32_t, u16tou32) CASE(3, char32_t, char16_t, u32tou16) CASE(4, wchar_t, char8_t, wtou8) CASE(5, char8_t, wchar_t, u8tow)
		CASE(6, wchar_t, char16_t, wtou16) CASE(7, char16_t, wchar_t, u16tow) CASE(8, char8_t, char16_t, u8tou16) CASE(9, char16_t, char8_t, u16tou8) CASE(10, wchar_t, char32_t, wtou32) CASE(11, char32_t, wchar_t, u32tow)
		}
	}
}
static int run(int most, int mean)
{
	std::vector<Reader*> rs;
	struct Close { std::vector<Reader*>& r; ~Close() { for (auto x : r) delete x; } } close{ rs };
	int n = sim::ops(most, mean, [&]
	{
		switch (sim::pick({ 10, 3, 2, 1, 2 }))
		{
		case 0: if (rs.size()) { auto r = rs[sim::choose((uint32_t)rs.size())]; for (int k = 1 + sim::choose(4); k > 0; k--) r->step(); break; } [[fallthrough]];
		case 1: if (rs.size() < 4) rs.push_back(open()); break;
		case 2: if (rs.size() && rs.size() < 6) { auto r = rs[sim::choose((uint32_t)rs.size())]; if (r->copyable()) { sim::log("checkpoint %s", r->what.c_str()); sim::probe("checkpoint"); rs.push_back(r->clone()); } } break;
		case 3: if (rs.size()) { int i = sim::choose((uint32_t)rs.size()); sim::log("close %s", rs[i]->what.c_str()); delete rs[i]; rs.erase(rs.begin() + i); } break;
		case 4: strings(); break;
		}
	});
	for (auto r : rs) for (int k = 0; k < 200000 && !r->ended; k++) r->step();
	for (auto r : rs) SIM_CHECK(r->ended, "no-progress", "%s never reports the end", r->what.c_str());
	return n;
}
void sim_scenario()
{
	utf_locale = sim::chance(1, 2); if (utf_locale && !setlocale(LC_CTYPE, "C.UTF-8")) utf_locale = false; if (!utf_locale) setlocale(LC_CTYPE, "C");
	int threads = sim::chance(1, 4) ? 1 + (int)sim::choose(2) : 0; if (threads) sim::probe("converted_on_threads");
	for (int t = 0; t < threads; t++) sim::spawn([] { run(8, 4); });
	int n = run(threads ? 12 : 60, threads ? 5 : 24); sim::join_all();
	if (n > 2) sim::nontrivial();
}

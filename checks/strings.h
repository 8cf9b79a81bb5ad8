// Generated string operations with their expected result on a plain value type; used by C04 and C05.
#pragma once
#include "common.h"
#include "Source/Strings/String.h"
#include <functional>

namespace strs
{
	using namespace vl;
	template<class T> using Model = std::basic_string<T>;
	template<class T> std::string show(const Model<T>& m) { std::string s = "\""; for (T c : m) { if (c == 0) s += "\\0"; else if (c < 127 && c > 31) s += (char)c; else { char b[16]; snprintf(b, 16, "\\%x", (unsigned)c); s += b; } } return s + "\""; }

	// contents as seen through the public interface
	template<class T> void check_contents(const ObjectString<T>& s, const Model<T>& m, const char* what)
	{
		vint len = LIB(return s.Length());
		SIM_CHECK(len == (vint)m.size(), "wrong-contents", "%s: length %lld, should be %zu", what, (long long)len, m.size());
		Model<T> got;
		for (vint i = 0; i < len; i++) { T c = LIB(return s[i]); got.push_back(c); }
		SIM_CHECK(got == m, "wrong-contents", "%s: contents %s, should be %s", what, show(got).c_str(), show(m).c_str());
	}
	template<class T> void check_buffer(const T* p, const Model<T>& m, const char* what)
	{
		for (size_t i = 0; i <= m.size(); i++) { T c = LIB(return p[i]); SIM_CHECK(c == (i < m.size() ? m[i] : T(0)), "wrong-buffer", "%s: character %zu of the zero-terminated buffer of %s is %x", what, i, show(m).c_str(), (unsigned)c); }
	}
	// in some runs texts are much longer
	static HARNESS int longest_; inline int& longest() { return longest_; }
	inline int limit() { return longest() > 100 ? 700 : longest() > 9 ? 160 : 40; }
	inline void choose_lengths() { longest() = sim::chance(1, 6) ? (sim::chance(1, 16) ? 200 + (int)sim::choose(150) : 24 + (int)sim::choose(40)) : 9; }
	template<class T> Model<T> gen_text(int max = 0)
	{
		Model<T> m; int n = (int)sim::choose((max ? max : longest()) + 1);
		for (int i = 0; i < n; i++) m.push_back(T('a' + sim::choose(3)));
		return m;
	}
	// raw memory that outlives every string of the run
	template<class T> T* raw(const Model<T>& m)
	{
		T* p = (T*)sim::heap_alloc(sizeof(T) * (m.size() + 1));
		for (size_t i = 0; i < m.size(); i++) p[i] = m[i];
		p[m.size()] = 0;
		return p;
	}

	// a caller's buffer that is gone after the call
	template<class T> struct Passing { T* p; Passing(const Model<T>& m) { sim::Har h; p = raw(m); } ~Passing() { sim::Har h; sim::heap_free(p); } };

	template<class T> struct Op
	{
		const char* name = "";
		std::function<ObjectString<T>()> run;		// library code
		Model<T> expect;
		bool error = false;							// an argument is out of range: an error is reported
		bool unmanaged = false;
	};
	// an expression over the strings s[0..n), whose models are m[0..n)
	template<class T> Op<T> gen_op(ObjectString<T>* s, Model<T>* m, int n)
	{
		Op<T> o; int a = sim::choose(n), b = sim::choose(n); ObjectString<T>* A = s + a; ObjectString<T>* B = s + b; Model<T> ma = m[a], mb = m[b]; vint la = (vint)ma.size();
		switch (sim::pick({ 3, 4, 5, 6, 6, 6, 5, 4, 4, 3, 3, 2, 2, 2 }))
		{
		case 0: o.name = "copy"; o.run = [=] { return ObjectString<T>(*A); }; o.expect = ma; break;
		case 1: { auto t = gen_text<T>(); o.name = "from zero-terminated"; o.run = [=] { Passing<T> r(t); return ObjectString<T>(r.p); }; o.expect = t; } break;
		case 2: { auto t = gen_text<T>(); if (t.size() && sim::chance(1, 6)) t[sim::choose((uint32_t)t.size())] = 0; vint k = (vint)t.size(); o.name = "from memory"; o.run = [=] { Passing<T> r(t); return ObjectString<T>::CopyFrom(r.p, k); }; o.expect = t; } break;
		case 3: { vint c = (vint)sim::choose((uint32_t)la + 1); o.name = "left"; o.run = [=] { return A->Left(c); }; o.expect = ma.substr(0, c); } break;
		case 4: { vint c = (vint)sim::choose((uint32_t)la + 1); o.name = "right"; o.run = [=] { return A->Right(c); }; o.expect = ma.substr(la - c); } break;
		case 5: { vint i = (vint)sim::choose((uint32_t)la + 1), c = (vint)sim::choose((uint32_t)(la - i) + 1); o.name = "sub"; o.run = [=] { return A->Sub(i, c); }; o.expect = ma.substr(i, c); } break;
		case 6: if ((int)(ma.size() + mb.size()) < limit()) { o.name = "concatenate"; o.run = [=] { return *A + *B; }; o.expect = ma + mb; } else { o.name = "empty"; o.run = [=] { return ObjectString<T>(); }; } break;
		case 7: { auto t = gen_text<T>(); bool left = sim::chance(1, 2); if ((int)ma.size() > limit()) { o.name = "empty"; o.run = [=] { return ObjectString<T>::Empty; }; break; } o.name = left ? "prepend raw" : "append raw"; if (left) { o.run = [=] { Passing<T> r(t); return (const T*)r.p + *A; }; o.expect = t + ma; } else { o.run = [=] { Passing<T> r(t); return *A + (const T*)r.p; }; o.expect = ma + t; } } break;
		case 8: if (la > 0) { vint i = (vint)sim::choose((uint32_t)la), c = (vint)sim::choose((uint32_t)(la - i) + 1); o.name = "remove"; o.run = [=] { return A->Remove(i, c); }; o.expect = ma; o.expect.erase(i, c); } else { o.name = "empty"; o.run = [=] { return ObjectString<T>(); }; } break;
		case 9: if ((int)(ma.size() + mb.size()) < limit()) { vint i = (vint)sim::choose((uint32_t)la + 1); o.name = "insert"; o.run = [=] { return A->Insert(i, *B); }; o.expect = ma; o.expect.insert(i, mb); } else { o.name = "empty"; o.run = [=] { return ObjectString<T>::Empty; }; } break;
		case 10: { auto t = gen_text<T>(); T* r = raw(t); o.name = "unmanaged"; o.unmanaged = true; o.run = [=] { return ObjectString<T>::Unmanaged(r); }; o.expect = t; } break;
		case 11: { T c = T('a' + sim::choose(3)); o.name = "from character"; o.run = [=] { return ObjectString<T>::FromChar(c); }; o.expect = Model<T>(1, c); } break;
		case 12: { auto t = gen_text<T>(); vint k = (vint)t.size(); T* src = raw(t); o.name = "take over"; o.run = [=] { T* p = new T[k + 1]; memcpy(p, src, sizeof(T) * (k + 1)); return ObjectString<T>::TakeOver(p, k); }; o.expect = t; } break;
		case 13: // out of range
			{
				o.error = true; int k = sim::choose(12); static const vint huge[] = { INT64_MAX, INT64_MAX - 1, INT64_MAX / 2, INT64_MIN, INT64_MIN + 1, INT64_MIN / 2 }; vint h = huge[sim::choose(6)], hi = (vint)sim::choose((uint32_t)la + 1);
				switch (k)
				{
				case 0: o.name = "left too long"; o.run = [=] { return A->Left(la + 1); }; break;
				case 1: o.name = "right too long"; o.run = [=] { return A->Right(la + 1); }; break;
				case 2: o.name = "negative left"; o.run = [=] { return A->Left(-1); }; break;
				case 3: o.name = "sub beyond the end"; { vint i = (vint)sim::choose((uint32_t)la + 1); o.run = [=] { return A->Sub(i, la - i + 1); }; } break;
				case 4: o.name = "sub before the start"; o.run = [=] { return A->Sub(-1, 1); }; break;
				case 5: o.name = "remove beyond the end"; o.run = [=] { return A->Remove(la ? la - 1 : 0, 2); }; break;
				case 7: o.name = "remove a negative count"; o.run = [=] { return A->Remove(la ? la - 1 : 0, -1); }; break;
				case 8: o.name = "sub of negative length"; o.run = [=] { return A->Sub(la, -1); }; break;
				case 9: o.name = "sub of a huge count"; o.run = [=] { return A->Sub(hi, h); }; break;
				case 10: o.name = "remove of a huge count"; o.run = [=] { return A->Remove(hi, h); }; break;
				case 11: o.name = "huge position"; { int w = sim::choose(5); o.run = [=] { return w == 0 ? A->Sub(h, 1) : w == 1 ? A->Remove(h, 0) : w == 2 ? A->Insert(h, *B) : w == 3 ? A->Left(h) : A->Right(h); }; } break;
				case 6: o.name = "insert beyond the end"; o.run = [=] { return A->Insert(la + 1, *B); }; break;
				}
			} break;
		}
		return o;
	}
}

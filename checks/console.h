// A simulated console: standard wide streams and wide stdio calls end in one recording device with faults.
#pragma once
#include "common.h"
#include <iostream>
#include <streambuf>
#include <stdarg.h>
#include <wchar.h>
#include <stdio.h>

namespace con
{
	struct BrokenStream {};
	// ---- output device ---------------------------------------------------------------------------------
	struct Out
	{
		std::wstring got;			// everything the device received
		long fail_at = -1;			// the device breaks after this many further characters (-1: never)
		int broken = 0;				// calls that still fail
		int how = 0;				// 0: refuses characters, 1: throws
		bool hit = false;			// a fault fired since it was last cleared
		bool slow = false;
		size_t put(const wchar_t* s, size_t n)
		{
			sim::Har h; if (slow) sim::yield();
			if (broken > 0) { broken--; hit = true; sim::fault("console_write_fails"); if (how) throw BrokenStream(); return 0; }
			size_t k = n; if (fail_at >= 0 && (size_t)fail_at < n) k = (size_t)fail_at;
			got.append(s, k); if (fail_at >= 0) fail_at -= (long)k;
			if (k < n) { fail_at = -1; hit = true; sim::fault(k ? "console_short_write" : "console_write_fails"); if (how) throw BrokenStream(); }
			return k;
		}
	};
	extern Out out;
	// ---- input device ----------------------------------------------------------------------------------
	struct In { std::wstring text; size_t at = 0; size_t chunk = 1; long fail_at = -1; bool ended = false; int asked_after_end = 0; };
	extern In in;
	struct OutBuf : std::wstreambuf
	{
		std::streamsize xsputn(const wchar_t* s, std::streamsize n) override { return (std::streamsize)out.put(s, (size_t)n); }
		int_type overflow(int_type c) override { if (c == WEOF) return 0; wchar_t w = (wchar_t)c; return out.put(&w, 1) == 1 ? c : WEOF; }
		int sync() override { return 0; }
	};
	struct InBuf : std::wstreambuf
	{
		wchar_t b[64];
		int_type underflow() override
		{
			sim::Har h; sim::yield();
			if (in.ended || in.at >= in.text.size()) { in.ended = true; in.asked_after_end++; SIM_CHECK(in.asked_after_end < 200, "hang", "reading keeps asking for input after the end"); return WEOF; }
			size_t n = std::min<size_t>(std::min<size_t>(in.chunk, 64), in.text.size() - in.at);
			if (in.fail_at >= 0 && in.at + n > (size_t)in.fail_at) { n = (size_t)in.fail_at - in.at; if (!n) { in.ended = true; sim::fault("console_read_fails"); throw BrokenStream(); } }
			for (size_t i = 0; i < n; i++) b[i] = in.text[in.at + i]; in.at += n; if (n < in.chunk || n < 64) sim::probe("input_in_pieces");
			setg(b, b, b + n); return (int_type)b[0];
		}
	};
	inline void attach() { static OutBuf ob; static InBuf ib; out = Out(); in = In(); new(&ob) OutBuf; new(&ib) InBuf; std::wcout.rdbuf(&ob); std::wcin.rdbuf(&ib); std::wcout.clear(); std::wcin.clear(); }
}
#define CONSOLE_STATE namespace con { HARNESS Out out; HARNESS In in; } \
extern "C" { \
	static int con_put(const wchar_t* s, size_t n) { size_t k = 0; try { k = con::out.put(s, n); } catch (const con::BrokenStream&) {} return k == n ? (int)n : -1; } \
	static int con_fmt(const wchar_t* f, va_list a) { sim::Har h; wchar_t b[4096]; int n = vswprintf(b, 4096, f, a); return n < 0 ? n : con_put(b, (size_t)n); } \
	int __wrap_wprintf(const wchar_t* f, ...) { va_list a; va_start(a, f); int r = con_fmt(f, a); va_end(a); return r; } \
	int __wrap___wprintf_chk(int, const wchar_t* f, ...) { va_list a; va_start(a, f); int r = con_fmt(f, a); va_end(a); return r; } \
	int __wrap_fwprintf(FILE*, const wchar_t* f, ...) { va_list a; va_start(a, f); int r = con_fmt(f, a); va_end(a); return r; } \
	int __wrap___fwprintf_chk(FILE*, int, const wchar_t* f, ...) { va_list a; va_start(a, f); int r = con_fmt(f, a); va_end(a); return r; } \
	int __wrap_fputws(const wchar_t* s, FILE*) { return con_put(s, wcslen(s)) < 0 ? -1 : 1; } \
	wint_t __wrap_fputwc(wchar_t c, FILE*) { return con_put(&c, 1) < 0 ? WEOF : (wint_t)c; } \
	wint_t __wrap_putwc(wchar_t c, FILE*) { return con_put(&c, 1) < 0 ? WEOF : (wint_t)c; } \
	wint_t __wrap_putwchar(wchar_t c) { return con_put(&c, 1) < 0 ? WEOF : (wint_t)c; } \
}

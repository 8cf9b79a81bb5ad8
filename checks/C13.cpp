// C13: the unit test runner's verdict under generated test trees and failures of every kind.
#include "console.h"
#include "Source/UnitTest/UnitTest.h"
#include <memory>
#include <stdexcept>
using namespace vl;
using namespace vl::unittest;
using namespace common;
COMMON_STATE
CONSOLE_STATE
const char* const sim_property = "C13";

namespace
{
	typedef std::wstring M;
	enum Kind { File, Category, Case };
	struct Node; struct Act { int type, variant; std::shared_ptr<Node> child; };
	struct Node { int id; Kind kind; M name; std::vector<Act> acts; };
	const int NF = 6;
	HARNESS std::vector<std::shared_ptr<Node>> files; HARNESS int ids, left; HARNESS std::vector<int> trace, want_trace; HARNESS std::vector<M> want_lines; HARNESS int total_files, passed_files, total_cases, passed_cases; HARNESS bool healthy; HARNESS bool deep;
	const char* const names[NF] = { "/a/b/F0.cpp", "F1.cpp", "dir\\F2.cpp", "/a/F0.cpp", "/c/xF1.cpp", "d/G" };
	enum { CCat, CCase, CPrint, CThrow, CBadAssert, CBadError, CAssertTrue, CAssertFalse, CMax };
	enum { APass, AFail, AErrorOk, AErrorNone, AErrorOther, AExOk, AExNone, AExWrong, AExCallback, AThrow, ANestedCase, ANestedCategory, APrint, AErrorAssert, AExAssert, ACaught, AMax };

	std::shared_ptr<Node> gen(Kind k, int depth, bool failures)
	{
		auto n = std::make_shared<Node>(); n->id = ids++; n->kind = k; n->name = (k == Category ? L"category " : L"case ") + std::to_wstring(n->id); if (sim::chance(1, 10)) n->name += L" %s%d"; if (sim::chance(1, 12)) n->name = L"same name";
		sim::ops(5, k == Case ? 2 : 3, [&]
		{
			if (left-- <= 0) return; Act a{ 0, (int)sim::choose(8), nullptr };
			if (k == Case)
			{
				static const int fine[] = { APass, AErrorOk, AExOk, APrint, ACaught };
				a.type = failures && sim::chance(1, 3) ? (int)sim::choose(AMax) : fine[sim::choose(5)];
				if (a.type == ANestedCase || a.type == ANestedCategory) a.child = gen(a.type == ANestedCase ? Case : Category, depth + 1, false);
			}
			else
			{
				a.type = failures && sim::chance(1, 5) ? (int)sim::choose(CMax) : (int)sim::pick({ (uint32_t)(depth < 3 ? 2 : deep && depth < 12 ? 6 : 0), 5, 1, 0, 0, 0, 1 });
				if (a.type == CCat) a.child = gen(Category, depth + 1, failures); if (a.type == CCase) a.child = gen(Case, depth + 1, failures);
			}
			n->acts.push_back(a);
		});
		return n;
	}
	// ---- the model ----------------------------------------------------------------------------------------
	M ind(int depth) { return M(depth * 4, L' '); }
	bool model(const Node& n, int depth)
	{
		want_trace.push_back(n.id); bool failed = false;
		for (auto& a : n.acts)
		{
			want_trace.push_back(1000 + a.type); bool stop = false; if (n.kind == Case && (a.type == AErrorNone || a.type == AExNone)) want_trace.push_back(2000);
			if (n.kind == Case) { switch (a.type) { case APass: case AErrorOk: case AExOk: case ACaught: break; case APrint: want_lines.push_back(ind(depth + 1) + L"note"); break; default: stop = true; } }
			else switch (a.type)
			{
			case CCat: want_lines.push_back(ind(depth + 1) + a.child->name); failed |= model(*a.child, depth + 1); break;
			case CCase: { want_lines.push_back(ind(depth + 1) + a.child->name); bool f = model(*a.child, depth + 1); total_cases++; passed_cases += !f; failed |= f; } break;
			case CPrint: want_lines.push_back(ind(depth + 1) + L"note"); break;
			case CThrow: case CBadAssert: case CBadError: stop = true; break;
			case CAssertTrue: want_lines.push_back(ind(depth + 1) + L"always"); total_cases++; passed_cases++; break;
			case CAssertFalse: want_lines.push_back(ind(depth + 1) + L"never"); total_cases++; failed = true; break;
			}
			if (stop) { failed = true; break; }
		}
		return failed;
	}
	// ---- the real thing (library mode) --------------------------------------------------------------------
	void note(int x) { sim::Har h; trace.push_back(x); sim::log("%s %d", x >= 1000 ? "  act" : "body", x >= 1000 ? x - 1000 : x); }
	WString str(const M& m) { return WString::CopyFrom(m.c_str(), (vint)m.size()); }
	void throw_kind(int v)
	{
		switch (v)
		{
		case 0: throw Error(L"an error"); case 1: throw Exception(L"an exception"); case 2: throw ArgumentException(L"an argument"); case 3: throw 5; case 4: throw std::runtime_error("standard"); case 5: throw L"text";
		case 6: { sim::fail_alloc_after(0); try { WString s = WString(L"a") + WString(L"b"); sim::clear_alloc_faults(); } catch (...) { sim::clear_alloc_faults(); throw; } throw std::bad_alloc(); }
		default: throw UnitTestAssertError(L"by hand");
		}
	}
	struct Leak { Elem e; Leak() : e(1) {} };
	void body(const Node& n)
	{
		Leak lk; note(n.id);	// an object of the test itself: destroyed whatever happens
		const bool always = true, never = false;
		for (auto& a : n.acts)
		{
			note(1000 + a.type);
			if (n.kind == Case) switch (a.type)
			{
			case APass: TEST_ASSERT(always); break;
			case AFail: TEST_ASSERT(never); break;
			case AErrorOk: TEST_ERROR(throw Error(L"expected")); break;
			case AErrorNone: TEST_ERROR(note(2000)); break;
			case AErrorOther: TEST_ERROR(throw_kind(1 + a.variant % 6)); break;
			case AExOk: TEST_EXCEPTION(throw ArgumentException(L"expected"), Exception, [](const Exception&) {}); break;
			case AExNone: TEST_EXCEPTION(note(2000), Exception, [](const Exception&) {}); break;
			case AExWrong: TEST_EXCEPTION(throw_kind(3 + a.variant % 4), ArgumentException, [](const ArgumentException&) {}); break;
			case AExCallback: TEST_EXCEPTION(throw ArgumentException(L"expected"), ArgumentException, [&](const ArgumentException&) { if (a.variant % 2) TEST_ASSERT(never); else throw_kind(a.variant); }); break;
			case AThrow: throw_kind(a.variant); break;
			case ANestedCase: UnitTest::RunCategoryOrCase(str(a.child->name), false, [&] { body(*a.child); }); break;
			case ANestedCategory: UnitTest::RunCategoryOrCase(str(a.child->name), true, [&] { body(*a.child); }); break;
			case APrint: TEST_PRINT(L"note"); break;
			case AErrorAssert: TEST_ERROR(TEST_ASSERT(never)); break;
			case AExAssert: TEST_EXCEPTION(TEST_ASSERT(never), Exception, [](const Exception&) {}); break;
			case ACaught: try { TEST_ASSERT(never); note(3000); } catch (const UnitTestAssertError&) {} break;
			}
			else switch (a.type)
			{
			case CCat: TEST_CATEGORY(str(a.child->name)) { body(*a.child); }); break;
			case CCase: TEST_CASE(str(a.child->name)) { body(*a.child); }); break;
			case CPrint: TEST_PRINT(L"note"); break;
			case CThrow: throw_kind(a.variant); break;
			case CBadAssert: TEST_ASSERT(always); break;
			case CBadError: TEST_ERROR(throw Error(L"expected")); break;
			case CAssertTrue: TEST_CASE_ASSERT(always); break;
			case CAssertFalse: TEST_CASE_ASSERT(never); break;
			}
		}
	}
	template<int I> void proc() { const Node* n; { sim::Har h; n = files[I].get(); } body(*n); }
	const UnitTestFileProc procs[NF] = { &proc<0>, &proc<1>, &proc<2>, &proc<3>, &proc<4>, &proc<5> };
	std::vector<M> out_lines() { std::vector<M> r(1); const M& g = con::out.got; for (size_t i = 0; i < g.size(); i++) { if (g[i] == 0x1b && i + 1 < g.size() && g[i + 1] == L'[') { while (i < g.size() && g[i] != L'm') i++; } else if (g[i] == L'\n') r.push_back({}); else if (g[i] != L'\r' && g[i]) r.back().push_back(g[i]); } return r; }
	std::string n8(const M& m) { return std::string(m.begin(), m.end()); }

	HARNESS bool over;	// a failure escaped: the program ends
	void run_once()
	{
		con::out = con::Out(); con::out.how = (int)sim::choose(2); healthy = !sim::chance(1, 5); if (!healthy) { con::out.fail_at = (long)sim::choose(400); }
		trace.clear(); want_trace.clear(); want_lines.clear(); total_files = passed_files = total_cases = passed_cases = 0;
		std::vector<std::string> opts; bool usage = false, R = sim::chance(1, 2), D = sim::chance(1, 10), loud = false; std::vector<std::string> sel;
		if (R) opts.push_back("/R"); if (sim::chance(1, 20)) opts.push_back("/R");
		static const char* const fs[] = { "F0.cpp", "b/F0.cpp", "/a/b/F0.cpp", "F1.cpp", "dir\\F2.cpp", "F2.cpp", "1.cpp", "nothing", "a/F0.cpp", "xF1.cpp", "G" };
		if (sim::chance(1, 2)) sim::ops(4, 2, [&] { sel.push_back(fs[sim::choose(11)]); opts.push_back("/F:" + sel.back()); });
		if (sim::chance(1, 16)) { static const char* const bad[] = { "/F:", "/X", "F0.cpp", "", "/r" }; opts.insert(opts.begin() + sim::choose((uint32_t)opts.size() + 1), bad[sim::choose(5)]); usage = true; }
		bool hasR = false; for (auto& o : opts) hasR |= o == "/R"; if (D && hasR) { opts.insert(opts.begin() + sim::choose((uint32_t)opts.size() + 1), "/D"); usage = true; }
		auto chosen = [&](const std::string& nm) { if (sel.empty()) return true; for (auto& s : sel) { if (nm == s) return true; if (nm.size() > s.size() && nm.compare(nm.size() - s.size(), s.size(), s) == 0 && (nm[nm.size() - s.size() - 1] == '/' || nm[nm.size() - s.size() - 1] == '\\')) return true; } return false; };
		bool any = false;
		if (!usage) for (size_t i = 0; i < files.size(); i++)
		{
			std::string nm = names[i]; M w(nm.begin(), nm.end());
			if (!chosen(nm)) { want_lines.push_back(w + L" [SKIPPED]"); continue; }
			want_lines.push_back(w); bool f = model(*files[i], 0); total_files++; passed_files += !f; any |= f;
		}
		if (D && !hasR && !usage) { loud = true; opts.insert(opts.begin() + sim::choose((uint32_t)opts.size() + 1), "/D"); sim::probe("not_suppressed"); }	// failures are not suppressed: the first one escapes
		std::string cmd; for (auto& o : opts) cmd += " " + o; sim::log("run%s (%zu files)", cmd.c_str(), files.size());
		int r; bool wide = sim::chance(1, 2); int argc = (int)opts.size() + 1;
		std::vector<std::wstring> wo; wo.push_back(L"prog"); for (auto& o : opts) wo.push_back(M(o.begin(), o.end())); opts.insert(opts.begin(), "prog");
		std::vector<char*> an; std::vector<wchar_t*> aw; for (auto& o : opts) an.push_back(&o[0]); for (auto& o : wo) aw.push_back(&o[0]); an.push_back(nullptr); aw.push_back(nullptr);
		bool escaped = false; r = 0; try { r = LIB(return wide ? UnitTest::RunAndDisposeTests(argc, aw.data()) : UnitTest::RunAndDisposeTests(argc, an.data())); } catch (...) { escaped = true; if (!loud) sim::fail("wrong-exception", "a failure escaped from the runner although failures are suppressed"); if (!any) sim::fail("wrong-exception", "an exception escaped from the runner although nothing failed"); }
		con::out.fail_at = -1; if (any) sim::fault("test_failure"); SIM_CHECK(escaped || !loud || !any, "wrong-verdict", "failures are not suppressed, but none escaped");
		if (escaped) { SIM_CHECK(trace.size() <= want_trace.size() && std::equal(trace.begin(), trace.end(), want_trace.begin()), "wrong-order", "other steps ran before the failure that escaped"); over = true; SIM_CHECK(ledger.alive == 0, "lifetime", "%ld objects of test bodies were never destroyed", ledger.alive); return; }
		SIM_CHECK(trace == want_trace, "wrong-order", "%zu steps ran instead of %zu, the first difference is at %zu", trace.size(), want_trace.size(), (size_t)(std::mismatch(trace.begin(), trace.end(), want_trace.begin(), want_trace.end()).first - trace.begin()));
		SIM_CHECK((r != 0) == (any || usage), "wrong-verdict", "the run returns %d, %d of %d files passed%s", r, passed_files, total_files, usage ? ", the options were wrong" : "");
		SIM_CHECK(ledger.alive == 0, "lifetime", "%ld objects of test bodies were never destroyed", ledger.alive);
		if (con::out.hit || usage) return;
		auto lines = out_lines(); std::vector<M> named; size_t at = 0;
		for (auto& w : want_lines) { while (at < lines.size() && lines[at] != w) at++; SIM_CHECK(at < lines.size(), "wrong-output", "the line \"%s\" was not printed in its place", n8(w).c_str()); at++; }
		M a = L"Passed test files: " + std::to_wstring(passed_files) + L"/" + std::to_wstring(total_files), b = L"Passed test cases: " + std::to_wstring(passed_cases) + L"/" + std::to_wstring(total_cases);
		while (lines.size() && lines.back().empty()) lines.pop_back();
		SIM_CHECK(lines.size() >= 2 && lines[lines.size() - 2] == a && lines.back() == b, "wrong-output", "the totals are \"%s\" and \"%s\", should be \"%s\" and \"%s\"", lines.size() >= 2 ? n8(lines[lines.size() - 2]).c_str() : "", lines.size() ? n8(lines.back()).c_str() : "", n8(a).c_str(), n8(b).c_str());
	}
}
// outside any test file nothing of the framework may be used
static void outside()
{
	int k = (int)sim::choose(3); bool refused = false, ran = false; sim::log("%s outside any test file", k == 0 ? "an assertion" : k == 1 ? "a case" : "a category"); sim::probe("outside_any_file");
	try { sim::Lib l; switch (k) { case 0: TEST_ASSERT(true); break; case 1: TEST_CASE(L"outside") { ran = true; }); break; default: TEST_CATEGORY(L"outside") { ran = true; }); } } catch (const UnitTestConfigError&) { refused = true; }
	SIM_CHECK(refused && !ran, "wrong-verdict", "use outside any test file is %s", ran ? "carried out" : "not refused");
}
void sim_scenario()
{
	common::reset(); con::attach(); ids = 0; left = 60; deep = sim::chance(1, 5); bool failures = sim::chance(3, 4);
	int nf = 1 + (int)sim::choose(NF); UnitTestFile* mem[NF];
	for (int i = 0; i < nf; i++) { sim::Span s; files.push_back(gen(File, 0, failures)); mem[i] = LIB(return sim::make<UnitTestFile>(names[i], procs[i])); }
	int runs = 1 + (int)sim::choose(3); over = false; for (int i = 0; i < runs && !over; i++) { sim::Span s; if (sim::chance(1, 6)) outside(); run_once(); if (!over && sim::chance(1, 6)) outside(); }
	for (int i = 0; i < nf; i++) LIB(sim::unmake(mem[i]));
	sim::nontrivial();
	sim::check_no_leaks("end of run");
}

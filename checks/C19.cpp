// C19: placeholder text under any clock, any dice, several callers and failing memory.
#include "common.h"
#include "Source/Strings/LoremIpsum.h"
#include <time.h>
#include <stdlib.h>
using namespace vl;
using namespace common;
COMMON_STATE
const char* const sim_property = "C19";

namespace { HARNESS int dice_mode; HARNESS long rolls; HARNESS long long clock_now; HARNESS unsigned last_seed; }
extern "C"
{
	int __wrap_rand() { sim::Har h; rolls++; SIM_CHECK(rolls < 20000, "hang", "text generation keeps asking for random numbers"); switch (dice_mode) { case 0: return 0; case 1: return RAND_MAX; case 2: return (int)sim::choose(60); default: return (int)sim::choose(0x7fffffff); } }
	void __wrap_srand(unsigned s) { last_seed = s; }
	time_t __wrap_time(time_t* t) { sim::Har h; switch (sim::choose(4)) { case 0: break; case 1: clock_now += sim::choose(100000); break; case 2: clock_now -= sim::choose(100000); sim::fault("clock_jumps_back"); break; case 3: sim::fault("clock_fails"); if (t) *t = -1; return -1; } if (t) *t = clock_now; return clock_now; }
}
namespace
{
	HARNESS std::set<std::wstring>* dict;
	const wchar_t* const words = L"lorem ipsum dolor sit amet consectetur adipiscing elit integer nec odio praesent libero sed cursus ante dapibus diam nisi nulla quis sem at nibh elementum imperdiet duis sagittis mauris fusce tellus augue semper porta massa vestibulum lacinia arcu eget class aptent taciti sociosqu ad litora torquent per conubia nostra inceptos himenaeos curabitur sodales ligula in dignissim nunc tortor pellentesque aenean quam scelerisque maecenas mattis convallis tristique proin ut vel egestas porttitor morbi lectus risus iaculis suscipit luctus non ac turpis aliquet metus ullamcorper tincidunt euismod quisque volutpat condimentum velit nam urna neque a facilisi fringilla suspendisse potenti feugiat mi consequat sapien etiam ultrices justo eu magna lacus vitae pharetra auctor interdum primis faucibus orci et posuere cubilia curae; molestie dui blandit congue pede facilisis laoreet donec viverra malesuada enim est pulvinar sollicitudin cras id nisl felis venenatis commodo ultricies accumsan pretium fermentum nullam purus aliquam mollis vivamus consectetuer";
	typedef std::wstring M;
	std::string n8(const M& m) { std::string s = "\""; for (wchar_t c : m) s += c >= 32 && c < 127 ? (char)c : '?'; return s + "\""; }
	bool word(M w, bool upper) { if (w.empty()) return false; if (upper) { if (w[0] < L'A' || w[0] > L'Z') return false; w[0] += 32; } return dict->count(w) > 0; }
	std::vector<M> split(const M& m, const M& sep) { std::vector<M> r; size_t i = 0; while (true) { size_t j = m.find(sep, i); if (j == M::npos) { r.push_back(m.substr(i)); return r; } r.push_back(m.substr(i, j - i)); i = j + sep.size(); } }
	bool phrase(const M& m, LoremIpsumCasing c) { auto ws = split(m, L" "); for (size_t i = 0; i < ws.size(); i++) if (!word(ws[i], c == LoremIpsumCasing::AllWordsUpperCase || (c == LoremIpsumCasing::FirstWordUpperCase && i == 0))) return false; return true; }
	const int SLACK = 12;	// the longest word
	void length(const char* what, const M& m, vint best, int extra) { vint n = (vint)m.size(), b = best < 0 ? 0 : best; SIM_CHECK(n >= b - SLACK && n <= b + SLACK + extra, "wrong-length", "%s of about %lld characters has %lld: %s", what, (long long)best, (long long)n, n8(m).c_str()); }
	vint gen_length() { if (sim::chance(1, 64)) return 400 + (vint)sim::choose(2500); switch (sim::choose(4)) { case 0: return (vint)sim::choose(16); case 1: return 16 + (vint)sim::choose(50); case 2: return -1 - (vint)sim::choose(3); default: return 60 + (vint)sim::choose(400); } }
	void one(bool faults)
	{
		int kind = (int)sim::choose(4); vint best = gen_length(); auto casing = (LoremIpsumCasing)sim::choose(3); bool oom = faults && sim::chance(1, 4); if (oom) sim::fail_alloc_after(sim::choose(8)); rolls = 0;
		static const char* const what[] = { "text", "title", "sentence", "paragraph" }; sim::log("%s of %lld characters%s", what[kind], (long long)best, oom ? " (memory may run out)" : "");
		M m; bool threw = false;
		try { WString s = LIB(return kind == 0 ? LoremIpsum(best, casing) : kind == 1 ? LoremIpsumTitle(best) : kind == 2 ? LoremIpsumSentence(best) : LoremIpsumParagraph(best)); vint n = LIB(return s.Length()); for (vint i = 0; i < n; i++) m.push_back(LIB(return s[i])); LIB(s = WString()); } catch (const std::bad_alloc&) { threw = true; }
		if (oom) { bool fired = sim::clear_alloc_faults() > 0; SIM_CHECK(threw == fired, "wrong-exception", "%s", threw ? "out of memory is reported although memory was available" : "running out of memory was not reported"); }
		else SIM_CHECK(!threw, "wrong-exception", "out of memory is reported although memory was available");
		if (threw) return;
		bool ok = true; bool empty = best <= 0;
		switch (kind)
		{
		case 0: ok = empty ? m.empty() : phrase(m, casing); length("text", m, best, 0); break;
		case 1: ok = empty ? m.empty() : phrase(m, LoremIpsumCasing::AllWordsUpperCase); length("title", m, best, 0); break;
		case 2: ok = m.size() && m.back() == L'.' && (empty ? m.size() == 1 : phrase(m.substr(0, m.size() - 1), LoremIpsumCasing::FirstWordUpperCase)); length("sentence", m, best, 1); break;
		case 3:
			if (empty) { ok = m.empty(); break; }
			ok = m.back() == L'.';
			if (ok) for (auto& s : split(m.substr(0, m.size() - 1), L". ")) { auto cs = split(s, L", "); for (size_t i = 0; i < cs.size(); i++) if (!phrase(cs[i], i ? LoremIpsumCasing::AllWordsLowerCase : LoremIpsumCasing::FirstWordUpperCase)) ok = false; }
			length("paragraph", m, best, 8); break;
		}
		SIM_CHECK(ok, "malformed", "a %s of about %lld characters is malformed: %s", what[kind], (long long)best, n8(m).c_str());
	}
}
void sim_scenario()
{
	if (!dict) { dict = new std::set<M>; for (auto& w : split(words, L" ")) dict->insert(w); }
	dice_mode = (int)sim::choose(5); clock_now = (long long)sim::choose(2000000000); int threads = sim::chance(1, 2) ? 0 : 1 + (int)sim::choose(2); last_seed = 0;
	int n = sim::ops(6, 2, [] { one(true); });
	for (int t = 0; t < threads; t++) sim::spawn([] { sim::ops(4, 2, [] { one(false); }); });
	if (threads) { sim::ops(4, 2, [] { one(false); }); sim::join_all(); }
	if (n > 1 || threads) sim::nontrivial();
	sim::check_no_leaks("end of run");
}

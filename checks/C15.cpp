// C15: console text through a slow, splitting and failing device.
#include "console.h"
#include "Source/Console.h"
using namespace vl;
using namespace vl::console;
using namespace common;
COMMON_STATE
CONSOLE_STATE
const char* const sim_property = "C15";

namespace
{
	typedef std::wstring M;
	std::string n(const M& m) { std::string r = "\""; for (wchar_t c : m) { char b[16]; if (c >= 32 && c < 127) r += (char)c; else { snprintf(b, 16, "\\x%x", (unsigned)c); r += b; } } return r + "\""; }
	M text(int max) { static const wchar_t al[] = L"ab \t\x4e2d\r\n\x1f600" L"\x1b" L"[\a\x7f\xe9"; M m; int k = (int)sim::choose(max + 1); for (int i = 0; i < k; i++) m.push_back(al[sim::choose(14)]); if (sim::chance(1, 20)) m += M(2000 + sim::choose(3000), L'x'); return m; }
	M line(int max) { M m = text(max); M r; for (wchar_t c : m) if (c != L'\n') r.push_back(c); if (sim::chance(1, 12)) r.insert(sim::choose((uint32_t)r.size() + 1), 1, L'\0'); return r; }
	WString str(const M& m) { return WString::CopyFrom(m.c_str(), (vint)m.size()); }
	M strip(const M& m)	// without colour sequences
	{
		M r; for (size_t i = 0; i < m.size(); i++) if (m[i] == 0x1b && i + 1 < m.size() && m[i + 1] == L'[') { while (i < m.size() && m[i] != L'm') i++; } else r.push_back(m[i]); return r;
	}
	int colour(const M& m)	// the foreground colour selected last, -1 = none
	{
		int r = -1; for (size_t i = 0; i + 1 < m.size(); i++) if (m[i] == 0x1b && m[i + 1] == L'[') { int v = 0; for (i += 2; i < m.size(); i++) { if (m[i] >= L'0' && m[i] <= L'9') v = v * 10 + (m[i] - L'0'); else { if (v >= 30 && v < 38) r = v - 30; if (v >= 90 && v < 98) r = v - 90; v = 0; if (m[i] == L'm') break; } } }
		return r;
	}
	void write_op()
	{
		con::out.got.clear(); con::out.hit = false; M m, want; int rgb = -1; int how = (int)sim::pick({ 3, 3, 4, 2, 1 }); bool faulty = sim::chance(1, 3);
		if (faulty) { con::out.fail_at = (long)sim::choose(8); con::out.broken = 0; con::out.how = (int)sim::choose(2); if (sim::chance(1, 4)) { con::out.fail_at = -1; con::out.broken = 1 + (int)sim::choose(2); } }
		con::out.slow = sim::chance(1, 2);
		if (how == 0 || how == 3) { m = text(6); want = m; } else if (how == 1) { m = text(6); want = m; } else if (how == 2) { m = text(6); want = m + L"\r\n"; }
		if (how == 0) { M z; for (wchar_t c : m) if (c) z.push_back(c); m = want = z; }
		sim::log("write %s, kind %d%s", n(m.size() > 40 ? m.substr(0, 40) : m).c_str(), how, faulty ? ", the device may fail" : "");
		switch (how)
		{
		case 0: LIB(Console::Write(m.c_str())); break;
		case 1: { WString s = LIB(return sim::chance(1, 2) ? (str(M(L"__") + m + M(L"__")).Sub(2, (vint)m.size())) : str(m)); LIB(Console::Write(s)); LIB(s = WString()); } break;
		case 2: { WString s = LIB(return str(m)); LIB(Console::WriteLine(s)); LIB(s = WString()); } break;
		case 3: LIB(Console::Write(m.c_str(), (vint)m.size())); break;
		case 4: { bool a = sim::chance(1, 2), b = sim::chance(1, 2), c = sim::chance(1, 2), d = sim::chance(1, 2); rgb = (a ? 1 : 0) + (b ? 2 : 0) + (c ? 4 : 0); LIB(Console::SetColor(a, b, c, d)); want.clear(); } break;
		}
		con::out.broken = 0; con::out.fail_at = -1;
		M got = con::out.got; if (how == 4) { if (!con::out.hit) { SIM_CHECK(strip(got).empty(), "wrong-output", "setting the colour prints %s", n(got).c_str()); int c = colour(got); SIM_CHECK(c == rgb, "wrong-output", "colour %d is set as %s", rgb, n(got).c_str()); } return; }
		if (!con::out.hit) SIM_CHECK(got == want, "wrong-output", "writing %s delivers %s to a working device", n(want).c_str(), n(got).c_str());
		// a broken line may still get its line break: every delivered piece is a prefix of its part
		else { M a = m, b = how == 2 ? M(L"\r\n") : M(); bool ok = false; for (size_t i = 0; i <= a.size() && !ok; i++) for (size_t j = 0; j <= b.size() && !ok; j++) ok = got == a.substr(0, i) + b.substr(0, j); SIM_CHECK(ok, "wrong-output", "writing %s delivers %s to a failing device", n(want).c_str(), n(got).c_str()); }
	}
	HARNESS std::vector<M> lines; HARNESS size_t next; HARNESS bool over, partial_ok; HARNESS M rest;
	void feed()
	{
		con::in = con::In(); lines.clear(); next = 0; over = false; con::in.chunk = 1 + sim::choose(6) * sim::choose(12);
		int k = (int)sim::choose(6); for (int i = 0; i < k; i++) lines.push_back(line(8)); bool term = sim::chance(1, 2);
		for (int i = 0; i < k; i++) { con::in.text += lines[i]; if (i + 1 < k || term) con::in.text += L'\n'; }
		if (k && !term && lines.back().empty()) lines.pop_back();
		if (sim::chance(1, 4)) con::in.fail_at = (long)sim::choose((uint32_t)con::in.text.size() + 1);
		sim::log("input %s in pieces of %zu, breaks at %ld", n(con::in.text.substr(0, 60)).c_str(), con::in.chunk, con::in.fail_at);
	}
	HARNESS size_t consumed;
	void read_op()
	{
		WString s = LIB(return Console::Read()); M got; for (vint i = 0; i < s.Length(); i++) got.push_back(s[i]); LIB(s = WString()); sim::log("read %s", n(got.substr(0, 40)).c_str());
		if (over) { SIM_CHECK(got.empty(), "wrong-input", "reading after the end of input yields %s", n(got).c_str()); sim::probe("read_after_end"); return; }
		size_t limit = con::in.fail_at >= 0 ? (size_t)con::in.fail_at : con::in.text.size();
		if (next >= lines.size()) { SIM_CHECK(got.empty(), "wrong-input", "reading at the end of input yields %s", n(got).c_str()); over = true; return; }
		const M& want = lines[next];
		if (con::in.fail_at >= 0 && consumed + want.size() >= limit) { M w = want.substr(0, limit - consumed); SIM_CHECK(got == w || got.empty(), "wrong-input", "reading into an input error yields %s", n(got).c_str()); over = true; sim::probe("read_error"); return; }
		SIM_CHECK(got == want, "wrong-input", "reading yields %s, should yield %s", n(got).c_str(), n(want).c_str());
		consumed += want.size() + 1; next++; if (consumed > con::in.text.size()) over = true;
	}
}
void sim_scenario()
{
	common::reset(); con::attach(); consumed = 0; feed();
	int k = sim::ops(20, 7, [] { if (sim::chance(1, 2)) write_op(); else read_op(); });
	// faults have stopped: a line arrives whole
	con::out.got.clear(); con::out.slow = false; LIB(Console::WriteLine(WString(L"done"))); SIM_CHECK(con::out.got == L"done\r\n", "wrong-output", "after the faults a line arrives as %s", n(con::out.got).c_str());
	if (k > 1) sim::nontrivial();
	sim::check_no_leaks("end of run");
}

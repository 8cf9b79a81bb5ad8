// C11: date-time values under a simulated clock, generated time zones and concurrent readers.
#include "common.h"
#include "Source/Primitives/DateTime.h"
#include <time.h>
#include <sys/time.h>
#include <chrono>
#include <stdlib.h>
using namespace vl;
using namespace common;
COMMON_STATE
const char* const sim_property = "C11";

namespace
{
	typedef long long ll;
	// ---- the simulated clock ---------------------------------------------------------------------------
	HARNESS ll clock_us; HARNESS ll reading_us[16]; HARNESS int readings[16];
	ll read_clock()
	{
		int t = sim::tid();
		switch (sim::pick({ 6, 2, 2, 1, 1 }))
		{
		case 0: clock_us += (ll)sim::choose(5000); break;
		case 1: clock_us += (ll)sim::choose(2000) * 1000000 + 1; sim::fault("clock_stall"); break;
		case 2: clock_us += (ll)sim::choose(800) * 86400 * 1000000 + (ll)sim::choose(86400) * 1000000; sim::fault("clock_jump_forward"); break;
		case 3: clock_us -= (ll)sim::choose(800) * 86400 * 1000000 + (ll)sim::choose(86400) * 1000000 + (ll)sim::choose(1000) * 1000; sim::fault("clock_jump_backward"); break;
		case 4: clock_us -= clock_us % 1000000; clock_us += sim::chance(1, 2) ? 999999 : 0; break;	// the last microsecond or the first of a second
		}
		if (clock_us < 3LL * 86400 * 1000000) clock_us = 3LL * 86400 * 1000000 + clock_us % 1000000 + (clock_us < 0 ? 1000000 : 0);
		if (clock_us > 8000000000LL * 1000000) clock_us = 1000000000LL * 1000000;
		reading_us[t] = clock_us; readings[t]++; sim::log("clock reads %lld.%06lld", clock_us / 1000000, clock_us % 1000000);
		return clock_us;
	}

	// ---- an independent calendar and zone model --------------------------------------------------------
	ll days(ll y, int m, int d) { y -= m <= 2; ll era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400); unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (ll)doe - 719468; }
	struct Fields { ll y; int mo, d, h, mi, s, wd; bool operator==(const Fields&) const = default; };
	Fields split(ll t)
	{
		Fields f; ll dd = t / 86400, r = t % 86400; if (r < 0) { r += 86400; dd--; }
		f.h = (int)(r / 3600); f.mi = (int)(r / 60 % 60); f.s = (int)(r % 60); f.wd = (int)(((dd + 4) % 7 + 7) % 7);
		ll z = dd + 719468; ll era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097); unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; ll y = (ll)yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100); unsigned mp = (5 * doy + 2) / 153;
		f.d = (int)(doy - (153 * mp + 2) / 5 + 1); f.mo = (int)(mp < 10 ? mp + 3 : mp - 9); f.y = y + (f.mo <= 2); return f;
	}
	std::string show(const Fields& f) { char b[96]; snprintf(b, 96, "%lld-%02d-%02d %02d:%02d:%02d (day %d)", f.y, f.mo, f.d, f.h, f.mi, f.s, f.wd); return b; }
	struct Rule { int m, w, d, t; };
	struct Zone { ll std, dst; bool has; Rule on, off; char tz[128]; };
	HARNESS Zone zone;
	ll rule_local(ll y, const Rule& r) { ll first = days(y, r.m, 1); int wd = (int)(((first + 4) % 7 + 7) % 7); ll d = first + (r.d - wd + 7) % 7 + 7 * (r.w - 1); ll next = r.m == 12 ? days(y + 1, 1, 1) : days(y, r.m + 1, 1); while (d >= next) d -= 7; return d * 86400 + r.t; }
	ll offset(ll u)
	{
		if (!zone.has) return zone.std;
		ll y = split(u + zone.std).y; ll a = rule_local(y, zone.on) - zone.std, b = rule_local(y, zone.off) - zone.dst;
		bool d = a < b ? (a <= u && u < b) : !(b <= u && u < a); return d ? zone.dst : zone.std;
	}
	// instants whose local calendar fields are those of the "naive" number of seconds n; 0, 1 or 2 of them
	std::vector<ll> instants(ll n) { std::vector<ll> r; for (ll o : { zone.std, zone.dst }) { ll v = n - o; if (offset(v) == o && std::find(r.begin(), r.end(), v) == r.end()) r.push_back(v); } return r; }
	void make_zone()
	{
		zone.std = ((ll)sim::choose(105) - 48) * 900; zone.has = sim::chance(2, 3); zone.dst = zone.std;
		auto hm = [](ll o) { static char b[4][16]; static int k; char* p = b[k++ % 4]; o = -o; snprintf(p, 16, "%s%lld:%02lld", o < 0 ? "-" : "", (o < 0 ? -o : o) / 3600, (o < 0 ? -o : o) / 60 % 60); return p; };
		if (!zone.has) snprintf(zone.tz, 128, "AAA%s", hm(zone.std));
		else
		{
			zone.dst = zone.std + (sim::chance(1, 6) ? 1800 : 3600);
			int m1 = 2 + (int)sim::choose(3), m2 = 9 + (int)sim::choose(3);
			zone.on = { m1, 1 + (int)sim::choose(5), (int)sim::choose(7), (int)sim::choose(4) * 3600 }; zone.off = { m2, 1 + (int)sim::choose(5), (int)sim::choose(7), (int)(1 + sim::choose(3)) * 3600 };
			if (sim::chance(1, 3)) std::swap(zone.on, zone.off);
			snprintf(zone.tz, 128, "AAA%sBBB%s,M%d.%d.%d/%d,M%d.%d.%d/%d", hm(zone.std), hm(zone.dst), zone.on.m, zone.on.w, zone.on.d, zone.on.t / 3600, zone.off.m, zone.off.w, zone.off.d, zone.off.t / 3600);
		}
		sim::log("time zone %s", zone.tz);
		setenv("TZ", "UTC0", 1); tzset();
		tm t = {}; t.tm_year = 100; t.tm_mday = 5; mktime(&t);	// forget what the C library remembers from earlier runs
		setenv("TZ", zone.tz, 1); if (sim::chance(1, 2)) tzset();	// nobody has to tell the C library about the new zone
	}

	// ---- checks ------------------------------------------------------------------------------------------
	Fields fields(const DateTime& d) { return { (ll)d.year, (int)d.month, (int)d.day, (int)d.hour, (int)d.minute, (int)d.second, (int)d.dayOfWeek }; }
	void expect(const DateTime& d, const Fields& f, int ms, const char* what) { Fields g = fields(d); SIM_CHECK(g == f && d.milliseconds == ms, "wrong-fields", "%s gives %s +%lld ms, should give %s +%d ms (zone %s)", what, show(g).c_str(), (ll)d.milliseconds, show(f).c_str(), ms, zone.tz); }
	struct Val { DateTime d; ll v; int ms; bool sure; };	// v: the instant whose local fields the value shows
	void same(const DateTime& a, const DateTime& b, const char* what) { SIM_CHECK(a == b && !(a < b) && !(b < a) && a.osInternal == b.osInternal && a.osMilliseconds == b.osMilliseconds, "wrong-value", "%s: internal values %llu and %llu differ", what, (unsigned long long)a.osInternal, (unsigned long long)b.osInternal); }

	struct World
	{
		std::vector<Val> vals;
		void add(const Val& v) { if (vals.size() < 6) vals.push_back(v); else vals[sim::choose(6)] = v; }
		Val& any() { return vals[sim::choose((uint32_t)vals.size())]; }
		ll seconds() { int t = sim::tid(); (void)t; if (zone.has && sim::chance(1, 3)) { ll y = 1975 + sim::choose(100); ll b = sim::chance(1, 2) ? rule_local(y, zone.on) - zone.std : rule_local(y, zone.off) - zone.dst; return b + (ll)sim::choose(172801) - 86400; } if (sim::chance(1, 4)) { ll y = 1975 + sim::choose(150); return days(y, 1 + sim::choose(12), 1) * 86400 + (ll)sim::choose(5) - 2; } return 3 * 86400 + (ll)sim::choose(4000000) * 1000 + sim::choose(86400); }
		// the value must show the calendar fields of the naive time n
		void shown(const DateTime& d, ll n, int ms, const char* what)
		{
			auto is = instants(n);
			if (is.size() == 1) { expect(d, split(n), ms, what); add({ d, is[0], ms, true }); }
			else sim::probe(is.empty() ? "utc_fields_do_not_exist_locally" : "utc_fields_exist_twice_locally");
		}
		void op()
		{
			int t = sim::tid(); int c = (int)sim::pick({ 4, 4, 4, 4, 4, 4, 4, 4, 2 }); if (vals.empty() && (c >= 4 && c < 8)) c = 0; sim::log("op %d", c);
			switch (c)
			{
			case 0: { readings[t] = 0; DateTime d = LIB(return DateTime::LocalTime()); SIM_CHECK(readings[t] == 1, "wrong-call", "the local time consulted the clock %d times", readings[t]); ll u = reading_us[t] / 1000000; int ms = (int)(reading_us[t] / 1000 % 1000); expect(d, split(u + offset(u)), ms, "the local time"); add({ d, u, ms, true }); } break;
			case 1: { readings[t] = 0; DateTime d = LIB(return DateTime::UtcTime()); SIM_CHECK(readings[t] == 1, "wrong-call", "the UTC time consulted the clock %d times", readings[t]); shown(d, reading_us[t] / 1000000, (int)(reading_us[t] / 1000 % 1000), "the UTC time"); } break;
			case 2: { ll n = seconds() + zone.std; int ms = (int)sim::choose(1000); auto is = instants(n); Fields f = split(n); DateTime d = LIB(return DateTime::FromDateTime(f.y, f.mo, f.d, f.h, f.mi, f.s, ms)); if (is.size()) expect(d, f, ms, "building from fields"); if (is.size() == 1) add({ d, is[0], ms, true }); else sim::probe("fields_not_unique"); } break;
			case 3: { ll y = 1975 + sim::choose(120); int m = 1 + (int)sim::choose(12); Fields f = split(days(y, m, 1 + sim::choose(28)) * 86400); DateTime d = LIB(return DateTime::FromDateTime(f.y, f.mo, f.d)); auto is = instants(days(f.y, f.mo, f.d) * 86400); if (is.size()) expect(d, f, 0, "building a date"); if (is.size() == 1) add({ d, is[0], 0, true }); } break;
			case 4: { Val& v = any(); DateTime d = LIB(return v.d.ToUtcTime()); size_t n = vals.size(); Val w = v; shown(d, w.v, w.ms, "local to UTC"); if (instants(w.v).size() == 1) { DateTime e = LIB(return d.ToLocalTime()); expect(e, split(w.v + offset(w.v)), w.ms, "local to UTC to local"); same(e, w.d, "local to UTC to local"); } (void)n; } break;
			case 5: { Val w = any(); ll u = w.v + offset(w.v); DateTime d = LIB(return w.d.ToLocalTime()); expect(d, split(u + offset(u)), w.ms, "UTC to local"); add({ d, u, w.ms, true }); } break;
			case 6: { Val w = any(); bool back = sim::chance(1, 2); ll delta = sim::chance(1, 3) ? (ll)sim::choose(3000) : sim::chance(1, 8) ? (ll)sim::choose(300) * 365 * 86400000 + sim::choose(86400000) : sim::chance(1, 2) ? (ll)sim::choose(400) * 86400000 + sim::choose(86400000) : (ll)sim::choose(90000) * 1000; ll now = w.v * 1000 + w.ms, then = back ? now - delta : now + delta; if (then < 3LL * 86400000) break;
				DateTime d = LIB(return back ? w.d.Backward(delta) : w.d.Forward(delta)); ll s = then / 1000; expect(d, split(s + offset(s)), (int)(then % 1000), back ? "moving backward" : "moving forward");
				SIM_CHECK((ll)(d.osMilliseconds - w.d.osMilliseconds) == then - now, "wrong-value", "moving by %lld ms moved by %lld", then - now, (ll)(d.osMilliseconds - w.d.osMilliseconds));
				DateTime e = LIB(return back ? d.Forward(delta) : d.Backward(delta)); same(e, w.d, "moving and moving back"); add({ d, s, (int)(then % 1000), true }); } break;
			case 7: { Val &a = any(), &b = any(); ll x = a.v * 1000 + a.ms, y = b.v * 1000 + b.ms; auto o = LIB(return a.d <=> b.d); SIM_CHECK((o < 0) == (x < y) && (o > 0) == (x > y) && (a.d == b.d) == (x == y), "wrong-order", "%s and %s are ordered wrongly", show(fields(a.d)).c_str(), show(fields(b.d)).c_str());
				DateTime d = LIB(return DateTime::FromOSInternal(a.d.osInternal)); same(d, a.d, "rebuilding from the internal value"); expect(d, fields(a.d), a.ms, "rebuilding from the internal value");
				if (instants(a.v + offset(a.v)).size() == 1) { d = LIB(return DateTime::FromDateTime(a.d.year, a.d.month, a.d.day, a.d.hour, a.d.minute, a.d.second, a.d.milliseconds)); same(d, a.d, "rebuilding from the calendar fields"); } } break;
			case 8: sim::yield(); break;
			}
		}
	};
	struct FakeImpl : public Object, public virtual IDateTimeImpl
	{
		DateTime of(vuint64_t i) { DateTime d; d.osInternal = i; d.osMilliseconds = i; d.year = 7; return d; }
		DateTime FromDateTime(vint y, vint, vint, vint, vint, vint, vint) override { return of(y); }
		DateTime FromOSInternal(vuint64_t i) override { return of(i); }
		vuint64_t LocalTime() override { return 100; }
		vuint64_t UtcTime() override { return 200; }
		vuint64_t LocalToUtcTime(vuint64_t i) override { return i + 1000; }
		vuint64_t UtcToLocalTime(vuint64_t i) override { return i - 1000; }
		vuint64_t Forward(vuint64_t i, vuint64_t m) override { return i + m * 2; }
		vuint64_t Backward(vuint64_t i, vuint64_t m) override { return i - m * 2; }
	};
	void injected()
	{
		sim::log("injected implementation"); FakeImpl* f = LIB(return sim::make<FakeImpl>()); LIB(InjectDateTimeImpl(f)); readings[0] = 0;
		auto is = [](const DateTime& d, vuint64_t v, const char* w) { SIM_CHECK(d.osInternal == v && d.year == 7, "wrong-value", "%s did not come from the injected implementation", w); };
		is(LIB(return DateTime::LocalTime()), 100, "local time"); is(LIB(return DateTime::UtcTime()), 200, "UTC time"); DateTime d = LIB(return DateTime::FromDateTime(5000, 1, 1)); is(d, 5000, "calendar");
		is(LIB(return d.ToUtcTime()), 6000, "local to UTC"); is(LIB(return d.ToLocalTime()), 4000, "UTC to local"); is(LIB(return d.Forward(10)), 5020, "forward"); is(LIB(return d.Backward(10)), 4980, "backward"); is(LIB(return DateTime::FromOSInternal(9)), 9, "internal");
		SIM_CHECK(readings[0] == 0, "wrong-call", "the system clock was read although an implementation is injected");
		LIB(InjectDateTimeImpl(nullptr)); LIB(sim::unmake(f));
	}
	HARNESS World* w[4];
}
// the seams: clock and calendar functions of the C library
static tm shared_local, shared_gm;	// the C library's shared result objects: part of the simulated program
#define MODE(...) bool s = sim::set_mode(false); if (!s) { return __VA_ARGS__; }
extern "C"
{
	int __real_gettimeofday(timeval*, void*); int __real_clock_gettime(clockid_t, timespec*); time_t __real_time(time_t*);
	tm* __real_localtime(const time_t*); tm* __real_localtime_r(const time_t*, tm*); tm* __real_gmtime(const time_t*); tm* __real_gmtime_r(const time_t*, tm*); time_t __real_mktime(tm*); time_t __real_timegm(tm*); void __real_tzset();
	std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
	int __wrap_gettimeofday(timeval* tv, void* z) { MODE(__real_gettimeofday(tv, z)) sim::yield(); ll c = read_clock(); sim::touch_write(tv, sizeof(*tv)); tv->tv_sec = c / 1000000; tv->tv_usec = c % 1000000; sim::yield(); sim::set_mode(true); return 0; }
	int __wrap_clock_gettime(clockid_t id, timespec* ts) { MODE(__real_clock_gettime(id, ts)) sim::yield(); ll c = read_clock(); sim::touch_write(ts, sizeof(*ts)); ts->tv_sec = c / 1000000; ts->tv_nsec = c % 1000000 * 1000; sim::set_mode(true); return 0; }
	time_t __wrap_time(time_t* p) { MODE(__real_time(p)) sim::yield(); ll c = read_clock(); if (p) { sim::touch_write(p, sizeof(*p)); *p = c / 1000000; } sim::set_mode(true); return c / 1000000; }
	std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() { MODE(__real__ZNSt6chrono3_V212system_clock3nowEv()) sim::yield(); ll c = read_clock(); sim::set_mode(true); return std::chrono::system_clock::time_point(std::chrono::microseconds(c)); }
	tm* __wrap_localtime(const time_t* t) { MODE(__real_localtime(t)) sim::yield(); sim::touch_read(t, sizeof(*t)); sim::touch_write(&shared_local, sizeof(tm)); shared_local = *__real_localtime(t); sim::yield(); sim::set_mode(true); return &shared_local; }
	tm* __wrap_gmtime(const time_t* t) { MODE(__real_gmtime(t)) sim::yield(); sim::touch_read(t, sizeof(*t)); sim::touch_write(&shared_local, sizeof(tm)); shared_local = *__real_gmtime(t); sim::yield(); sim::set_mode(true); return &shared_local; }
	tm* __wrap_localtime_r(const time_t* t, tm* r) { MODE(__real_localtime_r(t, r)) sim::touch_read(t, sizeof(*t)); sim::touch_write(r, sizeof(tm)); __real_localtime_r(t, r); sim::yield(); sim::set_mode(true); return r; }
	tm* __wrap_gmtime_r(const time_t* t, tm* r) { MODE(__real_gmtime_r(t, r)) sim::touch_read(t, sizeof(*t)); sim::touch_write(r, sizeof(tm)); __real_gmtime_r(t, r); sim::yield(); sim::set_mode(true); return r; }
	time_t __wrap_mktime(tm* t) { MODE(__real_mktime(t)) sim::touch_read(t, sizeof(tm)); sim::touch_write(t, sizeof(tm)); time_t r = __real_mktime(t); sim::yield(); sim::set_mode(true); return r; }
	time_t __wrap_timegm(tm* t) { MODE(__real_timegm(t)) sim::touch_read(t, sizeof(tm)); sim::touch_write(t, sizeof(tm)); time_t r = __real_timegm(t); sim::yield(); sim::set_mode(true); return r; }
	void __wrap_tzset() { MODE(__real_tzset()) __real_tzset(); sim::set_mode(true); }
}
void sim_scenario()
{
	common::reset(); clock_us = (3 * 86400 + (ll)sim::choose(4000000) * 1000) * 1000000LL + sim::choose(1000000); ll start = clock_us;
	make_zone();
	if (sim::chance(1, 8)) injected();
	if (sim::chance(1, 8)) { DateTime d = LIB(return DateTime()); SIM_CHECK(!d.year && !d.month && !d.day && !d.dayOfWeek && !d.hour && !d.minute && !d.second && !d.milliseconds && !d.osInternal && !d.osMilliseconds, "wrong-value", "a fresh date-time is not blank"); }
	int nt = (int)sim::pick({ 3, 2, 1 }), total = 0;
	for (int i = 0; i < nt; i++) { w[i] = sim::make<World>(); World* x = w[i]; sim::spawn([x] { sim::ops(12, 5, [x] { x->op(); }); }); }
	World mine; total = sim::ops(24, 8, [&] { mine.op(); if (nt == 0 && sim::chance(1, 12)) { mine.vals.clear(); make_zone(); } });
	sim::join_all();
	for (int i = 0; i < nt; i++) sim::unmake(w[i]);
	if (total > 1 || nt) sim::nontrivial();
	sim::sim_time((double)(clock_us > start ? clock_us - start : start - clock_us) / 1e6);
	sim::check_no_leaks("end of run");
}

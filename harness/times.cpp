// Durations, instants, calendar fields and exchange formats against their definitions, written from the calendar rules.
#include "sx.h"
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/time/Time.h>
#include <stingraykit/time/TimeEngine.h>
#include <stingraykit/time/TimeInterval.h>
#include <stingraykit/time/NtpTimestamp.h>
#include <stingraykit/time/RemainingTime.h>
using namespace stingray;
namespace {
int K(int q, int t) { return sx_tier() ? t : q; }
typedef TimeDuration D;
const s64 US_DAY = 86400000000ll;
s64 Near(const char* n) { static const s64 at[] = {0, 86400000000ll, -86400000000ll, 1ll << 53, INT64_MAX - 4000, INT64_MIN + 4001}; return at[sx_choose("near", 6)] + (s64)sx_range(n, 0, 8000) - 4000; } // around zero, a day, the precision of a double, the extremes
s64 Half(const char* n) { const s64 v = sx_s64(n); SX_ASSUME(sx_and(v >= INT64_MIN / 2, v <= INT64_MAX / 2)); return v; }
bool Leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
int MonthLen(int y, int m) { return m == 2 ? (Leap(y) ? 29 : 28) : m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31; }
struct Date { int y, m, d; s64 day; int yday; };
Date MakeDate(int y, int m, int d) // days counted year by year and month by month
{
	Date r; r.y = y; r.m = m; r.d = d; r.day = 0; for (int i = 1970; i < y; ++i) r.day += Leap(i) ? 366 : 365; for (int i = 1969; i >= y; --i) r.day -= Leap(i) ? 366 : 365; r.yday = d - 1; for (int i = 1; i < m; ++i) r.yday += MonthLen(y, i); r.day += r.yday; return r;
}
Date PickDate(bool early) // first and last days of months around every kind of year
{
	static const int years[] = {1970, 1971, 1972, 1999, 2000, 2001, 2038, 2100, 2101, 2400, 1969, 1968, 1900, 1901, 1899, 1601, 1600, 9999}; const int n = early ? K(17, 18) : 10; const int y = years[sx_choose("year", n)]; static const int md[][2] = {{1, 1}, {1, 31}, {2, 1}, {2, 28}, {2, 29}, {3, 1}, {4, 30}, {5, 15}, {6, 30}, {7, 31}, {8, 9}, {9, 30}, {10, 12}, {11, 30}, {12, 1}, {12, 31}};
	static const int few[] = {0, 3, 4, 5, 7, 12, 15}; const int k = sx_tier() ? sx_choose("monthday", 16) : few[sx_choose("monthday", 7)]; int m = md[k][0], d = md[k][1]; if (d > MonthLen(y, m)) d = 27; return MakeDate(y, m, d);
}
struct Clock { int h, m, s, ms; s64 Ms() const { return ((h * 60ll + m) * 60 + s) * 1000 + ms; } };
// of several fields one (thorough: two) takes every value of its range, the others the ends of theirs
struct Fields { int a, b; bool top; Fields(int n) { a = sx_choose("live", n); b = sx_tier() ? sx_choose("live2", n) : a; top = sx_choose("top", 2); } int Get(int i, const char* name, int lo, int hi) const { if (i != a && i != b) return top ? hi : lo; return sx_choose("least", 2) ? lo : (int)sx_range(name, lo + 1, hi); } };
Clock PickClock() { Clock c; const Fields f(4); c.h = f.Get(0, "h", 0, 23); c.m = f.Get(1, "m", 0, 59); c.s = f.Get(2, "s", 0, 59); c.ms = f.Get(3, "ms", 0, 999); return c; }
// the live field in pieces within which the UTC day (for milliseconds: the whole second) stays the same
Clock PickClockAt(s64 base, s64 off)
{
	static const int top[] = {23, 59, 59, 999}; const int a = sx_choose("live", 4); const bool high = sx_choose("top", 2); auto make = [&](int v) { Clock c; int* f[] = {&c.h, &c.m, &c.s, &c.ms}; for (int i = 0; i < 4; ++i) *f[i] = i == a ? v : high ? top[i] : 0; return c; };
	auto one = [&](s64 t) { const s64 q = t / 1000; return (q < 0 ? (q - 86399) / 86400 : q / 86400) * 4 + (t < 0) * 2 + (q % 86400 == 0); }; auto at = [&](int v) { const s64 t = base + make(v).Ms(); return a == 3 ? t / 1000 * 4 + (t % 1000 == 0) : one(t) * 1000003 + one(t + off); }; int from[16], n = 0; from[n++] = 0; for (int v = 1; v <= top[a]; ++v) if (at(v) != at(v - 1) && n < 15) from[n++] = v; from[n] = top[a] + 1;
	const int p = sx_choose("piece", n); return make(from[p] + 1 == from[p + 1] ? from[p] : (int)sx_range("field", from[p], from[p + 1] - 1));
}
void CheckBroken(const BrokenDownTime& b, const Date& d, const Clock& c) { SX_ASSERT(b.Year == d.y && b.Month == d.m && b.MonthDay == d.d, "date of an instant"); SX_ASSERT(b.YearDay == d.yday && b.WeekDay == (int)(((d.day + 4) % 7 + 7) % 7), "day of the year and week"); SX_ASSERT(b.Hours == c.h && b.Minutes == c.m && b.Seconds == c.s && b.Milliseconds == c.ms, "time of day"); }
char Dig(u32 v) { return (char)('0' + v); }
std::string Two(u32 v) { std::string r; r += Dig(v / 10); r += Dig(v % 10); return r; }
std::string Num(u64 v) { char b[24]; int n = 0; do { b[n++] = Dig(v % 10); v /= 10; } while (sx_conc(v != 0)); std::string r; while (n) r += b[--n]; return r; }
std::string Pad(u64 v, size_t w) { std::string r = Num(v); while (r.size() < w) r = "0" + r; return r; }
std::string Fixed(u64 v, size_t w) { std::string r(w, '0'); for (size_t i = w; i--; v /= 10) r[i] = Dig(v % 10); return r; }
void Same(const std::string& a, const std::string& b, const char* what) { SX_ASSERT(a.size() == b.size(), what); for (size_t i = 0; i < a.size(); ++i) SX_ASSERT(a[i] == b[i], what); }
}
SX_ENTRY(dur_arith)
{
	switch (sx_choose("op", 7))
	{
	case 0: { const s64 a = Half("a"), b = Half("b"); const D x = D::FromMicroseconds(a), y = D::FromMicroseconds(b); SX_ASSERT((x + y).GetMicroseconds() == a + b && (x - y).GetMicroseconds() == a - b && (-x).GetMicroseconds() == -a, "sum and difference"); D z(x); z += y; SX_ASSERT(z == x + y, "sum in place"); z -= y; SX_ASSERT(z == x, "difference in place"); break; }
	case 1: { const s64 a = sx_s64("a"), b = sx_s64("b"); const D x = D::FromMicroseconds(a), y = D::FromMicroseconds(b); SX_ASSERT((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "order of durations"); SX_ASSERT(D::Min() <= x && x <= D::Max(), "extremes"); break; }
	case 2: { static const int ms[] = {0, 1, -1, 2, 7, -60, 1000, 86400, INT32_MAX, INT32_MIN}; const int m = ms[sx_choose("m", 10)]; const s64 a = sx_s64("a"); SX_ASSUME(sx_and(a >= -1000000000, a <= 1000000000)); const D x = D::FromMicroseconds(a); SX_ASSERT((x * m).GetMicroseconds() == a * m, "product"); D z(x); z *= m; SX_ASSERT(z == x * m, "product in place"); break; }
	case 3: { static const int ds[] = {1, -1, 2, 3, 10, 1000, -60}; const int d = ds[sx_choose("d", 7)]; const s64 a = Near("a"); const D x = D::FromMicroseconds(a); SX_ASSERT((x / d).GetMicroseconds() == a / d, "quotient by a number"); const D y = D::FromMicroseconds(d); SX_ASSERT(x / y == a / d && (x % y).GetMicroseconds() == a % d, "quotient and remainder of durations"); break; }
	case 4: { const s64 a = sx_s64("a"); const D x = D::FromMicroseconds(a); D r; const bool th = SX_THROWS(r = x.Absolute()); SX_ASSERT(th == (a == INT64_MIN), "absolute value of the least duration"); if (!th) SX_ASSERT(r.GetMicroseconds() == (a < 0 ? -a : a), "absolute value"); break; }
	case 5: // microseconds q * 1000 + r, split so that the nearest millisecond is known
	{
		const s64 q = sx_choose("big", 2) ? (s64)sx_range("q", 0, 8000) - 4000 : (sx_choose("least", 2) ? -1000000000000000ll : 1000000000000000ll - 100) + (s64)sx_range("q", 0, 100); const int r = sx_range("r", 0, 999); const bool neg = sx_choose("neg", 2); SX_ASSUME(neg ? q <= 0 : q >= 0); const D x = D::FromMicroseconds(q * 1000 + (neg ? -r : r)); SX_ASSERT(x.RoundToMilliseconds().GetMicroseconds() == (q + (r < 500 ? 0 : neg ? -1 : 1)) * 1000, "nearest millisecond"); SX_ASSERT(x.GetMilliseconds() == q, "whole milliseconds"); break;
	}
	default:
	{
		static const int ns[] = {0, 86399, -86400, 99990000, -99990000}; const int n = ns[sx_choose("near", 5)] + (int)sx_range("n", 0, 8000) - 4000; switch (sx_choose("unit", 6)) { case 0: SX_ASSERT(D::FromSeconds(n).GetMicroseconds() == n * 1000000ll && D::FromSeconds(n).GetSeconds() == n, "seconds"); break; case 1: SX_ASSERT(D::FromMinutes(n).GetMicroseconds() == n * 60000000ll, "minutes"); break; case 2: SX_ASSERT(D::FromHours(n).GetMicroseconds() == n * 3600000000ll, "hours"); break; case 3: SX_ASSERT(D::FromDays(n).GetMicroseconds() == n * US_DAY, "days"); break; case 4: SX_ASSERT(D::FromMilliseconds(n).GetMicroseconds() == n * 1000ll && D(n).GetMilliseconds() == n, "milliseconds"); break; default: { const s64 u = n * 1000000ll + 999999; const D x = D::FromMicroseconds(u); SX_ASSERT(x.GetSeconds() == u / 1000000 && x.GetMinutes() == u / 60000000 && x.GetHours() == u / 3600000000ll && x.GetDays() == u / US_DAY, "whole units"); break; } } break;
	}
	}
	sx_reach("durarith");
}
SX_ENTRY(dur_print) // the text shows the sign and the fields of the absolute value
{
	const bool neg = sx_choose("neg", 2); const int big = sx_choose("big", 4); const u32 h = big == 0 ? 0 : big == 1 ? sx_range("h", 1, 9) : big == 2 ? sx_range("h", 10, 99) : 2562047; const Fields fl(4); const u32 m = fl.Get(0, "m", 0, 59), s = fl.Get(1, "s", 0, 59), us = fl.Get(2, "ms", 0, 999) * 1000 + fl.Get(3, "us", 0, 999); const s64 v = ((h * 60ll + m) * 60 + s) * 1000000 + us; const D x = D::FromMicroseconds(neg ? -v : v);
	static const char* fs[] = {"", "hh:mm:ss.lll", "h:m:s", "mm'ss", "s.llllll", "lll", "\\hh", "m\\m \\s", "x\\\\l", "llll s", "ss.lllllllll", "m m", "lll/l"}; const int f = sx_choose("format", 13); const u64 ms = us / 1000, mins = h * 60 + m; std::string e; const bool nms = neg && sx_conc(v >= 1000), ns = neg && sx_conc(v >= 1000000), nds = neg && sx_conc(v >= 100000), n4 = neg && sx_conc(v >= 100), nus = neg && sx_conc(v >= 1);
	if (neg && f == 0) SX_ASSUME(v > 0); const std::string sec = Fixed(s, 2);
	switch (f)
	{
	case 0: case 1: e = (nms ? "-" : "") + Pad(h, 2) + ":" + Fixed(m, 2) + ":" + sec + "." + Fixed(ms, 3); break;
	case 2: e = (ns ? "-" : "") + Num(h) + ":" + Num(m) + ":" + Num(s); break;
	case 3: e = (ns ? "-" : "") + Pad(mins, 2) + "'" + sec; break;
	case 4: e = (nus ? "-" : "") + Num(s) + "." + Fixed(us, 6); break;
	case 5: e = (nms ? "-" : "") + Fixed(ms, 3); break;
	case 6: e = "h" + std::string(ns ? "-" : "") + Num(h); break;
	case 7: e = (ns ? "-" : "") + Num(mins) + "m s"; break;
	case 8: e = "x\\" + std::string(nds ? "-" : "") + Fixed(us / 100000, 1); break;
	case 9: e = Fixed(us / 100, 4) + " " + (n4 ? "-" : "") + Num(s); break;
	case 10: e = (nus ? "-" : "") + sec + "." + Fixed(us, 6); break;
	case 12: e = (nms ? "-" : "") + Fixed(ms, 3) + "/" + (nms ? "-" : "") + Fixed(us / 100000, 1); break;
	default: e = (ns ? "-" : "") + Num(mins) + " " + (ns ? "-" : "") + Num(mins); break;
	}
	Same(x.ToString(fs[f]), e, "text of a duration"); SX_ASSERT(SX_THROWS(x.ToString("h\\")), "format ending in a backslash"); sx_reach("durprint");
}
SX_ENTRY(dur_parse)
{
	const bool neg = sx_choose("neg", 2); const size_t n = 1 + sx_choose("n", K(3, 5)); std::string t(neg ? "-" : ""); s64 v = 0; for (size_t i = 0; i < n; ++i) { const u8 d = sx_range("d", 0, 9); t += Dig(d); v = v * 10 + d; } if (neg) v = -v; const int unit = sx_choose("unit", 4); D r; const bool th = [&] { if (unit == 0) return SX_THROWS(r = D::FromString(t)); u8 c = sx_u8("c"); SX_ASSUME(c < '0' || c > '9'); SX_ASSUME(c != 0); if (unit == 1) c = sx_choose("up", 2) ? 'H' : 'h'; if (unit == 2) c = sx_choose("up", 2) ? 'M' : 'm'; if (unit == 3) { SX_ASSUME(c != 'h' && c != 'H' && c != 'm' && c != 'M'); } const bool q = SX_THROWS(r = D::FromString(t + (char)c)); if (unit == 3) { SX_ASSERT(q == !sx_or(c == 's', c == 'S'), "unknown unit accepted"); } return q; }();
	if (!th) SX_ASSERT(r.GetMicroseconds() == v * (unit == 0 ? 1000ll : unit == 1 ? 3600000000ll : unit == 2 ? 60000000ll : 1000000ll), "parsed duration"); else SX_ASSERT(unit == 3, "duration refused"); SX_ASSERT(SX_THROWS(D::FromString("h")) && SX_THROWS(D::FromString("")), "malformed duration accepted"); sx_reach("durparse");
}
SX_ENTRY(instants)
{
	switch (sx_choose("op", 4))
	{
	case 0: { const s64 a = Half("a"); static const s64 at[] = {0, 4000000000000000ll, -4000000000000000ll, 86400000}; const s64 ms = at[sx_choose("near", 4)] + (s64)sx_range("ms", 0, 4000) - 2000; const Time t(a); const D d(ms); SX_ASSERT((t + d).GetMilliseconds() == a + ms && (t - d).GetMilliseconds() == a - ms, "moved instant"); Time u(t); u += d; SX_ASSERT(u == t + d, "moved in place"); u -= d; SX_ASSERT(u == t, "moved back"); SX_ASSERT((t + d) - t == d, "difference of instants"); break; }
	case 1: { const s64 a = sx_s64("a"), b = sx_s64("b"); SX_ASSERT((Time(a) < Time(b)) == (a < b) && (Time(a) == Time(b)) == (a == b) && (Time(a) >= Time(b)) == (a >= b) && (Time(a) > Time(b)) == (a > b) && (Time(a) <= Time(b)) == (a <= b) && (Time(a) != Time(b)) == (a != b), "order of instants"); break; }
	case 2: { static const s64 at[] = {0, 1000000000000000ll, -1000000000000000ll, 86400000}; const s64 c0 = at[sx_choose("at", 4)], a = c0 + (s64)sx_range("a", 0, 4000) - 2000, b = at[sx_choose("bt", 4)] + (s64)sx_range("b", 0, 4000) - 2000, j = sx_choose("jt", 2) ? sx_range("j", 0, 3000) : 86400000; const TimeCmp c((D(j))); const int r = c(Time(a), Time(b)); const bool close = sx_and(a - b <= j, b - a <= j); SX_ASSERT((r == 0) == close && (close || (r < 0) == (a < b)), "comparison with allowed jitter"); break; }
	default: { static const s64 at[] = {0, 1000000000000000ll, -1000000000000000ll, 86400000}; const s64 a = at[sx_choose("at", 4)] + (s64)sx_range("a", 0, 4000) - 2000, b = a + 1 + (sx_choose("len", 2) ? (s64)sx_range("d", 0, 4000) : 86400000ll * 366), c = at[sx_choose("ct", 4)] + (s64)sx_range("c", 0, 8000) - 4000; const TimeInterval i(Time(a), (Time(b))); SX_ASSERT(i.GetStart() == Time(a) && i.GetEnd() == Time(b) && i.GetDuration() == Time(b) - Time(a), "interval"); SX_ASSERT(i.Contains(Time(c)) == sx_and(a <= c, c <= b), "instant inside an interval"); const Time s(sx_u32("t") * 1000ll + 999); SX_ASSERT(Time::FromTimeT(s.ToTimeT()).GetMilliseconds() == s.GetMilliseconds() - 999 && s.GetSeconds() == s.ToTimeT(), "seconds since the epoch"); break; }
	}
	sx_reach("instants");
}
SX_ENTRY(elapsed) // against the monotonic clock
{
	static const u64 at[] = {0, 999999, 1ull << 32, 1ull << 49}; const u64 n0 = at[sx_choose("n0", 4)], d1 = at[sx_choose("d1", 4)] + sx_choose("d1r", 3), d2 = at[sx_choose("d2", 2)] + sx_choose("d2r", 2); const u64 u0 = n0 * 1000, u1 = u0 + d1 * 1000, u2 = u1 + d2 * 1000;
	switch (sx_choose("kind", 2))
	{
	case 0: { sx_set_clock(u0); ElapsedTime e; sx_set_clock(u1); SX_ASSERT(e.ElapsedMicroseconds() == (s64)d1 && e.Elapsed().GetMicroseconds() == (s64)d1 && e.ElapsedMilliseconds() == (s64)(d1 / 1000), "elapsed time"); if (sx_choose("restart", 2)) { SX_ASSERT(e.Restart().GetMicroseconds() == (s64)d1, "time until the restart"); sx_set_clock(u2); SX_ASSERT(e.Elapsed().GetMicroseconds() == (s64)d2, "time since the restart"); } else { sx_set_clock(u2); SX_ASSERT(e.Elapsed().GetMicroseconds() == (s64)(d1 + d2), "time since the start"); } break; }
	default: { static const s64 ts[] = {0, 999999, 1ll << 32, 1ll << 49, -(1ll << 49)}; const s64 t = ts[sx_choose("t", 5)] + (s64)sx_range("tr", 0, 2000) - 1000; sx_set_clock(u0); RemainingTime r(D::FromMicroseconds(t)); sx_set_clock(u1); SX_ASSERT(r.Expired() == (t <= (s64)d1) && r.Remaining().GetMicroseconds() == (t > (s64)d1 ? t - (s64)d1 : 0), "remaining time"); r.Restart(); sx_set_clock(u2); SX_ASSERT(r.Expired() == (t <= (s64)d2) && r.Remaining().GetMicroseconds() == (t > (s64)d2 ? t - (s64)d2 : 0), "remaining time after a restart"); break; }
	}
	sx_reach("elapsed");
}
SX_ENTRY(calendar)
{
	const Date d = PickDate(true); const bool local = sx_choose("local", 2); static const int offs[] = {0, 60, -330, 840, -720}; const int off = local ? offs[sx_choose("offset", 5)] : 0; TimeEngine::SetMinutesFromUtc(local ? off : 77); const Clock c = PickClockAt(d.day * 86400000 - off * 60000ll, off * 60000ll); const Time t(d.day * 86400000 + c.Ms() - off * 60000ll); const TimeKind kind(local ? TimeKind::Local : TimeKind::Utc);
	const bool early = d.day < 0 && sx_conc(c.ms != 0); const BrokenDownTime b = t.BreakDown(kind);
	if (early && sx_conc(b.Milliseconds == c.ms - 1000)) { Clock n(c); n.ms = 0; const Time u = Time(t.GetMilliseconds() - c.ms + 1000); const BrokenDownTime w = u.BreakDown(kind); SX_ASSERT(Time::FromBrokenDownTime(b, kind) == t, "broken down and back"); if (b.Seconds == w.Seconds && b.Minutes == w.Minutes && b.Hours == w.Hours && b.MonthDay == w.MonthDay && b.Month == w.Month && b.Year == w.Year) sx_known_("negative-fraction"); }
	CheckBroken(b, d, c); SX_ASSERT(Time::FromBrokenDownTime(b, kind) == t, "broken down and back"); const BrokenDownTime s = b.GetDayStart(); SX_ASSERT(Time::FromBrokenDownTime(s, kind).GetMilliseconds() == d.day * 86400000 - off * 60000ll, "start of the day"); SX_ASSERT(b.GetMaxDaysInMonth() == MonthLen(d.y, d.m) && BrokenDownTime::GetMaxDaysInMonth(d.y, d.m) == MonthLen(d.y, d.m), "days in the month"); sx_reach("calendar");
}
SX_ENTRY(calendar_fields) // fields out of their ranges carry over
{
	const Date d = PickDate(false); const Fields fl(5); const int h = fl.Get(0, "h", 0, 300), m = fl.Get(1, "m", 0, 300), s = fl.Get(2, "s", 0, 300), ms = fl.Get(3, "ms", 0, 3000), k = fl.Get(4, "k", 0, 200); const int sg = sx_choose("sign", 2) ? -1 : 1; const int months = (int)sx_choose("months", 5) * 7 - 14; int y = d.y, mo = d.m + months; while (mo < 1) { mo += 12; --y; } while (mo > 12) { mo -= 12; ++y; } const Date f = MakeDate(y, mo, 1);
	const BrokenDownTime b(sg * ms, sg * s, sg * m, sg * h, 0, d.d + sg * k, d.m + months, 0, d.y); SX_ASSERT(Time::FromBrokenDownTime(b, TimeKind::Utc).GetMilliseconds() == ((((f.day + d.d - 1 + sg * k) * 24 + sg * h) * 60 + sg * m) * 60 + sg * s) * 1000ll + sg * ms, "fields carry over"); sx_reach("fields");
}
SX_ENTRY(calendar_compare)
{
	s16 a[9], b[9]; for (int i = 0; i < 9; ++i) { a[i] = (s16)sx_u16("a"); b[i] = (s16)sx_u16("b"); } const int at = sx_choose("at", 10); for (int i = 0; i < at && i < 9; ++i) b[i] = a[i]; const BrokenDownTime x(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]), y(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8]); if (at < 9) SX_ASSUME(a[at] != b[at]); SX_ASSERT((x == y) == (at == 9) && (x != y) == (at < 9), "equal fields"); if (at < 9) SX_ASSERT((x < y) == !(y < x) && (x < y) == (x.Compare(y) < 0) && (x > y) == (y < x) && (x <= y) == (x < y), "order is one way"); sx_reach("compare");
}
SX_ENTRY(days_to)
{
	const Date d = PickDate(false); const Clock c = PickClock(); const int k = (int)sx_choose("days", 5) - 2; const int h = sx_range("h2", 0, 23); TimeEngine::SetMinutesFromUtc(sx_choose("off", 2) ? 180 : 0); const s64 off = TimeEngine::GetMinutesFromUtc() * 60000ll; const Date e = MakeDate(d.y, d.m, d.d); const Time a(d.day * 86400000 + c.Ms() - off), b((e.day + k) * 86400000 + h * 3600000ll - off); if (sx_conc(a < Time() || b < Time())) return; SX_ASSERT(a.DaysTo(b) == k && b.DaysTo(a) == -k && a.DaysTo(b.BreakDown()) == k, "days between instants"); sx_reach("daysto");
}
SX_ENTRY(time_print)
{
	const Date d = PickDate(false); Clock c = PickClock(); const Time t(d.day * 86400000 + c.Ms()); const std::string Y = Fixed(d.y, 4), M = Two(d.m), DD = Two(d.d), H = Fixed(c.h, 2), MI = Fixed(c.m, 2), S = Fixed(c.s, 2), L = Fixed(c.ms, 3);
	switch (sx_choose("format", 8))
	{
	case 0: Same(t.ToString("", TimeKind::Utc), DD + "/" + M + "/" + Y + " " + H + ":" + MI + ":" + S + "." + L, "default text of an instant"); break;
	case 1: Same(TimeUtility::ToIso8601(t), Y + "-" + M + "-" + DD + "T" + H + ":" + MI + ":" + S + "." + L + "Z", "ISO 8601 text"); break;
	case 2: Same(t.ToString("dd.MM.yyyy", TimeKind::Utc), DD + "." + M + "." + Y, "date"); break;
	case 3: Same(t.ToString("hhmmss", TimeKind::Utc), H + MI + S, "adjacent fields"); break;
	case 4: Same(t.ToString("d M h:mm l ll lll", TimeKind::Utc), "d M h:" + MI + " l ll " + L, "single letters are literal"); break;
	case 5: Same(t.ToString("ddd sss mmm", TimeKind::Utc), DD + "d " + S + "s " + MI + "m", "overlapping letters"); break;
	case 6: Same(t.ToString("YYYYYY lllll hhhh", TimeKind::Utc), Y + "YY " + L + "ll " + H + H, "longer runs of letters"); break;
	default: { TimeEngine::SetMinutesFromUtc(-90); const Date e = d; Clock l = c; const s64 v = c.Ms() + 90 * 60000; if (v >= 86400000) return; l.h = c.h + 1; l.m = c.m + 30; if (l.m >= 60) { l.m -= 60; ++l.h; } Same(t.ToString("dd hh:mm", TimeKind::Utc), Two(e.d) + " " + H + ":" + MI, "local and UTC"); Same((t + D::FromMinutes(90)).BreakDown(TimeKind::Utc).ToString("dd hh:mm"), Two(e.d) + " " + Fixed(l.h, 2) + ":" + Fixed(l.m, 2), "text of fields"); Same((t + D::FromMinutes(180)).ToString("dd hh:mm", TimeKind::Local), Two(e.d) + " " + Fixed(l.h, 2) + ":" + Fixed(l.m, 2), "local time"); break; }
	}
	sx_reach("timeprint");
}
SX_ENTRY(iso_parse) // ISO 8601 instants in every accepted form denote the instant
{
	const Date d = PickDate(false); const Clock c = PickClock(); const std::string date = Fixed(d.y, 4) + "-" + Two(d.m) + "-" + Two(d.d), tod = Fixed(c.h, 2) + ":" + Fixed(c.m, 2) + ":" + Fixed(c.s, 2); const s64 base = d.day * 86400000 + c.Ms() - c.ms;
	switch (sx_choose("form", 7))
	{
	case 0: SX_ASSERT(TimeUtility::FromIso8601(date).GetMilliseconds() == d.day * 86400000, "date only"); break;
	case 1: SX_ASSERT(TimeUtility::FromIso8601(date + "T" + tod + "Z").GetMilliseconds() == base, "whole seconds"); break;
	case 2: SX_ASSERT(TimeUtility::FromIso8601(date + (sx_choose("low", 2) ? "t" : "T") + tod).GetMilliseconds() == base, "no zone"); break;
	case 3: { const Time t(base + c.ms); SX_ASSERT(TimeUtility::FromIso8601(TimeUtility::ToIso8601(t)) == t, "printing and parsing ISO 8601"); break; }
	case 4: { static const int os[][2] = {{0, 0}, {3, 0}, {5, 30}, {14, 0}, {12, 45}}; const int o = sx_choose("offset", 5), neg = sx_choose("neg", 2); const s64 off = (os[o][0] * 60 + os[o][1]) * 60000ll * (neg ? -1 : 1); SX_ASSERT(TimeUtility::FromIso8601(date + "T" + tod + (neg ? "-" : "+") + Two(os[o][0]) + ":" + Two(os[o][1])).GetMilliseconds() == base - off, "zone offset"); break; }
	case 5: { const size_t n = 1 + sx_choose("n", 6); u32 f[6]; std::string s; for (size_t i = 0; i < n; ++i) { f[i] = sx_range("f", 0, 9); s += Dig(f[i]); } s64 ms = 0; for (size_t i = 0; i < 3; ++i) ms = ms * 10 + (i < n ? f[i] : 0); if (n > 3 && f[3] >= 5) ++ms; SX_ASSERT(TimeUtility::FromIso8601(date + "T" + tod + "." + s + "Z").GetMilliseconds() == base + ms, "fraction of a second"); break; }
	default: { static const char* bad[] = {"", "T", "2020", "2020-01", "2020-01-01T", "2020-01-01T10", "2020-01-01T10:00", "2020-01-01T10:00:00X", "2020-01-01T10:00:00+3", "2020-01-01T10:00:00.Z", "2020-01-01 10:00:00Z", "x2020-01-01", "2020-1a-01"}; SX_ASSERT(SX_THROWS(TimeUtility::FromIso8601(bad[sx_choose("bad", 13)])), "malformed ISO 8601 accepted"); break; }
	}
	sx_reach("isoparse");
}
SX_ENTRY(time_parse) // the other accepted texts
{
	const Date d = PickDate(false); const Clock c = PickClock(); const std::string tod2 = Fixed(c.h, 2) + ":" + Fixed(c.m, 2), tod = tod2 + ":" + Fixed(c.s, 2); const s64 day = d.day * 86400000; const bool local = sx_choose("local", 2); TimeEngine::SetMinutesFromUtc(120); const s64 off = local ? 7200000 : 0; const TimeKind kind(local ? TimeKind::Local : TimeKind::Utc); const int how = sx_choose("tod", 3); const std::string tail = how == 0 ? "" : how == 1 ? tod2 : tod; const s64 tms = how == 0 ? 0 : how == 1 ? c.Ms() - c.ms - c.s * 1000 : c.Ms() - c.ms; std::string s;
	switch (sx_choose("form", 6))
	{
	case 0: s = Two(d.d) + "." + Two(d.m) + "." + Fixed(d.y, 4) + (how ? " " : "") + tail; SX_ASSERT(Time::FromString(s, kind).GetMilliseconds() == day + tms - off, "date with dots"); break;
	case 1: s = Num(d.d) + "/" + Num(d.m) + "/" + Fixed(d.y, 4) + (how ? " " : "") + tail; SX_ASSERT(Time::FromString(s, kind).GetMilliseconds() == day + tms - off, "date with slashes"); break;
	case 2: s = Fixed(d.y, 4) + "-" + Two(d.m) + "-" + Two(d.d) + (how ? "T" : "") + tail; SX_ASSERT(Time::FromString(s, kind).GetMilliseconds() == day + tms - off, "date with dashes"); break;
	case 3: { static const char* const zs[] = {"Z", "+05:30", "-03", "-03:30", "-00:45", "+14:00", "+00:01"}; static const int zm[] = {0, 330, -180, -210, -45, 840, 1}; const int z = sx_choose("zone", 7); s = Fixed(d.y, 4) + "-" + Two(d.m) + "-" + Two(d.d) + "T" + tod + zs[z]; SX_ASSERT(Time::FromString(s, kind).GetMilliseconds() == day + c.Ms() - c.ms - zm[z] * 60000ll, "date with a zone"); break; }
	case 4: { const int yy = sx_choose("yy", 3); static const int two[] = {5, 30, 99}; s = "09.08." + Two(two[yy]); SX_ASSERT(Time::FromString(s, TimeKind::Utc).GetMilliseconds() == MakeDate((two[yy] > 30 ? 1900 : 2000) + two[yy], 8, 9).day * 86400000, "year of two digits"); break; }
	default: { static const char* bad[] = {"", "x", "12", "1.2", "1.x.2000", "1/2", "12-", "2000-01", "2000-01-01T10:00:00X", "2000-01-01T10:00:00+"}; SX_ASSERT(SX_THROWS(Time::FromString(bad[sx_choose("bad", 10)], kind)), "malformed instant accepted"); break; }
	}
	sx_reach("timeparse");
}
SX_ENTRY(iso_duration)
{
	switch (sx_choose("kind", 4))
	{
	case 0: // without a base: hours, minutes and seconds
	{
		const u32 h = sx_choose("hk", 3) == 0 ? sx_range("h", 0, 9) : 32767, m = sx_range("m", 0, 59), s = sx_range("s", 0, 59), ms = sx_range("ms", 0, 999); const D x(((h * 60ll + m) * 60 + s) * 1000 + ms); std::string e("PT"); const bool hh = sx_conc(h != 0), mm = sx_conc(m != 0), ss = sx_conc(s != 0); if (hh) e += Num(h) + "H"; if (mm || (hh && ss)) e += Num(m) + "M"; if (ss || (!hh && !mm)) e += Num(s) + "S"; const std::string t = TimeDurationUtility::ToIso8601(x); Same(t, e, "ISO 8601 text of a duration"); SX_ASSERT(TimeDurationUtility::FromIso8601(t) == D(x.GetSeconds() * 1000), "printing and parsing a duration"); break;
	}
	case 1: // with a base: what is added to the base
	{
		static const int bases[][3] = {{2000, 1, 1}, {2000, 2, 28}, {2000, 2, 29}, {1999, 3, 1}, {2001, 1, 31}, {2003, 12, 31}, {2015, 6, 15}}; const int b = sx_choose("base", 7); const Date d = MakeDate(bases[b][0], bases[b][1], bases[b][2]); static const int ds[] = {0, 1, 27, 28, 29, 30, 31, 58, 59, 60, 61, 364, 365, 366, 367, 730, 731, 1460, 1461, 10000}; const int n = ds[sx_choose("days", 20)]; const u32 h = sx_range("h", 0, 9), s = sx_range("s", 0, 9); const Time base(d.day * 86400000); const D x(n * 86400000ll + h * 3600000ll + s * 1000); const std::string t = TimeDurationUtility::ToIso8601(x, base); const D back = TimeDurationUtility::FromIso8601(t, base); if (b == 2 && n >= 365 && sx_conc(back == x + D::FromDays(1))) sx_known_("iso-duration-feb29"); SX_ASSERT(back == x, "printing and parsing a duration from a base"); break;
	}
	case 2: // written out
	{
		const u32 y = sx_range("y", 0, 9), mo = sx_range("mo", 0, 9), d = sx_range("d", 0, 9), h = sx_range("h", 0, 9), m = sx_range("m", 0, 9), s = sx_range("s", 0, 9); switch (sx_choose("form", 8))
		{
		case 0: SX_ASSERT(TimeDurationUtility::FromIso8601("P" + Num(d) + "D") == D::FromDays(d), "days"); break;
		case 1: SX_ASSERT(TimeDurationUtility::FromIso8601("P" + Num(d) + "W") == D::FromDays(7 * d), "weeks"); break;
		case 2: SX_ASSERT(TimeDurationUtility::FromIso8601("P" + Num(d) + "DT" + Num(h) + "H") == D::FromHours(24 * d + h), "days and hours"); break;
		case 3: SX_ASSERT(TimeDurationUtility::FromIso8601("PT" + Num(h) + "H" + Num(m) + "M" + Num(s) + "S") == D::FromSeconds((h * 60 + m) * 60 + s), "time"); break;
		case 4: SX_ASSERT(TimeDurationUtility::FromIso8601("pt" + Num(m) + "m") == D::FromMinutes(m), "lower case"); break;
		case 5: { SX_ASSUME(sx_or(y > 0, mo > 0)); const u32 yc = sx_conc(y), mc = sx_conc(mo); int ey = 1970 + yc, em = 1 + mc; if (em > 12) { em -= 12; ++ey; } SX_ASSERT(TimeDurationUtility::FromIso8601("P" + Num(yc) + "Y" + Num(mc) + "M" + Num(d) + "D") == D::FromDays(MakeDate(ey, em, 1).day + d), "years, months and days from the epoch"); break; }
		case 6: { const u32 yc = sx_conc(sx_range("yc", 1, 3)); SX_ASSERT(TimeDurationUtility::FromIso8601("P" + Num(yc) + "YT" + Num(s) + "S") == D::FromDays(MakeDate(1970 + yc, 1, 1).day) + D::FromSeconds(s), "years and seconds"); break; }
		default: SX_ASSERT(TimeDurationUtility::FromIso8601("P1M", Time(MakeDate(2001, 2, 1).day * 86400000)) == D::FromDays(28) && TimeDurationUtility::FromIso8601("P1M", Time(MakeDate(2004, 2, 1).day * 86400000)) == D::FromDays(29), "length of February"); break;
		}
		break;
	}
	default: { static const char* bad[] = {"", "P", "PT", "P1", "1D", "PD", "PT1X", "P1H", "PT1D", "PT1S1M", "P1D1Y", "P1DT", "P-1D", "T1S", "P1W2D", "P1.5D"}; SX_ASSERT(SX_THROWS(TimeDurationUtility::FromIso8601(bad[sx_choose("bad", 16)])), "malformed duration accepted"); SX_ASSERT(SX_THROWS(TimeDurationUtility::ToIso8601(D(-1))), "negative duration printed"); break; }
	}
	sx_reach("isoduration");
}
SX_ENTRY(exchange) // NTP, Windows, modified Julian days, BCD
{
	switch (sx_choose("kind", 6))
	{
	case 0: { const u32 sec = sx_u32("sec"); const u32 ms = sx_range("ms", 0, 999); const Time t(((s64)sec - 2208988800ll) * 1000 + ms); const NtpTimestamp n = NtpTimestamp::FromTime(t); SX_ASSERT((u32)(n.GetTimestamp() >> 32) == sec, "seconds of an NTP timestamp"); const u64 f = (u32)n.GetTimestamp(); SX_ASSERT(f * 1000 >= (u64)ms << 32 && f * 1000 < ((u64)ms + 1) << 32, "fraction of an NTP timestamp"); SX_ASSERT(n.ToTime() == t, "NTP timestamp and back"); break; }
	case 1: { const u64 v = sx_u64("v"); const u32 sec = v >> 32, f = (u32)v; const s64 r = NtpTimestamp(v).ToTime().GetMilliseconds(); SX_ASSERT(r == ((s64)sec - 2208988800ll) * 1000 + (s64)(((u64)f * 1000) >> 32), "instant of an NTP timestamp"); break; }
	case 2: { const u32 sec = sx_u32("sec"); const Time t = Time(sec * 1000ll); SX_ASSERT(t.ToNtpTimestamp() == sec + 2208988800ull && Time::FromNtpTimestamp(t.ToNtpTimestamp()) == t, "seconds since 1900"); const u32 m = sx_range("ms", 0, 999); SX_ASSERT(Time(t.GetMilliseconds() + m).ToNtpTimestamp() == sec + 2208988800ull, "whole seconds since 1900"); break; }
	case 3: { const u64 sec = (sx_choose("late", 2) ? 1700000000000ull : 0) + sx_range("sec", 0, 100000000000ull); const u64 tick = sx_range("tick", 0, 9999999); const s64 r = Time::FromWindowsFileTime(sec * 10000000 + tick).GetMilliseconds(), whole = ((s64)sec - 11644473600ll) * 1000; if (sx_conc(tick / 10000 != tick)) if (sx_conc(r == whole + (s64)tick)) sx_known_("windows-time-fraction"); SX_ASSERT(r == whole + (s64)(tick / 10000), "Windows file time"); break; }
	case 4: { const u32 n = sx_range("mjd", 0, 99999); const u32 h = sx_range("h", 0, 23), m = sx_range("m", 0, 59), s = sx_range("s", 0, 59); const u32 bcd = (h / 10 << 4 | h % 10) << 16 | (m / 10 << 4 | m % 10) << 8 | (s / 10 << 4 | s % 10); const Time t = Time::MjdToEpoch(n, bcd); SX_ASSERT(t.GetMilliseconds() == ((((s64)n - 40587) * 24 + h) * 60 + m) * 60000 + s * 1000, "modified Julian day"); SX_ASSERT(t.GetMjd() == (int)n && Time(t.GetMilliseconds() + 999).GetMjd() == (int)n, "back to the modified Julian day"); SX_ASSERT(D::FromBcdDuration(bcd).GetSeconds() == (s64)((h * 60 + m) * 60 + s), "BCD duration"); break; }
	default: { const Date d = PickDate(false); const Clock c = PickClock(); const bool local = sx_choose("local", 2); TimeEngine::SetMinutesFromUtc(60); const Time t(d.day * 86400000 + c.Ms() - (local ? 3600000 : 0)); if (sx_conc(t < Time())) return; const u32 h = c.h, m = c.m, s = c.s; SX_ASSERT(t.GetBcdTime(local ? TimeKind::Local : TimeKind::Utc) == ((h / 10 << 4 | h % 10) << 16 | (m / 10 << 4 | m % 10) << 8 | (s / 10 << 4 | s % 10)), "BCD time of day"); break; }
	}
	sx_reach("exchange");
}
SX_ENTRY(zones)
{
	switch (sx_choose("kind", 4))
	{
	case 0: { const s16 m = (s16)sx_u16("m"); s16 r = 0; const bool th = SX_THROWS(r = TimeZone(m).GetMinutesFromUtc()); SX_ASSERT(th == sx_or(m < -720, m > 840) && (th || r == m), "range of time zones"); break; }
	case 1: { const int h = (int)sx_choose("h", 15), m = sx_range("m", 0, 59), neg = sx_choose("neg", 2); const int v = (h * 60 + m) * (neg ? -1 : 1); SX_ASSUME(sx_and(v >= -720, v <= 840)); const TimeZone z(v); const std::string s = z.ToString(); const std::string e = std::string(sx_conc(v > 0) ? "+" : sx_conc(v < 0) ? "-" : "") + Num(h) + ":" + Num(m); Same(s, e, "text of a time zone"); SX_ASSERT(TimeZone::FromString(s) == z, "printing and parsing a time zone"); break; }
	case 2: { const int h = sx_range("h", 0, 99), m = sx_range("m", 0, 99), sg = sx_choose("sign", 3), f = sx_choose("form", 3); const std::string s = (sg == 1 ? "+" : sg == 2 ? "-" : "") + Fixed(h, 2) + (f == 0 ? ":" + Fixed(m, 2) : f == 1 ? Fixed(m, 2) : ""); const int v = (h * 60 + (f == 2 ? 0 : m)) * (sg == 2 ? -1 : 1); TimeZone z; const bool th = SX_THROWS(z = TimeZone::FromString(s)); SX_ASSERT(th == sx_or(v < -720, v > 840) && (th || z.GetMinutesFromUtc() == v), "parsed time zone"); break; }
	default: { static const char* bad[] = {"", "+", "1", "123", "12345", "+1", "a:b", "12:", ":30", "1x:00"}; SX_ASSERT(SX_THROWS(TimeZone::FromString(bad[sx_choose("bad", 10)])), "malformed time zone accepted"); TimeEngine::SetMinutesFromUtc(345); SX_ASSERT(TimeZone::Current().GetMinutesFromUtc() == 345, "current time zone"); break; }
	}
	sx_reach("zones");
}
SX_ENTRY(clock_set) // the application's clock follows the system's with the difference that was set
{
	static const u64 at[] = {0, 999, 1ull << 32, 1ull << 40}; const u64 n = at[sx_choose("nt", 4)] + sx_choose("n", 2), d = at[sx_choose("dt", 4)] + sx_choose("d", 2); const s64 v = at[sx_choose("vt", 4)] * 3 + sx_range("v", 0, 2000); sx_set_clock(n * 1000000); TimeEngine::SetMillisecondsSinceEpoch(v); SX_ASSERT(Time::Now().GetMilliseconds() == v, "time that was set"); sx_set_clock((n + d) * 1000000); SX_ASSERT(Time::Now().GetMilliseconds() == v + (s64)d, "time goes on"); sx_reach("clockset");
}

// Observable values, transactions of actions, command lines, mappings, progress and rectangles.
#include "threads.h"
#include <stingraykit/ActionTransaction.h>
#include <stingraykit/AggregateProgressReporter.h>
#include <stingraykit/Average.h>
#include <stingraykit/CmdLine.h>
#include <stingraykit/IntegerSequenceGenerator.h>
#include <stingraykit/Mapper.h>
#include <stingraykit/ObservableValue.h>
#include <stingraykit/Rect.h>
#include <stdexcept>
#include <string>
#include <vector>
using namespace stingray;

// ---- observable values
namespace
{
	struct Note : public function_info<void (u8)> { std::vector<u8>* log; Note(std::vector<u8>* l) : log(l) { } void operator () (u8 v) const { log->push_back(v); } };
	struct SameLow : public comparers::EqualsComparerBase<SameLow> { template < typename L_, typename R_ > bool DoCompare(const L_& l, const R_& r) const { return (l & 15) == (r & 15); } };
	bool eq(bool low, u8 a, u8 b) { return low ? (a & 15) == (b & 15) : a == b; }
	template < typename V_ > void ValueRun(V_& val, bool low, int policy, u8 def, u8 cur, int ops)
	{
		std::vector<u8> log[2], want[2]; Token conn[2]; bool on[2] = { false, false }; const IObservableValue<u8>& ro = val; const u8 first = cur;
		for (int i = 0; i < ops; ++i)
		{
			switch (sx_choose("op", 5))
			{
			case 0: case 1: { const u8 v = sx_u8("v"); IObservableValue<u8>& wr = val; if (sx_choose("assign", 2)) val = v; else wr.Set(v); if (!eq(low, cur, v)) { cur = v; for (int k = 0; k < 2; ++k) if (on[k]) want[k].push_back(v); sx_reach("changed"); } else sx_reach("same"); break; }
			case 2: case 3: { const int k = sx_choose("who", 2); if (on[k]) { conn[k].Reset(); on[k] = false; } else { conn[k] = ro.OnChanged().connect(Note(&log[k])); on[k] = true; if (policy == 0 || (policy == 1 && !eq(low, cur, def))) want[k].push_back(cur); } break; }
			default: { const u8 by = val; SX_ASSERT(by == ro.Get(), "conversion of an observable value"); break; }
			}
			SX_ASSERT(ro.Get() == cur, "value of an observable value"); for (int k = 0; k < 2; ++k) SX_ASSERT(log[k] == want[k], "changes told to an observer");
		}
		(void)first; sx_reach("history");
	}
}
SX_ENTRY(value_history)
{
	const u8 init = sx_u8("init"), def = sx_u8("default"); const int ops = sx_tier() ? 4 : 3;
	switch (sx_choose("policy", 5))
	{
	case 0: { ObservableValue<u8> v(init); ValueRun(v, false, 0, 0, init, ops); break; }
	case 1: { ObservableValue<u8, comparers::Equals, ObservableValuePolicies::ConditionalPopulation> v(init, ObservableValuePolicies::PopulateIfDiffers<u8>(def)); ValueRun(v, false, 1, def, init, ops); break; }
	case 2: { ObservableValue<u8, comparers::Equals, ObservableValuePolicies::DisabledPopulation> v(init); ValueRun(v, false, 2, 0, init, ops); break; }
	case 3: { ObservableValue<u8, SameLow, ObservableValuePolicies::ConditionalPopulation> v(init, ObservableValuePolicies::PopulateIfDiffers<u8>(def)); ValueRun(v, true, 1, def, init, ops); break; }
	default: { const shared_ptr<const Mutex> m = make_shared_ptr<Mutex>(); ObservableValue<u8, SameLow> v(m, init); SX_ASSERT(&v.GetSyncRoot() == m.get(), "the mutex of an observable value"); ValueRun(v, true, 0, 0, init, ops); break; }
	}
}
namespace
{
	ObservableValue<u8>* gval; std::vector<u8>* glog; u8 gset[2][2]; Token* gconn;
	void setter0() { for (int i = 0; i < 2; ++i) gval->Set(gset[0][i]); }
	void setter1() { gval->Set(gset[1][0]); }
	void watcher() { *gconn = gval->OnChanged().connect(Note(glog)); const u8 v = gval->Get(); (void)v; }
}
SX_ENTRY(value_threads)
{
	// one observer connecting while others set: it learns the value of the moment and every change after it
	const u8 init = sx_u8("init"); ObservableValue<u8> v(init); std::vector<u8> log; Token conn; gval = &v; glog = &log; gconn = &conn; for (int i = 0; i < 2; ++i) gset[0][i] = sx_u8("a"); gset[1][0] = sx_u8("b"); const bool three = sx_choose("threads", 2);
	{ Thr a = go(&setter0), b = go(&watcher), c; if (three) c = go(&setter1); }
	SX_ASSERT(!log.empty(), "an observer learns the value"); SX_ASSERT(log.back() == v.Get(), "the last thing told is not the value"); for (size_t i = 1; i < log.size(); ++i) SX_ASSERT(log[i] != log[i - 1], "told without a change");
	if (!three) { std::vector<u8> all(1, init); for (int i = 0; i < 2; ++i) if (all.back() != gset[0][i]) all.push_back(gset[0][i]); SX_ASSERT(log.size() <= all.size(), "too many changes are told"); for (size_t i = 0; i < log.size(); ++i) SX_ASSERT(log[log.size() - 1 - i] == all[all.size() - 1 - i], "changes are missed or told out of order"); }
	if (log.size() == 1) sx_reach("late"); if (log.size() > 2) sx_reach("early"); conn.Reset(); v.Set(~v.Get()); SX_ASSERT(v.Get() != log.back(), "told after disconnection");
}

// ---- a transaction of actions is undone in reverse order, each once, or kept
namespace
{
	struct Act : public function_info<void ()> { std::vector<int>* log; int what; bool fail; Act(std::vector<int>* l, int w, bool f) : log(l), what(w), fail(f) { } void operator () () const { if (fail) throw std::runtime_error("action"); log->push_back(what); } };
}
SX_ENTRY(transaction)
{
	std::vector<int> log, want; std::vector<int> done; const int n = sx_choose("actions", sx_tier() ? 5 : 4); int bad = -1, end = 0; bool active = true; if (n) bad = (int)sx_choose("bad undo", n + 1) - 1;
	{
		ActionTransaction t;
		for (int i = 0; i < n; ++i)
		{
			const bool fail = sx_choose("fail", 2); const bool threw = SX_THROWS(t.Execute(Act(&log, i, fail), Act(&log, 100 + i, i == bad)));
			SX_ASSERT(threw == fail, "failure of an action"); if (!fail) { want.push_back(i); done.push_back(i); } SX_ASSERT(log == want, "actions executed");
		}
		end = sx_choose("end", 3);
		if (end == 0) { t.Commit(); active = false; SX_ASSERT(SX_THROWS(t.Rollback()) && SX_THROWS(t.Commit()) && SX_THROWS(t.Execute(Act(&log, 50, false), Act(&log, 51, false))), "a transaction goes on after its end"); }
		if (end == 1)
		{
			const bool threw = SX_THROWS(t.Rollback()); bool bads = false; while (!done.empty() && !bads) { const int i = done.back(); done.pop_back(); if (i == bad) bads = true; else want.push_back(100 + i); }
			SX_ASSERT(threw == bads, "failure to undo"); if (!bads) { active = false; SX_ASSERT(SX_THROWS(t.Commit()), "a transaction goes on after its end"); } SX_ASSERT(log == want, "actions undone by a rollback"); if (bads) sx_reach("undo failed");
		}
	}
	if (active) while (!done.empty()) { const int i = done.back(); done.pop_back(); if (i == bad) break; want.push_back(100 + i); }
	SX_ASSERT(log == want, "actions undone at the end: each once, the last first"); sx_reach(end == 0 ? "kept" : end == 1 ? "rolled back" : "dropped");
}

// ---- progress
namespace
{
	struct Last : public function_info<void (const ProgressValue&)> { ProgressValue* v; Last(ProgressValue* p) : v(p) { } void operator () (const ProgressValue& p) const { *v = p; } };
}
SX_ENTRY(progress)
{
	static const s64 totals[] = { 0, 1, 3, 7, 100, 65536, 1000, 1048576 }; const s64 total = totals[sx_choose("total", sx_tier() ? 8 : 6)]; const s64 cur = sx_range("current", 0, total ? total : 1000); const int p = ProgressValue(cur, total).InPercents();
	if (total) { SX_ASSERT((s64)p * total <= 100 * cur && 100 * cur < (s64)(p + 1) * total, "percents of a progress"); SX_ASSERT(p >= 0 && p <= 100 && (p == 100) == (cur == total), "percents of a progress end at 100"); } else SX_ASSERT(p == 0, "percents of nothing");
	if (total > 7) { sx_reach("great"); return; }
	const s64 more = sx_range("more", 0, total ? total : 1000); SX_ASSUME(more >= cur); SX_ASSERT(ProgressValue(more, total).InPercents() >= p, "percents go back"); SX_ASSERT((ProgressValue(cur, total) == ProgressValue(more, total)) == (cur == more), "comparison of progress"); SX_ASSERT(!(ProgressValue(more, total) < ProgressValue(cur, total)), "order of progress"); sx_reach("percents");
}
SX_ENTRY(aggregate)
{
	// consecutive actions of a whole report progress that never goes back and ends at 100
	const size_t count = 1 + sx_choose("count", 7); size_t at = 0; int last = 0; ProgressValue seen;
	while (at < count)
	{
		const size_t size = 1 + sx_choose("size", count - at); const AggregateProgressReporter r = size == 1 && sx_choose("ctor", 2) ? AggregateProgressReporter(Last(&seen), at, count) : AggregateProgressReporter(Last(&seen), at, size, count);
		const s64 a = sx_range("a", 0, 100), b = sx_range("b", 0, 100); SX_ASSUME(a <= b); SX_ASSERT(SX_THROWS(AggregateProgressReporter(Last(&seen), at, count - at + 1, count)) && SX_THROWS(AggregateProgressReporter(Last(&seen), count, count)), "an action past the end is accepted");
		r(ProgressValue(0, 100)); SX_ASSERT(seen.Total == 100 && (at == 0 ? seen.Current == 0 : seen.Current == last), "an action begins where the last one ended"); r(ProgressValue(a, 100)); const int x = seen.Current; SX_ASSERT(x >= last, "progress goes back"); r(ProgressValue(b, 100)); SX_ASSERT(seen.Current >= x, "progress goes back"); r(ProgressValue(1, 1)); SX_ASSERT(seen.Current >= x && seen.Current <= 100, "progress of an action"); last = seen.Current; at += size;
		if (at < count && sx_choose("stop", 2)) { sx_reach("part"); return; }
	}
	SX_ASSERT(last == 100, "progress ends at another place"); sx_reach("whole");
}
SX_ENTRY(average)
{
	Average<s64> a; s64 sum = 0; const int n = sx_choose("n", 5); for (int i = 0; i < n; ++i) { const s64 v = (s32)sx_u32("v"); a.Accumulate(v); sum += v; } const s64 g = a.Get(); SX_ASSERT(n ? g == sum / n : g == 0, "average"); sx_reach("average");
}
namespace { IntegerSequenceGenerator<u8>* ggen; u8 gseen[3][2]; template < int K_ > void Take() { for (int i = 0; i < 2; ++i) gseen[K_][i] = ggen->Next(); } }
SX_ENTRY(sequence)
{
	const u8 first = sx_u8("first"); IntegerSequenceGenerator<u8> g(first); ggen = &g; { Thr a = go(&Take<0>), b = go(&Take<1>); } Take<2>();
	unsigned mask = 0; for (int k = 0; k < 3; ++k) for (int i = 0; i < 2; ++i) { const u8 d = (u8)(gseen[k][i] - first); SX_ASSERT(d < 6, "a number out of the sequence"); const unsigned c = (unsigned)sx_conc(d); SX_ASSERT(!(mask >> c & 1), "a number is given twice"); mask |= 1u << c; }
	SX_ASSERT((u8)(gseen[2][0] - first) == 4, "numbers in order"); sx_reach("sequence");
}

// ---- mappings between values
namespace
{
	struct Map1 : public BaseValueMapper<Map1, int, u8>
	{
		typedef TypeList<
			Src::Value<1>, Dst::Value<10>,
			Src::Value<2>, Dst::BiValue<20, 21>,
			Src::Range<5, 9>, Dst::Value<30>,
			Src::Range<10, 12, 11>, Dst::TriValue<40, 41, 42>,
			Src::MultiValue<100, stingray::Detail::Mappings<u8, int>::MultiValue<102, stingray::Detail::Mappings<u8, int>::Value<-104> > >, Dst::Range<50, 60, 55>,
			Src::QuadValue<200, 201, 203, 207>, Dst::QuadValue<80, 82, 84, 87>,
			Src::Value<2>, Dst::Value<99> > MappingsList; // hidden by the one above
		typedef TypeList<Src::Value<-1>, Dst::Value<70> > DefaultMapping;
	};
	struct Map2 : public BaseValueMapper<Map2, u8, int> { typedef TypeList<Src::Value<1>, Dst::Value<-7>, Src::Value<0>, Dst::Value<0> > MappingsList; typedef TypeList<Src::Fail, Dst::Fail> DefaultMapping; };
	int forth(int v) { return v == 1 ? 10 : v == 2 ? 20 : v >= 5 && v < 9 ? 30 : v == 10 || v == 11 ? 40 : v == 100 || v == 102 || v == -104 ? 55 : v == 200 || v == 201 || v == 203 || v == 207 ? 80 : 70; }
	int back(u8 v) { return v == 10 ? 1 : v == 20 || v == 21 ? 2 : v == 30 ? 5 : v >= 40 && v <= 42 ? 11 : v >= 50 && v < 60 ? 100 : v == 80 || v == 82 || v == 84 || v == 87 ? 200 : v == 99 ? 2 : -1; }
}
SX_ENTRY(mapper)
{
	const int v = sx_s32("v"); const u8 b = sx_u8("b"); SX_ASSERT(Map1::Map(v) == forth(v), "value mapped"); SX_ASSERT(Map1::Unmap(b) == back(b), "value mapped back"); SX_ASSERT(Map1::HasMapping(v) && Map1::HasBackMapping(b), "a mapping is missed in spite of the default");
	{ const int there = forth(v); if (there != 70) SX_ASSERT(Map1::Map(Map1::Unmap((u8)there)) == there, "a mapped value is lost on the way back"); }
	{ u8 x = 0; const bool t = SX_THROWS(x = (u8)(Map2::Map(b) == -7)); SX_ASSERT(t == (b > 1) && Map2::HasMapping(b) == !t && (t || x == b), "strict mapping"); }
	{ u8 x = 0; const bool t = SX_THROWS(x = Map2::Unmap(v)); SX_ASSERT(t == (v != 0 && v != -7) && Map2::HasBackMapping(v) == !t && (t || x == (v != 0)), "strict mapping back"); }
	SX_ASSERT((IdentityMapper<int, u8>::Map(b) == b), "identity"); sx_reach("mapped");
}

// ---- sizes, positions and rectangles
SX_ENTRY(geometry)
{
	struct In { static bool in(const Rect& r, int x, int y) { return sx_and(sx_and(r.X1 <= x, x < r.X2), sx_and(r.Y1 <= y, y < r.Y2)); } };
	const Rect a((s16)sx_u16("a"), (s16)sx_u16("a"), (s16)sx_u16("a"), (s16)sx_u16("a")), b((s16)sx_u16("b"), (s16)sx_u16("b"), (s16)sx_u16("b"), (s16)sx_u16("b")); const int x = (s16)sx_u16("x"), y = (s16)sx_u16("y"); const Rect i = a.Intersect(b);
	SX_ASSERT(In::in(i, x, y) == sx_and(In::in(a, x, y), In::in(b, x, y)), "points common to two rectangles"); SX_ASSERT(i == b.Intersect(a), "order of intersection"); SX_ASSERT(sx_imp(i.Valid(), a.Intersects(b)), "rectangles with a common part intersect"); SX_ASSERT(a.Intersects(b) == b.Intersects(a), "intersecting is mutual"); SX_ASSERT(sx_imp(sx_and(In::in(a, x, y), In::in(b, x, y)), sx_and(i.Valid(), a.Intersects(b))), "a common point");
	SX_ASSERT(sx_imp(sx_or(sx_or(a.X2 < b.X1, b.X2 < a.X1), sx_or(a.Y2 < b.Y1, b.Y2 < a.Y1)), !a.Intersects(b)), "rectangles apart intersect");
	const Rect m = sx_choose("move", 2) ? a.Move(x, y) : a.Move(Position(x, y)); SX_ASSERT(sx_and(m.GetSize() == a.GetSize(), sx_and(m.GetTopLeft() == Position(a.X1 + x, a.Y1 + y), m.GetRightBottom() == Position(a.X2 + x, a.Y2 + y))), "a moved rectangle"); SX_ASSERT(m.Move(-x, -y) == a, "moved back"); SX_ASSERT(a.Valid() == a.GetSize().Valid(), "validity");
	const Size p(a.X1, a.Y1), q(b.X1, b.Y1); const bool lt = p.Width < q.Width || (p.Width == q.Width && p.Height < q.Height), same = p.Width == q.Width && p.Height == q.Height; SX_ASSERT((p < q) == lt && (p == q) == same && (p > q) == (!lt && !same) && (p <= q) == (lt || same) && (p >= q) == !lt && (p != q) == !same, "order of sizes"); SX_ASSERT(p + q - q == p && p + q == q + p, "sums of sizes"); { Size r = p; r += q; SX_ASSERT(r == p + q, "sum in place"); r -= q; SX_ASSERT(r == p, "difference in place"); } SX_ASSERT(p * 3 == p + p + p && p * 4 / 4 == p, "multiples of sizes"); SX_ASSERT(Rect(p).GetSize() == p && Rect(p.Width, p.Height) == Rect(p), "a rectangle of a size"); sx_reach("geometry");
}
SX_ENTRY(rect_order)
{
	// every two rectangles compare as their members in order
	const Rect a(sx_s32("a"), sx_s32("a"), sx_s32("a"), sx_s32("a")), b(sx_s32("b"), sx_s32("b"), sx_s32("b"), sx_s32("b")); const int x[4] = { a.X1, a.Y1, a.X2, a.Y2 }, y[4] = { b.X1, b.Y1, b.X2, b.Y2 }; int c = 0; for (int i = 3; i >= 0; --i) c = x[i] < y[i] ? -1 : x[i] > y[i] ? 1 : c;
	SX_ASSERT((a < b) == (c < 0) && (a > b) == (c > 0) && (a == b) == (c == 0) && (a <= b) == (c <= 0), "order of rectangles"); const Position p(x[0], x[1]), q(y[0], y[1]); SX_ASSERT((p < q) == (x[0] < y[0] || (x[0] == y[0] && x[1] < y[1])), "order of positions"); sx_reach("order");
}

// ---- command lines
namespace
{
	struct Got { int which; int calls; std::string s; int n; bool b; std::vector<int> list; bool none; };
	struct HTwo : public function_info<void (std::string, int)> { Got* g; HTwo(Got* p) : g(p) { } void operator () (const std::string& s, int n) const { g->which = 1; ++g->calls; g->s = s; g->n = n; } };
	struct HNone : public function_info<void ()> { Got* g; int w; HNone(Got* p, int w_) : g(p), w(w_) { } void operator () () const { g->which = w; ++g->calls; } };
	struct HList : public function_info<void (std::vector<int>, optional<bool>)> { Got* g; HList(Got* p) : g(p) { } void operator () (const std::vector<int>& l, const optional<bool>& b) const { g->which = 3; ++g->calls; g->list = l; g->none = !b; g->b = b && *b; } };
	std::string escape(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == ' ' || s[i] == ',' || s[i] == ']' || s[i] == '\\') r += '\\'; r += s[i]; } return r; }
}
SX_ENTRY(command_text)
{
	// arguments arrive as they were, also with escaped characters; the handler whose words begin the line is run
	Got g = { 0, 0, "", 0, false, { }, false }; CmdLine c; Token t1(c.Handler("set", "to") = HTwo(&g)), t2(c.Handler("set") = HNone(&g, 2)), t3(c.Handler("list") = HList(&g));
	std::string s; const int n = 1 + sx_choose("n", sx_tier() ? 3 : 2); for (int i = 0; i < n; ++i) s.push_back((char)sx_u8("c")); static const int nums[] = { 0, -5, 40 }; static const char* const texts[] = { "0", "-5", "40" }; const int k = sx_choose("num", 3);
	const bool ok = c.Execute("set to " + escape(s) + " " + texts[k]); SX_ASSERT(ok && g.calls == 1 && g.which == 1, "the handler of a command"); SX_ASSERT(g.s == s && g.n == nums[k], "arguments of a command"); SX_ASSERT(c.Execute("set") && g.calls == 2 && g.which == 2, "a shorter command");
	SX_ASSERT(!c.Execute("set to " + escape(s)) && !c.Execute("set to " + escape(s) + " x") && !c.Execute("se") && !c.Execute("sett") && !c.Execute("list [1") && g.calls == 2, "an incomplete or wrong command is executed"); t2.Reset(); SX_ASSERT(!c.Execute("set") && g.calls == 2, "a removed command is executed"); SX_ASSERT(c.Execute("#set to a 1") && g.calls == 2, "a comment is executed"); sx_reach("text");
}
SX_ENTRY(command_args)
{
	Got g = { 0, 0, "", 0, false, { }, false }; CmdLine c; Token t(c.Handler("list") = HList(&g)); const int n = sx_choose("n", 4); std::vector<int> w; std::string line = "list ["; const bool sp = sx_choose("spaces", 2);
	for (int i = 0; i < n; ++i) { const int d = sx_choose("d", 3); w.push_back(d == 2 ? -12 : d); if (i) line += sp ? " , " : ","; line += d == 2 ? "-12" : d ? "1" : "0"; } const int b = sx_choose("flag", 5); static const char* const flags[] = { "none", "on", "true", "off", "false" }; line += std::string("] ") + flags[b];
	SX_ASSERT(c.Execute(line) && g.calls == 1, "a list is refused"); SX_ASSERT(g.list == w && g.none == (b == 0) && g.b == (b == 1 || b == 2), "elements of a list"); SX_ASSERT(!c.Execute(line + "x") && !c.Execute("list [1,x] on") && !c.Execute("list [1 2] on") && !c.Execute("list [1] maybe") && g.calls == 1, "a wrong list is taken"); sx_reach("args");
}
namespace
{
	struct Words : public function_info<std::set<std::string> ()> { std::set<std::string> operator () () const { std::set<std::string> r; r.insert("one"); r.insert("once"); r.insert("a b"); return r; } };
	struct HWord : public function_info<void (std::string, bool)> { Got* g; HWord(Got* p) : g(p) { } void operator () (const std::string& s, bool b) const { g->which = 4; ++g->calls; g->s = s; g->b = b; } };
}
SX_ENTRY(command_complete)
{
	// what completion offers, added to what was typed, leads to a command that is executed
	Got g = { 0, 0, "", 0, false, { }, false }; CmdLine c; Token t1(c.Handler("go", "far") = HNone(&g, 1)), t2(c.Handler("go", "fast") = HNone(&g, 2)), t3((c.Handler("say") = HWord(&g)) % CustomComplete(0, Words()));
	static const char* const lines[] = { "go far", "go fast", "say one on", "say once off", "say a\\ b true", "say one false" }; static const int which[] = { 1, 2, 4, 4, 4, 4 }; const int l = sx_choose("line", 6); const std::string whole = lines[l]; const size_t cut = sx_choose("cut", (uint32_t)whole.size() + 1); const std::string typed = whole.substr(0, cut);
	CmdLine::CompletionResults r; c.Complete(typed, r); bool leads = cut == whole.size(); for (CmdLine::CompletionResults::const_iterator it = r.begin(); it != r.end(); ++it) if ((whole + " ").compare(0, cut + it->size(), typed + *it) == 0) leads = true; if (cut && typed[cut - 1] == '\\') return; if (l > 1 && cut > 4 && cut < whole.size() && whole[cut] == ' ') leads = true; /* a whole argument goes on to the next one's */ SX_ASSERT(leads, "no completion leads to the command");
	for (CmdLine::CompletionResults::const_iterator it = r.begin(); it != r.end(); ++it) { std::string full = typed + *it; bool known = false; for (int i = 0; i < 6; ++i) if ((std::string(lines[i]) + " ").compare(0, full.size(), full) == 0) known = true; if (full.compare(0, 4, "say ") != 0) SX_ASSERT(known, "a completion leads nowhere"); }
	SX_ASSERT(c.Execute(whole) && g.which == which[l] && g.calls == 1, "a complete command"); sx_reach("completed");
}

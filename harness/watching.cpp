// X08: profilers, watchdogs and guards report exactly what took too long or was not allowed, and nothing else.
#include "threads.h"
#include <stingraykit/diagnostics/AsyncProfiler.h>
#include <stingraykit/diagnostics/CheckpointProfiler.h>
#include <stingraykit/diagnostics/ExternalAPIGuard.h>
#include <stingraykit/diagnostics/ProfileSession.h>
#include <stingraykit/diagnostics/Profiler.h>
#include <stingraykit/diagnostics/ThreadTimeProfiler.h>
#include <stingraykit/log/Logger.h>
#include <stingraykit/log/SystemLogger.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/thread/ThreadOperation.h>
#include <stingraykit/exception.h>
#include <string>
#include <vector>
using namespace stingray;

namespace
{
	struct Rec { std::string name, text; LogLevel::Enum level; };
	struct Sink : public virtual ILoggerSink { std::vector<Rec> got; void Log(const LoggerMessage& m) override { sx_atomic(1); Rec r; r.name = m.GetLoggerName() ? *m.GetLoggerName() : std::string("-"); r.text = m.GetMessage(); r.level = m.GetLogLevel().val(); if (r.name != "PosixThreadEngine") got.push_back(r); sx_atomic(0); } };
	STINGRAYKIT_DECLARE_PTR(Sink);
	SinkPtr gsink;
	std::string num(u64 v) { return ToString(v); }
	void pass(u64 us) { sx_set_clock(sx_clock() + us * 1000); }
	bool has(const Rec& r, const std::string& s) { return r.text.find(s) != std::string::npos; }
}
namespace stingray { void SystemLogger::Log(const LoggerMessage&) noexcept { } }
struct Profiled { static NamedLogger s_logger; static int calls; static void Call(u64 us) { ++calls; pass(us); } static void Fails(u64 us) { pass(us); throw std::runtime_error("no"); } static void Run(int k, u64 t, u64 us) { switch (k) { case 0: { STINGRAYKIT_PROFILER(t, "macro"); pass(us); break; } case 1: { STINGRAYKIT_PROFILER_DEBUG(t, "macro"); pass(us); break; } case 2: { STINGRAYKIT_PROFILER_NO_WHERE(t, std::string("macro")); pass(us); break; } case 3: { STINGRAYKIT_PROFILER_DEBUG_NO_WHERE(t, "macro"); pass(us); break; } case 4: STINGRAYKIT_PROFILE(t, Call(us)); break; case 5: STINGRAYKIT_PROFILE_CRITICAL_TIME(t, Call(us)); break; default: STINGRAYKIT_PROFILE(t, Fails(us)); break; } } };
STINGRAYKIT_DEFINE_NAMED_LOGGER(Profiled); int Profiled::calls;
SX_ENTRY(profilers)
{
	// reported at its end exactly if it took more than the threshold, with its time, level and logger, also when it fails
	gsink = make_shared_ptr<Sink>(); const bool debug = sx_choose("debug", 2); Logger::SetLogLevel(debug ? LogLevel::Debug : LogLevel::Info); const Token tk = Logger::AddSink(gsink); static const u64 limits[3] = { 0, 1, 100 }, off[5] = { 0, 1, 999, 1000, 1001 }; const u64 limit = limits[sx_choose("threshold", 3)], us = limit * 1000 + off[sx_choose("time", 5)], ms = us / 1000; const int k = sx_choose("kind", 9);
	gsink->got.clear(); Profiled::calls = 0; bool thrown = false; try { if (k < 7) Profiled::Run(k, limit, us); else if (k == 7) { const Profiler p("plain", limit); pass(us); } else { const Profiler p(Profiled::s_logger, LogLevel::Warning, "plain", limit); pass(us); } } catch (const std::runtime_error&) { thrown = true; }
	SX_ASSERT(thrown == (k == 6) && Profiled::calls == (k == 4 || k == 5), "what is measured"); const bool want = ms > limit && (debug || (k != 1 && k != 3)); SX_ASSERT(gsink->got.size() == (want ? 1u : 0u), "a report of what took longer than its threshold, or not"); if (want) { const Rec& r = gsink->got[0]; SX_ASSERT(r.text.find(num(ms) + " milliseconds - ") == 0, "the time reported"); SX_ASSERT(has(r, k < 4 ? "macro" : k < 6 ? "Call(us)" : k == 6 ? "Fails(us)" : "plain"), "the name reported"); SX_ASSERT(r.level == (k == 1 || k == 3 ? LogLevel::Debug : k == 8 ? LogLevel::Warning : LogLevel::Info) && r.name == (k == 7 ? "-" : "Profiled"), "the logger of a report"); SX_ASSERT(has(r, "watching.cpp") == (k != 2 && k != 3 && k < 7), "the place reported"); }
	ThreadTimeProfiler real; (void)real; Logger::SetLogLevel(LogLevel::Info); gsink.reset(); sx_reach("profilers");
}
SX_ENTRY(checkpoints)
{
	// the times between checkpoints add up to the time since the start
	CheckpointProfiler p("prof"); bool started = false; u64 since = 0; std::vector<std::pair<std::string, u64> > want; const int steps = sx_tier() ? 5 : 4; static const u64 times[3] = { 0, 1, 2500 };
	for (int i = 0; i < steps; ++i)
	{
		const u64 us = times[sx_choose("time", 3)]; pass(us); since += us;
		switch (sx_choose("op", 4))
		{
		case 0: p.Start(); started = true; since = 0; want.clear(); break;
		case 1: p.Checkpoint(); if (started) { want.push_back(std::make_pair("#" + ToString(want.size()), since)); since = 0; } break;
		case 2: p.Checkpoint("here"); if (started) { want.push_back(std::make_pair(std::string("here"), since)); since = 0; } break;
		default: { const CheckpointProfiler::Result r = p.Stop(); SX_ASSERT(r.ProfilerName == "prof" && r.Checkpoints.size() == want.size(), "checkpoints"); for (size_t j = 0; j < want.size(); ++j) SX_ASSERT(r.Checkpoints[j].Name == want[j].first && r.Checkpoints[j].DurationBefore == TimeDuration::FromMicroseconds(want[j].second), "time before a checkpoint"); want.clear(); started = false; break; }
		}
	}
	const CheckpointProfiler::Result r = p.Stop(); SX_ASSERT(r.Checkpoints.size() == want.size(), "checkpoints"); for (size_t j = 0; j < want.size(); ++j) SX_ASSERT(r.Checkpoints[j].Name == want[j].first && r.Checkpoints[j].DurationBefore == TimeDuration::FromMicroseconds(want[j].second), "time before a checkpoint"); sx_reach("checkpoints");
}
SX_ENTRY(auto_checkpoints)
{
	gsink = make_shared_ptr<Sink>(); Logger::SetLogLevel(LogLevel::Info); const Token tk = Logger::AddSink(gsink); const bool on = sx_choose("enabled", 2), copy = sx_choose("copy", 2); static const u64 times[3] = { 0, 1000, 61000 }; const u64 a = times[sx_choose("a", 3)], b = times[sx_choose("b", 3)], c = times[sx_choose("c", 3)]; CheckpointProfiler tp("t"); tp.Start();
	{ unique_ptr<AutoCheckpointProfiler> p(new AutoCheckpointProfiler("auto", on)); pass(a * 1000); p->Checkpoint("one"); if (copy) { const AutoCheckpointProfiler q(*p); p.reset(); pass(b * 1000); q.Checkpoint("two"); pass(c * 1000); SX_ASSERT(gsink->got.empty(), "reported before its end"); } else { pass(b * 1000); { CheckpointTracer t(tp, "inside"); p->Checkpoint("two"); pass(c * 1000); } } }
	SX_ASSERT(gsink->got.size() == on, "a report at the end"); struct T { static std::string s(u64 ms) { return TimeDuration((s64)ms).ToString(); } }; if (on) SX_ASSERT(gsink->got[0].text == "\n--- auto ---\n" + T::s(a) + " | " + T::s(a) + " | one\n" + T::s(a + b) + " | " + T::s(b) + " | two\n" + T::s(a + b + c) + " | " + T::s(c) + " | stopping the profiler\n", "times of checkpoints"); const CheckpointProfiler::Result r = tp.Stop(); SX_ASSERT(r.Checkpoints.size() == (copy ? 0u : 2u), "a traced scope"); if (!copy) SX_ASSERT(r.Checkpoints[0].Name == "Entered inside" && r.Checkpoints[1].Name == "Left inside" && r.Checkpoints[0].DurationBefore == TimeDuration((s64)(a + b)) && r.Checkpoints[1].DurationBefore == TimeDuration((s64)c), "times of a traced scope"); gsink.reset(); sx_reach("auto");
}
SX_ENTRY(sessions)
{
	// a session's report lists the time of every part of it, and the parts' parts; nothing is reported at or below its threshold
	gsink = make_shared_ptr<Sink>(); Logger::SetLogLevel(LogLevel::Info); const Token tk = Logger::AddSink(gsink); static const u64 times[3] = { 0, 40, 100 }; u64 t[4]; for (int i = 0; i < 4; ++i) t[i] = times[sx_choose("time", 3)]; const bool on = sx_choose("enabled", 2), twice = sx_choose("twice", 2); const u64 limit = sx_choose("threshold", 2) ? 80 : 0;
	{ ProfileSession s("whole", limit, on); { ProfileSession a(s, "a"); pass(t[0] * 1000); { ProfileSession in(a, "in"); pass(t[1] * 1000); } } if (twice) { ProfileSession a(s, "a"); pass(t[2] * 1000); { ProfileSession in(a, "in"); pass(t[0] * 1000); } } { ProfileSession b(s, "b"); pass(t[3] * 1000); } pass(t[2] * 1000); }
	const u64 in = t[1] + (twice ? t[0] : 0), a = t[0] + t[1] + (twice ? t[2] + t[0] : 0), all = a + t[3] + t[2]; struct P { static std::string s(u64 v, u64 of) { return num(v) + " ms. (" + num(v ? v * 100 / of : 0) + "%)\n"; } }; const std::string want = "whole, " + num(all) + " ms.\n\ta, " + P::s(a, all) + "\t\tin, " + P::s(in, a) + "\tb, " + P::s(t[3], all);
	SX_ASSERT(gsink->got.size() == (on && all > limit), "a report of a session that took longer than its threshold, or not"); if (on && all > limit) SX_ASSERT(gsink->got[0].text == want, "times of a session's parts"); gsink.reset(); sx_reach("sessions");
}
SX_ENTRY(guards)
{
	// which operations a thread may do: nested restrictions end with their scopes
	gsink = make_shared_ptr<Sink>(); Logger::SetLogLevel(LogLevel::Info); const Token tk = Logger::AddSink(gsink); typedef ThreadOperation Op; static const Op::Enum op[3] = { Op::Network, Op::IO, Op::UI }; int depth = 0, masks[4] = { 0, 0, 0, 0 }; unique_ptr<ThreadOperationConstrainer> c[3]; unique_ptr<ExclusiveThreadOperation> e[3]; const int steps = 3; const bool exclusive = sx_choose("exclusive", 2);
	struct Mask { static Op of(int m) { if (m == 3) return Op::Network | Op::IO; if (m == 5) return Op::Network | Op::UI; if (m == 6) return Op::IO | Op::UI; return m == 1 ? Op::Network : m == 2 ? Op::IO : Op::UI; } static int bits(int m) { return m; } };
	for (int i = 0; i < steps; ++i)
	{
		if (depth && sx_choose("leave", 2)) { --depth; if (exclusive) e[depth].reset(); else c[depth].reset(); } else { const int m = 1 + sx_choose("mask", 6); if (exclusive) e[depth].reset(new ExclusiveThreadOperation(Mask::of(m))); else c[depth].reset(new ThreadOperationConstrainer(Mask::of(m))); masks[depth + 1] = masks[depth] | m; ++depth; }
		for (int k = 0; k < 3; ++k) { gsink->got.clear(); if (!exclusive) { ThreadOperationReporter r(op[k]); SX_ASSERT(gsink->got.size() == ((masks[depth] >> k) & 1), "an operation that is prohibited is reported, another is not"); if (!gsink->got.empty()) SX_ASSERT(gsink->got[0].level == LogLevel::Error && has(gsink->got[0], Op(op[k]).ToString() + " operations are prohibited"), "report of a prohibited operation"); } else { if ((masks[depth] >> k) & 1) { ExclusiveThreadOperationChecker r(op[k]); SX_ASSERT(gsink->got.empty(), "an operation in its own area"); } } }
	}
	while (depth) { --depth; e[depth].reset(); c[depth].reset(); } gsink->got.clear(); { ThreadOperationReporter r1(Op::Network), r2(Op::IO), r3(Op::UI); } SX_ASSERT(gsink->got.empty(), "restrictions that ended"); gsink.reset(); sx_reach("guards");
}
static int gbad; static void otherThread() { sx_atomic(1); const size_t n = gsink->got.size(); { ThreadOperationReporter r(ThreadOperation::IO); } if (gsink->got.size() != n) ++gbad; { ThreadOperationConstrainer c(ThreadOperation::Network); { ThreadOperationReporter r(ThreadOperation::Network); } if (gsink->got.size() != n + 1) ++gbad; } sx_atomic(0); }
SX_ENTRY(guards_threads)
{
	sx_atomic(1); gsink = make_shared_ptr<Sink>(); gbad = 0; Logger::SetLogLevel(LogLevel::Info); const Token tk = Logger::AddSink(gsink); sx_atomic(0); { ThreadOperationConstrainer c(ThreadOperation::IO); Thr t = go(&otherThread); join(t); } SX_ASSERT(!gbad && gsink->got.size() == 1, "a restriction of another thread"); { ThreadOperationReporter r1(ThreadOperation::Network), r2(ThreadOperation::IO); } SX_ASSERT(gsink->got.size() == 1, "a restriction that ended"); gsink.reset(); sx_reach("guards of threads");
}
SX_ENTRY(api_stack)
{
	// where a thread is, in the library or outside of it, whatever was entered and left
	ExternalAPIGuardStack s; std::vector<std::pair<bool, std::string> > model; static const char* const names[3] = { "a", "b", "c" };
	struct Walk { static void go(ExternalAPIGuardStack& s, std::vector<std::pair<bool, std::string> >& m, int depth) { check(s, m); if (!depth) return; const int k = sx_choose("guard", 4); if (k == 3) return; if (k == 2) { EnterExternalAPIGuardBase none((ExternalAPIGuardStack*)NULL, "none"); LeaveExternalAPIGuardBase none2((ExternalAPIGuardStack*)NULL, "none"); go(s, m, depth - 1); } else { m.push_back(std::make_pair(k == 0, std::string(names[depth - 1]))); if (k == 0) { EnterExternalAPIGuardBase g(&s, names[depth - 1]); go(s, m, depth - 1); if (sx_choose("throw", 2)) { m.pop_back(); throw 1; } } else { LeaveExternalAPIGuardBase g(&s, names[depth - 1]); go(s, m, depth - 1); } m.pop_back(); } check(s, m); }
		static void check(const ExternalAPIGuardStack& s, const std::vector<std::pair<bool, std::string> >& m) { std::string w = m.empty() ? "<external API guard stack empty>" : m.back().first ? "in external API: " : "in stingray: "; for (size_t i = 0; i < m.size(); ++i) { if (i) w += " -> "; w += m[i].second; } SX_ASSERT(s.Get() == w, "the stack of calls"); } };
	try { Walk::go(s, model, 3); } catch (int) { model.clear(); } Walk::check(s, std::vector<std::pair<bool, std::string> >()); sx_reach("stack");
}
namespace
{
	AsyncProfilerPtr gprof; s64 gtime[2], gpause, glimit; int gnames;
	struct Name { std::string operator () () const { ++gnames; return "named"; } };
	void work(int k) { if (k) Thread::Sleep(TimeDuration::FromSeconds(gpause)); { AsyncProfiler::Session s(gprof, k ? std::string("second") : std::string("first"), TimeDuration::FromSeconds(glimit)); Thread::Sleep(TimeDuration::FromSeconds(gtime[k])); } }
	void work0() { work(0); } void work1() { work(1); }
}
SX_ENTRY(watchdog)
{
	// what is still going on after 30 seconds, and every 30 seconds more, is reported at that time; what took longer than its threshold, at its end
	sx_atomic(1); gsink = make_shared_ptr<Sink>(); Logger::SetLogLevel(LogLevel::Info); const Token tk = Logger::AddSink(gsink); static const s64 times[5] = { 1, 29, 31, 59, 61 }; gtime[0] = times[sx_choose("first", 5)]; const bool two = sx_choose("two", 2); gtime[1] = times[sx_choose("second", two ? 5 : 1)]; gpause = two ? (s64[2]){ 10, 45 }[sx_choose("pause", 2)] : 0; glimit = sx_choose("limit", 2) ? 30 : 1; sx_atomic(0);
	gprof = make_shared_ptr<AsyncProfiler>("watch"); { Thr a = go(&work0), b; if (two) b = go(&work1); Thread::Sleep(TimeDuration::FromSeconds(200)); join(a); if (two) join(b); } gprof.reset();
	sx_atomic(1); int still[2] = { 0, 0 }, took[2] = { 0, 0 }; for (size_t i = 0; i < gsink->got.size(); ++i) { const Rec& r = gsink->got[i]; const int k = has(r, "second") && !has(r, "first"); if (r.name == "AsyncProfiler") { ++still[k]; SX_ASSERT(r.level == LogLevel::Error && has(r, k ? "Task second in thread t" : "Task first in thread t"), "report of what is going on"); } else if (r.name == "AsyncProfiler::Session") { ++took[k]; SX_ASSERT(r.level == LogLevel::Warning && has(r, (k ? "second took " : "first took ") + TimeDuration::FromSeconds(gtime[k]).ToString()), "report of what took too long"); } else sx_fail("another report"); }
	for (int k = 0; k < (two ? 2 : 1); ++k) { SX_ASSERT(still[k] == gtime[k] / 30, "what goes on for too long is reported every 30 seconds"); SX_ASSERT(took[k] == (gtime[k] > glimit), "what took longer than its threshold is reported"); } gsink.reset(); sx_atomic(0); sx_reach("watched");
}

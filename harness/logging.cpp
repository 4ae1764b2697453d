// L01: what is logged reaches every sink exactly when its level lets it through; named loggers, sinks, duplicates, reports of actions and exceptions.
#include "threads.h"
#include <stingraykit/log/Logger.h>
#include <stingraykit/log/SystemLogger.h>
#include <stingraykit/diagnostics/AsyncProfiler.h>
#include <stingraykit/exception.h>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace stingray;

namespace
{
	struct Rec { std::string name, text; LogLevel::Enum level; bool hl; };
	std::vector<Rec> gsystem; int gformatted;
	bool own(const LoggerMessage& m) { return m.GetMessage().size() && m.GetMessage()[0] == '<'; } // not the library's own messages
	Rec rec(const LoggerMessage& m) { Rec r; r.name = m.GetLoggerName() ? *m.GetLoggerName() : std::string("-"); r.text = m.GetMessage(); r.level = m.GetLogLevel().val(); r.hl = m.Highlight(); return r; }
	struct Sink : public virtual ILoggerSink
	{
		std::vector<Rec> got; bool fails; int alive; Sink(bool f = false) : fails(f) { }
		void Log(const LoggerMessage& m) override { sx_atomic(1); if (own(m)) { got.push_back(rec(m)); sx_atomic(0); if (fails) throw std::runtime_error("sink"); return; } sx_atomic(0); }
	};
	STINGRAYKIT_DECLARE_PTR(Sink);
	struct Lazy { u32 v; std::string ToString() const { ++gformatted; return "<" + stingray::ToString(v) + ">"; } };
	const LogLevel::Enum LEVELS[6] = { LogLevel::Trace, LogLevel::Debug, LogLevel::Info, LogLevel::Warning, LogLevel::Error, LogLevel::Silent };
	optional<LogLevel> anyLevel(const char* n, int& k) { k = sx_choose(n, 4); static const LogLevel::Enum l[3] = { LogLevel::Debug, LogLevel::Warning, LogLevel::Silent }; if (k == 3) return null; return LogLevel(l[k]); }
	template < typename L_ > void logAt(const L_& l, int k, u32 v) { const Lazy z = { v }; switch (k) { case 0: l.Trace() << z; break; case 1: l.Debug() << z; break; case 2: l.Info() << z; break; case 3: l.Warning() << z; break; case 4: l.Error() << z; break; default: l.Stream(LogLevel::Silent) << z; break; } }
	struct Global { LoggerStream Trace() const { return Logger::Trace(); } LoggerStream Debug() const { return Logger::Debug(); } LoggerStream Info() const { return Logger::Info(); } LoggerStream Warning() const { return Logger::Warning(); } LoggerStream Error() const { return Logger::Error(); } LoggerStream Stream(LogLevel l) const { return Logger::Stream(l); } };
}
namespace stingray
{
	void SystemLogger::Log(const LoggerMessage& m) noexcept { if (own(m)) gsystem.push_back(rec(m)); }
	// profiling is not part of any property
	AsyncProfiler::SessionImpl::SessionImpl(const char* n) : _name(n) { }
	AsyncProfiler::SessionImpl::SessionImpl(const optional<NameGetterFunc>&) : _name("") { }
	AsyncProfiler::Session::Session(const AsyncProfilerPtr&, const char* n, TimeDuration) : _nameHolder(n), _impl(n) { }
	AsyncProfiler::Session::Session(const AsyncProfilerPtr&, const std::string& n, TimeDuration) : _nameHolder(""), _impl("") { }
	AsyncProfiler::Session::Session(const AsyncProfilerPtr&, const NameGetterFunc&, TimeDuration, const NameGetterTag&) : _nameHolder(""), _impl("") { }
	AsyncProfiler::Session::~Session() { }
	AsyncProfiler::AsyncProfiler(const std::string&) { }
}

SX_ENTRY(levels)
{
	const int g = sx_choose("global", 6), o = sx_choose("own", 7), k = sx_choose("level", 6); const u32 v = sx_u8("v"); SX_ASSUME(v < 10);
	Logger::SetLogLevel(LEVELS[g]); SX_ASSERT(Logger::GetLogLevel() == LEVELS[g], "the level of all loggers"); const NamedLogger n("n", o < 6 ? optional<LogLevel>(LogLevel(LEVELS[o])) : null); const int e = o < 6 ? o : g; SX_ASSERT(n.GetLogLevel() == LEVELS[e], "the level of a named logger");
	SinkPtr s = make_shared_ptr<Sink>(); const Token t = Logger::AddSink(s); gformatted = 0; logAt(n, k, v); SX_ASSERT(s->got.size() == (k >= e), "a message below the level of its logger, or none at it"); SX_ASSERT(gformatted == (k >= e), "a message is put together only if it is logged");
	if (k >= e) SX_ASSERT(s->got[0].name == "n" && s->got[0].level == LEVELS[k] && s->got[0].text == std::string("<") + (char)('0' + v) + ">" && !s->got[0].hl, "what is logged by name");
	s->got.clear(); logAt(Global(), k, v); SX_ASSERT(s->got.size() == (k >= g), "a message below the level, or none at it"); if (k >= g) SX_ASSERT(s->got[0].name == "-" && s->got[0].level == LEVELS[k] && s->got[0].text == std::string("<") + (char)('0' + v) + ">", "what is logged");
	s->got.clear(); { Detail::NamedLoggerAccessor a; a = n; logAt(a, k, v); a = null; logAt(a, k, v); Detail::NamedLoggerAccessor b; logAt(b, k, v); SX_ASSERT(s->got.size() == 2u * (k >= e) + (k >= g), "an accessor of a logger"); }
	s->got.clear(); { LoggerStream a = n.Stream(LogLevel::Error); LoggerStream b(std::move(a)); b << "<" << (int)v << ">"; } SX_ASSERT(s->got.size() == (4 >= e) && (e > 4 || s->got[0].text == std::string("<") + (char)('0' + v) + ">"), "a stream that moved logs once"); sx_reach("levels");
}
SX_ENTRY(sinks)
{
	Logger::SetLogLevel(LogLevel::Info); SinkPtr s[3]; Token t[4]; int which[4], n = 0; std::vector<int> order; for (int i = 0; i < 3; ++i) s[i] = make_shared_ptr<Sink>(i == 1); gsystem.clear(); int logged = 0; const int steps = sx_tier() ? 5 : 4;
	for (int i = 0; i < steps; ++i)
	{
		const int op = sx_choose("op", 3);
		if (op == 0 && n < 4) { const int k = sx_choose("sink", 3); t[n] = Logger::AddSink(s[k]); which[n] = k; order.push_back(n); ++n; }
		else if (op == 1 && n) { const int k = sx_choose("token", n); t[k].Reset(); for (size_t j = 0; j < order.size(); ++j) if (order[j] == k) { order.erase(order.begin() + j); break; } }
		size_t had[3]; for (int j = 0; j < 3; ++j) had[j] = s[j]->got.size(); const size_t sys = gsystem.size(); ++logged; Logger::Info() << "<" << logged; Logger::Debug() << "<below"; size_t want[3] = { 0, 0, 0 }; for (size_t j = 0; j < order.size(); ++j) ++want[which[order[j]]];
		for (int j = 0; j < 3; ++j) { SX_ASSERT(s[j]->got.size() == had[j] + want[j], "every sink gets every message while it is connected"); if (want[j]) SX_ASSERT(s[j]->got.back().text == "<" + ToString(logged), "the message of a sink"); } SX_ASSERT(gsystem.size() == sys + order.empty(), "a message without sinks goes to the system");
	}
	for (int i = 0; i < n; ++i) t[i].Reset(); for (int j = 0; j < 3; ++j) SX_ASSERT(s[j].use_count() == 1, "a sink is kept after it was disconnected"); sx_reach("sinks");
}
namespace { struct Set { bool has; optional<LogLevel> level; bool back, hl; Set() : has(false), back(false), hl(false) { } }; }
SX_ENTRY(named)
{
	const std::set<std::string> others = Logger::GetLoggerNames();
	// what is set by name holds for loggers created before and after; what is not set is the logger's own
	Logger::SetLogLevel(LogLevel::Info); const char* names[2] = { "a", "b" }; Set byName[2]; unique_ptr<NamedLogger> l[2]; int who[2] = { 0, 0 }; optional<LogLevel> level[2]; bool hl[2] = { false, false }; SinkPtr s = make_shared_ptr<Sink>(); const Token t = Logger::AddSink(s); const int steps = sx_tier() ? 4 : 3; bool moved = false;
	for (int i = 0; i < steps; ++i)
	{
		const int op = sx_choose("op", 5), x = sx_choose("x", 2);
		switch (op)
		{
		case 0: if (!l[x]) { who[x] = sx_choose("name", 2); const Set& w = byName[who[x]]; int k; const optional<LogLevel> own = anyLevel("own", k); l[x].reset(new NamedLogger(names[who[x]], own)); level[x] = w.level ? w.level : own; hl[x] = w.hl; } else l[x].reset(); break;
		case 1: { int k; const optional<LogLevel> v = anyLevel("level", k); Logger::SetLogLevel(names[x], v); byName[x].level = v; for (int j = 0; j < 2; ++j) if (l[j] && who[j] == x) level[j] = v; break; }
		case 2: { const bool h = sx_choose("on", 2); Logger::EnableHighlight(names[x], h); byName[x].hl = h; for (int j = 0; j < 2; ++j) if (l[j] && who[j] == x) hl[j] = h; break; }
		case 3: if (l[x]) { int k; const optional<LogLevel> v = anyLevel("level", k); l[x]->SetLogLevel(v); level[x] = v; } break;
		default: { Logger::SetLogLevel(moved ? LogLevel::Info : LogLevel::Error); moved = !moved; break; }
		}
	}
	std::set<std::string> want = others; for (int j = 0; j < 2; ++j)
	{
		SX_ASSERT(Logger::GetLogLevel(names[j]) == byName[j].level, "the level set by name"); if (!l[j]) continue; want.insert(names[who[j]]); const LogLevel e = level[j] ? *level[j] : LogLevel(moved ? LogLevel::Error : LogLevel::Info); SX_ASSERT(l[j]->GetLogLevel() == e, "the level of a logger with a name"); SX_ASSERT(l[j]->HighlightEnabled() == hl[j] && !l[j]->BacktraceEnabled() && l[j]->GetName() == names[who[j]], "settings of a logger");
		s->got.clear(); l[j]->Warning() << "<w"; SX_ASSERT(s->got.size() == (LogLevel::Warning >= e.val()) && (s->got.empty() || (s->got[0].hl == hl[j] && s->got[0].name == names[who[j]])), "a message of a named logger");
	}
	SX_ASSERT(Logger::GetLoggerNames() == want, "the names of loggers"); l[0].reset(); l[1].reset(); SX_ASSERT(Logger::GetLoggerNames() == others, "names of loggers that are gone");
	for (int j = 0; j < 2; ++j) { Logger::SetLogLevel(names[j], null); Logger::EnableHighlight(names[j], false); } Logger::SetLogLevel(LogLevel::Info); sx_reach("named");
}
SX_ENTRY(duplicates)
{
	// repeated messages are hidden but counted: none is lost, each new one is shown at once
	Logger::SetLogLevel(LogLevel::Info); SinkPtr s = make_shared_ptr<Sink>(); const Token t = Logger::AddSink(s); const NamedLogger n("n"); DuplicatingLogsFilter filter; const int kind = sx_choose("kind", 2), limit = kind ? 0 : 1 + sx_choose("limit", 3), len = sx_tier() ? 7 : 6; std::string last; unsigned pending = 0; u64 clock = sx_clock(), from = 0;
	for (int i = 0; i < len; ++i)
	{
		if (kind) { clock += sx_choose("time", 2) ? 10000000 : 4000000; sx_set_clock(clock); } const std::string text = i && sx_choose("text", 2) ? "<x" : "<y"; s->got.clear(); if (kind) n.Info() << STINGRAYKIT_HIDE_DUPLICATING_LOGS(TimeDuration(10)) << text; else n.Info() << STINGRAYKIT_HIDE_DUPLICATING_LOGS((unsigned)limit) << text;
		std::vector<std::string> want; if (text != last) { if (pending) want.push_back(last + " (" + ToString(pending) + " times)"); want.push_back(text); pending = 0; from = clock; last = text; } else { ++pending; if (kind ? clock - from >= 10000000 : pending >= (unsigned)limit) { want.push_back(last + " (" + ToString(pending) + " times)"); pending = 0; from = clock; } }
		SX_ASSERT(s->got.size() == want.size(), "messages shown for a repeated one"); for (size_t j = 0; j < want.size(); ++j) SX_ASSERT(s->got[j].text == want[j] && s->got[j].level == LogLevel::Info && s->got[j].name == "n", "text of a repeated message");
	}
	s->got.clear(); for (int i = 0; i < 3; ++i) { n.Info() << STINGRAYKIT_HIDE_DUPLICATING_LOGS(9u) << "<p"; n.Info() << STINGRAYKIT_HIDE_DUPLICATING_LOGS(9u, filter) << "<p"; Logger::Stream(LogLevel::Info, &filter) << STINGRAYKIT_HIDE_DUPLICATING_LOGS(9u) << "<p"; } SX_ASSERT(s->got.size() == 2 || s->got.size() == 3, "places of repeated messages");
	s->got.clear(); for (int i = 0; i < 3; ++i) Logger::Info() << STINGRAYKIT_HIDE_DUPLICATING_LOGS(9u) << "<p"; SX_ASSERT(s->got.size() == 3, "repeated messages without a filter"); SX_ASSERT(SX_THROWS(STINGRAYKIT_HIDE_DUPLICATING_LOGS(0u)) && SX_THROWS(STINGRAYKIT_HIDE_DUPLICATING_LOGS(TimeDuration())), "a limit of nothing"); sx_reach("duplicates");
}
namespace { struct Loud { static NamedLogger s_logger; static int Try(int k) { int r = 0; STINGRAYKIT_TRY("<try", r = 1; if (k == 1) throw std::runtime_error("<oops"); if (k == 2) STINGRAYKIT_THROW("<made"); r = 2); return r; } static int Rethrow(int k) { int r = 0; STINGRAYKIT_LOG_EXCEPTIONS("<again", r = 1; if (k) throw std::runtime_error("<oops"); r = 2); return r; } static int Other() { STINGRAYKIT_TRY("<other", throw 5); return 0; } }; NamedLogger Loud::s_logger("loud"); }
SX_ENTRY(reports)
{
	Logger::SetLogLevel(LogLevel::Info); SinkPtr s = make_shared_ptr<Sink>(); const Token t = Logger::AddSink(s); const int k = sx_choose("exception", 3);
	SX_ASSERT(Loud::Try(k) == (k ? 1 : 2), "an exception goes on"); SX_ASSERT(s->got.size() == (k != 0), "an exception is reported once"); if (k) SX_ASSERT(s->got[0].name == "loud" && s->got[0].level == LogLevel::Warning && s->got[0].text.find("<try:\n") == 0 && s->got[0].text.find(k == 1 ? "<oops" : "<made") != std::string::npos, "report of an exception");
	s->got.clear(); bool thrown = false; try { Loud::Rethrow(k == 1); } catch (const std::runtime_error& e) { thrown = std::string(e.what()) == "<oops"; } SX_ASSERT(thrown == (k == 1) && s->got.size() == (k == 1), "an exception that is reported and goes on"); bool other = false; try { Loud::Other(); } catch (int v) { other = v == 5; } SX_ASSERT(other, "what is not an exception of the library");
	s->got.clear(); const int g = sx_choose("level", 3); Logger::SetLogLevel(g == 0 ? LogLevel::Trace : g == 1 ? LogLevel::Info : LogLevel::Error); try { ActionLogger a("<doing"); sx_set_clock(sx_clock() + 1234567); if (k) throw 1; } catch (int) { } if (g < 2) { SX_ASSERT(s->got.size() == 2 && s->got[0].text == "<doing..." && s->got[1].text == (k ? "<doing completed with exception in 1.234 ms" : "<doing completed in 1.234 ms"), "report of an action"); } else SX_ASSERT(s->got.empty(), "report of an action below the level"); Logger::SetLogLevel(LogLevel::Info); sx_reach("reports");
}
namespace
{
	NamedLogger* glog; DuplicatingLogsFilter* gfilter; int gk; Sink* gsink; SinkPtr* gadd;
	void say(const char* text) { if (gk == 1) glog->Info() << STINGRAYKIT_HIDE_DUPLICATING_LOGS(2u) << text; else if (gk == 2) glog->Info() << text; else Logger::Info() << text; }
	void sayOne() { say("<1"); say("<1"); }
	void sayTwo() { if (gk == 2) { Token t = Logger::AddSink(*gadd); say("<2"); } else { say("<2"); say("<1"); } }
	void setLevel() { if (gk == 0) Logger::SetLogLevel(LogLevel::Error); else if (gk == 1) { Logger::SetLogLevel("t", LogLevel(LogLevel::Error)); } else { NamedLogger other("t"); other.Warning() << "<3"; } }
}
SX_ENTRY(log_threads)
{
	sx_atomic(1); Logger::SetLogLevel(LogLevel::Info); gk = sx_choose("kind", 3); NamedLogger n("t"); glog = &n; SinkPtr s = make_shared_ptr<Sink>(), s2 = make_shared_ptr<Sink>(); gadd = &s2; const Token t = Logger::AddSink(s); const bool third = sx_choose("third", 2); sx_atomic(0);
	{ Thr a = go(&sayOne), b = go(&sayTwo), c; if (third) c = go(&setLevel); join(a); join(b); if (third) join(c); }
	sx_atomic(1); int n1 = 0, n2 = 0, n3 = 0, times = 0; for (size_t i = 0; i < s->got.size(); ++i) { const std::string& x = s->got[i].text; if (x == "<1") ++n1; else if (x == "<2") ++n2; else if (x == "<3") ++n3; else { SX_ASSERT(gk == 1 && x.size() > 4 && x.find(" times)") != std::string::npos, "a message nobody logged"); times += x[4] - '0'; } }
	if (gk == 0 && !third) SX_ASSERT(n1 == 3 && n2 == 1 && s->got.size() == 4, "messages of threads"); if (gk == 2) { SX_ASSERT(n1 == 2 && n2 == 1 && n3 == (third ? 1 : 0), "messages of threads"); int m2 = 0; for (size_t i = 0; i < s2->got.size(); ++i) m2 += s2->got[i].text == "<2"; SX_ASSERT(m2 == 1, "a message of a thread to its sink"); }
	if (gk == 1 && !third) SX_ASSERT(n2 == 1 && n1 >= 1 && n1 + times <= 3, "repeated messages of threads"); Logger::SetLogLevel("t", null); Logger::SetLogLevel(LogLevel::Info); sx_atomic(0); sx_reach("logged");
}
